"""The same scripts on builds that must not differ, and on builds that differ
as announced."""
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import suite_codec, suite_misc, suite_parser

ALL = lambda b: True
MISC = ("seg", "tgt", "bnd", "box", "rfloat", "num", "left", "buf")


def same(run, name, logs):
    """logs: {variant: log}; every line must be the same in all of them."""
    names = list(logs)
    zipped = run.path(f"same-{name}.ndjson")
    with open(zipped, "w") as out:
        files = [open(logs[v]) for v in names]
        for recs in zip(*files, strict=True):
            out.write('{"v":[' + ",".join(r.rstrip("\n") for r in recs) + "]}\n")
        for f in files:
            f.close()
    n = sum(1 for _ in open(zipped))
    run.traces += n * len(names)
    bad = run.validate("SameLogs", zipped, expect=2 * n)
    for b in bad:
        b["builds"] = [names[o["build"] - 1] for o in b.get("odd", [])]
    run.report(bad, zipped, ALL, f"{name}/" + "+".join(names))
    run.notes[f"{name}_compared"] = f"{n} histories on {len(names)} builds: {' '.join(names)}"


def builds(variants):
    bins = ["parser", "codec", "misc"]
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(variants, ex.map(lambda v: build(bins, v), variants)))


def check(run, size=1.0):
    quick = run.tier == "quick"
    like = ["int", "intlite", "store"] + ([] if quick else ["intrel"])
    options = ["complete", "padck", "hexin"] + ([] if quick else ["rangeck"])
    full = ["full"] + ([] if quick else ["fulllite", "fullrel"])
    dirs = builds(like + options + full)

    sc = suite_parser.script(run, run.tier)
    same(run, "parser", {v: run.drive(dirs[v], "parser", sc, f"parser-{v}.ndjson", shards=8) for v in like + full})

    def codec(first, vs, size, tag):
        script, env, cfg = suite_codec.prepare(run, first, dirs[first], size=size, tag=tag)
        # its bound, which its errors report, depends on the build
        script = [x for x in script if '"fixvast"' not in x]
        logs = {v: run.drive(dirs[v], "codec", script, f"codec-{v}.ndjson", shards=8) for v in vs}
        return script, logs, env
    script, logs, env = codec("int", like, size, "")
    same(run, "codec", logs)
    # each option changes what it announces: judged with its own constants
    for v in options:
        log = run.drive(dirs[v], "codec", script, f"codec-{v}.ndjson", shards=8)
        if v == "hexin":
            same(run, "codec-hexin", {"int": logs["int"], v: log})
        else:
            suite_codec.judge(run, log, ALL, env, suite_codec.consts(v), f"codec/{v}")
    _, logs, env = codec("full", full, size * .6, "full-")
    if len(full) > 1:
        same(run, "codec-full", logs)
    suite_codec.judge(run, logs["full"], ALL, env, suite_codec.consts("full"), "codec/full")

    # histories of the other parts, by what may change them
    for name, kinds, differ in (("misc", MISC, ()), ("rint", ("rint",), ("rangeck", "full")), ("hex", ("hex",), ("hexin", "full"))):
        sc = []
        for k in kinds:
            sc += suite_misc.script(run, k, dirs["int"], size)
        logs = {v: run.drive(dirs[v], "misc", sc, f"{name}-{v}.ndjson", shards=8) for v in like + options + full}
        odd = [v for v in logs if v.startswith(differ) and differ]
        same(run, name, {v: logs[v] for v in logs if v not in odd})
        for v in odd:
            suite_misc.judge(run, logs[v], sc, ALL, v)
