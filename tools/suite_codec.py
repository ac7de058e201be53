"""Values and inputs for the wire language: those enumerated by the
specification (values, encodings, inputs one edit away from an encoding) and
random ones; and the validation of what the code makes of them."""
import json, os
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS
  CheckPad = %s
  RangeCheck = %s
  Complete = %s
"""
LAWS = ("Shaped RoundTrip Framed PrefixFree Lengths Minimal Total Stable Local Pumped Out Laid")


def consts(variant):
    f = flags(variant)
    return CFG % (f["padck"], f["rangeck"], f["complete"])


# -- schemas ----------------------------------------------------------------
def schemas(run, bindir):
    log = run.drive(bindir, "codec", [{"op": "schemas"}], "schemas.ndjson")
    with open(log) as f:
        return {o["n"]: o["s"] for o in json.loads(f.readline())}


def refs(s):
    if isinstance(s, dict):
        r = {s["n"]} if s.get("k") == "ref" else set()
        for x in s.values():
            r |= refs(x)
        return r
    if isinstance(s, list):
        return set().union(set(), *[refs(x) for x in s])
    return set()


def closure(types, names):
    seen, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += refs(types[n])
    return seen


def kinds(types, s, seen=()):
    if isinstance(s, list):
        return set().union(set(), *[kinds(types, x, seen) for x in s])
    if not isinstance(s, dict):
        return set()
    r = {s["k"]} if "k" in s else set()
    if s.get("k") == "ref":
        return r if s["n"] in seen else r | kinds(types, types[s["n"]], seen + (s["n"],))
    for x in s.values():
        r |= kinds(types, x, seen)
    return r


# -- random values ----------------------------------------------------------
EDGE = [0, 1, 2, 127, 128, 129, 254, 255]
FLOATS = [[0] * 8, [128] + [0] * 7, [63, 240] + [0] * 6, [127, 240] + [0] * 6, [255, 240] + [0] * 6,
          [127, 248] + [0] * 6, [64, 89, 0, 0, 0, 0, 0, 1], [191, 224, 0, 0, 0, 0, 0, 0]]


def i64(b):
    return int.from_bytes(bytes(b), "big", signed=True)


def b64(n):
    return list(n.to_bytes(8, "big", signed=True))


def rbyte(rng):
    return rng.choice(EDGE) if rng.random() < .5 else rng.randrange(256)


def mag(rng, zero_ok=True):
    k = rng.choice([3, 6, 7, 8, 13, 14, 15, 16, 20, 27, 31, 32, 33, 62, 63, 64, 65, 100, 200, 300])
    if rng.random() < .1:
        k = rng.choice([248, 256, 257, 400, 520, 1030, 2060, 4100])
    n = rng.getrandbits(k)
    if rng.random() < .3:
        n = max(0, (1 << rng.randint(0, 130)) + rng.choice([-1, 0, 1]))
    if n == 0 and not zero_ok:
        n = 1
    b = list(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))
    return [len(b)] + b


def text(rng, n):
    s = "".join(rng.choice("az09 \r\n\ufeff\x00\x7f\u0080\u00e9\u07ff\u0800\u20ac\ufffd\uffff\U00010000\U0010ffff") for _ in range(n))
    return list(s.encode())


# bounds beyond every input
VAST = 1000


def value(types, s, rng, depth=0):
    k = s["k"]
    if k == "unit":
        return []
    if k == "bool":
        return [rng.randint(0, 1)]
    if k in ("int", "fix"):
        n = s["w"] if k == "int" else s["n"]
        if k == "int" and n == 8 and rng.random() < .5:
            return rng.choice(FLOATS)
        b = [rbyte(rng) for _ in range(n)]
        if k == "fix" and rng.random() < .5:
            b = [rng.choice([65, 98, 48, 32]) for _ in range(n)]
        return b
    if k == "rint":
        lo, hi = i64(s["lo"]), i64(s["hi"])
        n = rng.choice([lo, hi, lo + 1, hi - 1, rng.randint(min(lo, hi), max(lo, hi)), 0, lo - 1, hi + 1])
        return b64(max(-2 ** 31, min(2 ** 31 - 1, n)))
    if k == "rfloat":
        import struct
        r = rng.random()
        if r < .6:
            return list(struct.pack(">d", rng.uniform(-2, 2) if r < .3 else rng.uniform(-150, 150)))
        return rng.choice(FLOATS + [s["lo"], s["hi"]])
    if k == "N":
        return mag(rng)
    if k == "Z":
        m = mag(rng)
        return [0 if m == [1, 0] else rng.choice([1, 2])] + m
    if k == "bytes":
        n = rng.choice([0, 1, 2, 3, 5, 9, 40] if rng.random() < .9 else [64, 65, 100, 129, 255, 256, 257, 400])
        return [n] + [rbyte(rng) for _ in range(n)]
    if k == "string":
        b = text(rng, rng.choice([0, 1, 2, 4, 7] if rng.random() < .93 else [20, 40, 90]))
        return [len(b)] + b
    if k in ("opt", "null"):
        return [0] if rng.random() < .25 else [1] + value(types, s["t"], rng, depth)
    if k in ("seq", "lim", "fixseq"):
        if k == "seq" or s["n"] > VAST:
            n = rng.choice([0, 1, 2, 3, 4, 7] if rng.random() < .95 or depth else [9, 17, 33, 70]) if depth < 3 else 0
        elif k == "lim":
            n = rng.randint(0, s["n"] + (rng.random() < .1)) if s["n"] < 9 or rng.random() < .8 else s["n"] + rng.choice([0, 0, 1])
        else:
            n = s["n"] if rng.random() < .8 else rng.randint(0, s["n"] + 1)
        return [n] + sum([value(types, s["t"], rng, depth + 1) for _ in range(n)], [])
    if k == "struct":
        return sum([value(types, x, rng, depth + 1) for x in s["f"]], [])
    if k == "enum":
        return [rng.randrange(len(s["tags"]))]
    if k == "union":
        i = rng.randrange(len(s["v"]))
        if depth > 6:
            i = 0
        elif depth < 0:
            i = len(s["v"]) - 1
        return [i] + sum([value(types, x, rng, depth + 1) for x in s["v"][i]], [])
    if k in ("dyn", "pad", "vpad", "box"):
        return value(types, s["t"], rng, depth + (k == "box"))
    if k == "ref":
        return value(types, types[s["n"]], rng, depth + 1)
    raise ToolError(k)


TAIL = [[], [], [0], [255], [0, 0, 0, 0, 0], [128, 128, 1], [1, 2, 3, 4, 5, 6, 7, 8, 9]]


def mutate(rng, b):
    b = list(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(b) + 1)
        if r < .3 and b:
            b[i % len(b)] = rbyte(rng)
        elif r < .45 and b:
            b[i % len(b)] ^= 1 << rng.randrange(8)
        elif r < .55 and b:
            b[i % len(b)] = (b[i % len(b)] + rng.choice([1, 255])) % 256
        elif r < .7:
            b = b[:i]
        elif r < .8:
            b.insert(i, rbyte(rng))
        elif r < .87:
            f = rng.choice(FRAGMENTS)
            b = b[:i] + f + b[i + (len(f) if rng.random() < .5 else 0):]
        else:
            b = b + [rbyte(rng) for _ in range(rng.randint(1, 4))]
    return b


def placed(rng, t, b, trace):
    """A decode of b: the whole input, or within a window of a larger one."""
    d = {"op": "dec", "t": t, "frame": 0}
    if trace:
        d["tr"] = 1
    r = rng.random()
    if r < .4:
        d.update(buf=b, pre=0, win=-1)
    elif r < .55:
        d.update(buf=b + rng.choice(TAIL), pre=0, win=-1)
    else:
        pre, tail = [rbyte(rng) for _ in range(rng.choice([0, 1, 3]))], rng.choice(TAIL)
        buf = pre + b + tail
        room = len(buf) - len(pre)
        win = rng.choice([len(b), len(b), len(b), room, max(0, len(b) - 1), min(room, len(b) + 1), -1])
        d.update(buf=buf, pre=len(pre), win=win)
    return d


def framed(rng, t, b):
    f = [len(b) >> 8 & 255, len(b) & 255] + b + rng.choice(TAIL)
    if rng.random() < .2:
        f[1] = (f[1] + rng.choice([1, 255, 2])) % 256
    return {"op": "dec", "t": t, "frame": 1, "buf": f, "pre": 0, "win": -1}


def mix(rng, names, byt):
    """Several types decoded in turn, with windows around them."""
    buf, steps = [], []
    names = [n for n in names if byt[n]]

    def noise():
        for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2])):
            o = rng.choice(["open", "close", "test", "take", "skip", "test", "take", "skip"])
            n = rng.choice([0, 0, 1, 1, 2, 5]) if o != "open" else rng.choice([0, 1000, 10 ** 9])
            if o in ("take", "skip") and rng.random() < .95:
                buf.extend(rbyte(rng) for _ in range(n))
            steps.append({"o": o, "n": n})

    def some(depth):
        for _ in range(rng.randint(1, 3)):
            noise()
            if depth < 3 and rng.random() < .4:
                steps.append(w := {"o": "open", "n": 0})
                at = len(buf)
                some(depth + 1)
                w["n"] = len(buf) - at
                if rng.random() < .07:
                    w["n"] = max(0, w["n"] + rng.choice([-1, 1, 3]))
                if rng.random() < .3:
                    steps.append({"o": "test"})
                if rng.random() < .9:
                    steps.append({"o": "close"})
            else:
                t = rng.choice(names)
                b = rng.choice(byt[t])
                if len(b) > 60:
                    continue
                if rng.random() < .04:
                    b = mutate(rng, b)
                # in a window of its own, or open to what follows
                own = rng.random() < .7
                if own:
                    steps.append({"o": "open", "n": len(b)})
                steps.append({"o": "dec", "t": t})
                buf.extend(b)
                if own:
                    steps.append({"o": "close"})
    some(0)
    if rng.random() < .3:
        buf += rng.choice(TAIL)
    return {"op": "mix", "t": "-", "frame": 0, "buf": buf, "steps": steps}


def item(types, s):
    """What repeats in the type, how wide its length prefix is and how often
    it must repeat at least; or None."""
    if s["k"] in ("lim", "vpad") and s["n"] > VAST:
        return None
    if s["k"] in ("N", "Z", "bytes", "string", "seq", "lim"):
        return s, 0, 3
    if s["k"] == "box":
        return item(types, s["t"])
    if s["k"] == "vpad":
        r = item(types, s["t"])
        return r and (r[0], r[1], r[2] + s["n"])
    if s["k"] == "ref":
        return item(types, types[s["n"]])
    if s["k"] == "dyn" and s["p"] > 1:
        r = item(types, s["t"])
        return (r[0], s["p"], r[2]) if r and r[1] == 0 else None
    return None


def pumps(types, names, whole, rng, size):
    """Long inputs: many times over an encoding (of items, a text, digits of a
    number), and a tail."""
    out = []
    for t in names:
        got = item(types, types[t])
        if got is None or "ref" in kinds(types, got[0]):
            continue
        s, w, m = got
        if s["k"] == "lim":
            m += s["n"]
        for _ in range(max(1, int(2 * size))):
            if s["k"] in ("N", "Z"):
                pat = [128 | rbyte(rng) for _ in range(rng.choice([1, 1, 2, 5]))]
                tails = [[1], [63], [127], [1, 7], [], [0]]
            elif s["k"] == "bytes":
                pat = [rbyte(rng) for _ in range(rng.choice([1, 3, 8]))]
                tails = [[], [0], [1, 2, 3]]
            elif s["k"] == "string":
                pat = rng.choice([[97], [0xc3, 0xa9], [0xf0, 0x90, 0x80, 0x80], [0], [65, 0xe2, 0x82, 0xac]])
                tails = [[], [66], [0xff], [0xe2, 0x82]]
            else:
                # items that do not depend on the view
                if {"bytes", "string", "null", "seq", "lim", "vpad"} & reach(s["t"]):
                    continue
                pool = [b for b in whole[t] if 0 < len(b) - w < 14]
                if not pool:
                    continue
                b = rng.choice(pool)
                pat = b[w:]
                tails = [[], [], [0], [255], [1, 2, 3], b[w:][:-1]]
            tail = rng.choice(tails)
            top = 65000 if w == 2 else rng.choice([300, 5000, 70000, 300000 if s["k"] in ("N", "Z", "seq", "lim") else 3000000])
            n = max(40, top // len(pat) - 50)
            out.append({"op": "pump", "t": t, "frame": 0, "pat": pat, "tail": tail, "n": n + m, "m": m, "w": w,
                        "lie": rng.choice([0, 0, 0, 1, -1]) if w else 0, "win": rng.choice([0, 0, 1])})
    return out


def reach(s):
    """The kinds of parts of a type that see the view it is decoded in."""
    k = s.get("k")
    if k in ("dyn", "N", "Z", "ref"):
        return set()
    r = {k}
    for x in s.values():
        for y in (x if isinstance(x, list) else [x]):
            for z in (y if isinstance(y, list) else [y]):
                if isinstance(z, dict):
                    r |= reach(z)
    return r


def prepare(run, variant, bindir, want=None, ops=("dec", "enc", "rt", "tagq", "big", "mix"), size=1.0, trace=False, also=None,
            tag=""):
    """The script of records, the environment and the constants of their
    validation.  `want` chooses types by the kinds of their parts."""
    thorough = run.tier == "thorough"
    types = schemas(run, bindir)
    names = sorted(n for n in types if want is None or want(kinds(types, types[n])) or also and n in also)
    sub = {n: types[n] for n in sorted(closure(types, names))}
    sfile = run.write("schemas.json", [sub])
    env = {"SCHEMAS": sfile}
    cfg = consts(variant)
    lines, gen, dist = run.tlc("CodecMC", cfg + "  Edits = 1\n  Emit = TRUE\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % LAWS,
                               env=env)
    run.notes[tag + "wire_model"] = f"CodecMC: {len(sub)} types, {dist} states; laws {LAWS}"
    if thorough:
        _, _, d2 = run.tlc("CodecMC", cfg + "  Edits = 2\n  Emit = FALSE\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % LAWS,
                           env=env, tag="-2")
        run.notes[tag + "wire_model_deep"] = f"CodecMC with two edits: {d2} states"
    vec = sorted((v for v in Run.tagged(lines, "VEC") if v["t"] in names), key=jline)
    inp = sorted((v for v in Run.tagged(lines, "INP") if v["t"] in names), key=jline)
    script = make_script(run, types, names, vec, inp, ops, bindir, size * (12 if thorough else 1), trace, tag)
    return script, env, cfg


def check(run, select, want=None, ops=("dec", "enc", "rt", "tagq", "big", "mix"), variants=("dev",), size=1.0, trace=False,
          also=None):
    """Records of the chosen operations on each variant (all with the same
    options), judged by TraceCodec."""
    assert len({consts(v) for v in variants}) == 1
    tag = variants[0] + "-" if variants[0] != "dev" else ""
    dirs = {v: build(["codec"], v) for v in variants}
    script, env, cfg = prepare(run, variants[0], dirs[variants[0]], want, ops, size, trace, also, tag)
    logs = []
    for v in variants:
        log = run.drive(dirs[v], "codec", script, f"codec-{v}.ndjson", shards=8)
        twin = next((x for x in logs if open(x).read() == open(log).read()), None)
        if twin:
            run.notes[f"{v}_log_identical_to"] = os.path.basename(twin)
            os.unlink(log)
            continue
        logs.append(log)
        judge(run, log, select, env, cfg, f"codec/{v}")
    sample(run, logs[0])
    return logs


def judge(run, log, select, env, cfg, label):
    n = sum(1 for _ in open(log))
    run.traces += n
    run.steps += n
    bad = run.validate("TraceCodec", log, cfg + "CHECK_DEADLOCK FALSE\n", env=env, expect=2 * n, timeout=800)
    run.report(bad, log, select, label)


def sample(run, log):
    with open(log) as f:
        for i, l in enumerate(f):
            if i % 1499 == 7 and len(run.samples) < 5:
                run.samples.append(json.loads(l) if len(l) < 2500 else l[:1200])


def pairs(run, types, names, pool, rng, size):
    """Values to compare with each other, as such and as decoded."""
    out = []
    for t in names:
        vs = [value(types, types[t], rng) for _ in range(8)]
        bs = pool[t] or [[]]

        def side():
            r = rng.random()
            if r < .4:
                return {"k": "v", "v": rng.choice(vs)}
            b = rng.choice(bs)
            return {"k": "b", "v": b if r < .7 or len(b) > 300 else mutate(rng, b)}
        for _ in range(int(30 * size)):
            a = side()
            r = rng.random()
            if r < .25:
                b = a
            elif r < .6:                            # something similar
                b = {"k": a["k"], "v": list(a["v"])}
                if a["k"] == "b":
                    b["v"] = mutate(rng, a["v"]) if len(a["v"]) < 300 else a["v"]
                else:
                    v = value(types, types[t], rng)
                    b["v"] = v if rng.random() < .5 else rng.choice(vs)
            else:
                b = side()
            out.append({"op": "cmp", "t": t, "frame": 0, "a": a, "b": b})
        # values apart only at the end
        for v in vs:
            if types[t]["k"] in ("fix", "bytes") and len(v) > 1:
                w = v[:-1] + [v[-1] ^ 1]
                out.append({"op": "cmp", "t": t, "frame": 0, "a": {"k": "v", "v": v}, "b": {"k": "v", "v": w}})
    return out


def compare(run, select, variant="dev", size=1.0):
    """The order of values: laws of the specification, and the specification's
    pairs and random ones compared by the implementation."""
    thorough = run.tier == "thorough"
    d = build(["codec"], variant)
    types = schemas(run, d)
    names = sorted(types)
    env = {"SCHEMAS": run.write("schemas.json", [types])}
    cfg = consts(variant)
    lines, gen, dist = run.tlc("OrderMC", cfg + "  Most = %d\n  Emit = TRUE\nINVARIANTS Mirror Apart Encoded Chain Out\n"
                               "CHECK_DEADLOCK FALSE\n" % (24 if thorough else 9), env=env)
    run.notes["order_model"] = f"OrderMC: {len(types)} types, {dist} pairs; laws Mirror Apart Encoded Chain"
    found = sorted(Run.tagged(lines, "PAIR"), key=jline)
    rng = run.rng("cmp")
    pool = {t: [] for t in names}
    seeds = []
    for p in found:
        seeds.append({"op": "rt", "t": p["t"], "frame": 0, "v": p["a"], "tail": []})
    seeds = [json.loads(x) for x in sorted({jline(x) for x in seeds})]
    for t in names:
        seeds += [{"op": "rt", "t": t, "frame": 0, "v": value(types, types[t], rng), "tail": []} for _ in range(int(6 * size) + 1)]
    with open(run.drive(d, "codec", seeds, "cmp-seeds.ndjson")) as f:
        for l in f:
            o = json.loads(l)
            if o["some"] and o["p"] and o["p"][0]["ok"]:
                pool[o["t"]].append(o["p"][0]["re"])
    side = lambda v: {"k": "v", "v": v}
    script = [{"op": "cmp", "t": p["t"], "frame": 0, "a": side(p["a"]), "b": side(p["b"])} for p in found]
    script += pairs(run, types, names, pool, rng, size * (12 if thorough else 1))
    run.notes["pairs"] = {"of_the_specification": len(found), "random": len(script) - len(found)}
    log = run.drive(d, "codec", [jline(x) for x in script], f"cmp-{variant}.ndjson", shards=8)
    judge(run, log, select, env, cfg, f"codec/{variant}")
    sample(run, log)


def make_script(run, types, names, vec, inp, ops, bindir, size, trace, tag):
    rng = run.rng("codec")
    out, count = [], {}

    def add(o):
        out.append(jline(o))
        count[o["op"]] = count.get(o["op"], 0) + 1
    byt, whole = {n: [] for n in names}, {n: [] for n in names}
    for v in vec:
        byt[v["t"]].append(v["b"])
        if v["ok"] and v["can"]:
            whole[v["t"]].append(v["b"])
    # encodings
    rand = [(t, value(types, types[t], rng)) for t in names for _ in range(int(8 * size) + 1)]
    # sequences longer than a byte can count, and values nested deeply
    for t in names:
        s = types[t]
        if s["k"] == "seq":
            for n in rng.sample([64, 127, 128, 129, 200, 255, 256, 257, 300], max(1, min(9, int(3 * size)))):
                items = [value(types, s["t"], rng, 3) for _ in range(n)]
                short = [x for x in items if len(x) < 12] or items[:1]
                if sum(map(len, items)) > 1800:     # long in number, not in bytes
                    n = min(n, 2500 // max(1, len(short[0])))
                    items = [short[i % len(short)] for i in range(n)]
                rand.append((t, [n] + sum(items, [])))
        if t in closure(types, refs(s)) and not {"seq", "lim", "fixseq"} & kinds(types, s):
            for d in (10, 20, 33, 40, 70):
                rand.append((t, value(types, s, rng, -d)))
    vals = [(v["t"], v["v"]) for v in vec] + rand
    run.notes[tag + "values_of_the_specification"] = len(vec)
    run.notes[tag + "random_values"] = len(rand)
    if "enc" in ops:
        for t, v in vals:
            add({"op": "enc", "t": t, "frame": 0, "v": v})
            if rng.random() < .2:
                add({"op": "enc", "t": t, "frame": 1, "v": v})
    if "rt" in ops:
        for t, v in vals:
            add({"op": "rt", "t": t, "frame": 0, "v": v, "tail": rng.choice(TAIL)})
            add({"op": "rt", "t": t, "frame": 1, "v": v, "tail": rng.choice(TAIL)})
    if "dec" in ops or "mix" in ops:
        # what the code makes of the random values seeds further inputs
        pre = run.drive(bindir, "codec", [{"op": "rt", "t": t, "frame": 0, "v": v, "tail": []} for t, v in rand],
                        "seeds.ndjson")
        with open(pre) as f:
            for l in f:
                o = json.loads(l)
                if o["some"] and o["p"] and o["p"][0]["ok"]:
                    byt[o["t"]].append(o["p"][0]["re"])
                    whole[o["t"]].append(o["p"][0]["re"])
        os.unlink(pre)
    if "dec" in ops:
        for v in vec:
            add(placed(rng, v["t"], v["b"], trace))
        quota = min(len(inp), int(3000 * size))
        picked = rng.sample(inp, quota)
        run.notes[tag + "inputs_of_the_specification"] = f"{quota} of {len(inp)}"
        for v in picked:
            add(placed(rng, v["t"], v["b"], trace))
        per = int(14 * size) + 1
        for t in names:
            pool = byt[t]
            # every input of no or one byte, at least of the small types
            short = [[]] + [[x] for x in range(256)]
            for b in (short if len(names) < 12 or size > 5 else rng.sample(short, 10)):
                add({"op": "dec", "t": t, "frame": 0, "buf": b, "pre": 0, "win": -1})
            # numbers of every length of interest, ended or not
            if types[t]["k"] in ("N", "Z"):
                for k in [*range(1, 12), *range(34, 40), 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 520]:
                    g = [128 | rbyte(rng) for _ in range(k)] if rng.random() < .7 else [rng.choice([128, 255])] * k
                    add(placed(rng, t, g + [rng.choice([1, 63, 64, 127])] + rng.choice(TAIL), trace))
                    if k < 40 or rng.random() < .3:
                        add({"op": "dec", "t": t, "frame": 0, "buf": g, "pre": 0, "win": -1})
            # every bit of the first bytes, where tags, prefixes and signs are
            for b in [rng.choice(pool) for _ in range(2 if pool else 0)]:
                for i in range(min(len(b), 5)):
                    for k in range(8):
                        if i == 0 or rng.random() < .1:
                            add({"op": "dec", "t": t, "frame": 0, "buf": b[:i] + [b[i] ^ 1 << k] + b[i + 1:], "pre": 0, "win": -1})
            for _ in range(per):
                b = rng.choice(pool) if pool and rng.random() < .85 else [rbyte(rng) for _ in range(rng.choice([1, 2, 4, 9]))]
                if len(b) > 80 and rng.random() < .8:
                    continue
                r = rng.random()
                if r < .75:
                    b = mutate(rng, b)
                if rng.random() < .12:
                    add(framed(rng, t, b))
                else:
                    add(placed(rng, t, b, trace))
    if "dec" in ops:
        for p in pumps(types, names, whole, rng, size):
            add(p)
    if "mix" in ops:
        for _ in range(int(900 * size)):
            add(mix(rng, names, byt))
    if "tagq" in ops:
        for t in names:
            s = types[t]
            if s["k"] in ("enum", "union"):
                known = [int.from_bytes(bytes(x), "big") for x in s["tags"]]
                top = 256 ** s["w"]
                x = {y % top for k in known for y in (k - 1, k, k + 1, k ^ 128, k * 256, k >> 8)} | {0, 1, top - 1, top // 2}
                if s["w"] == 1:
                    x = set(range(256))
                else:
                    x |= {rng.randrange(top) for _ in range(20)}
                x = sorted(y for y in x if y < 2 ** 31)     # TLC's integers
                add({"op": "tagq", "t": t, "frame": 0, "x": x,
                     "vals": [v["v"] for v in vec if v["t"] == t and v["can"] and v["ok"]][:40]})
    if "big" in ops:
        for w, ns in ((1, (0, 1, 254, 255, 256, 257, 511, 65535, 65536, 65791)),
                      (2, (0, 255, 256, 65534, 65535, 65536, 65537, 131071, 16777216)),
                      (4, (0, 255, 256, 65535, 65536, 16777215, 16777216))):
            for n in ns:
                add({"op": "big", "w": w, "n": n})
        add({"op": "big", "w": 4, "n": 2 ** 30})
    run.notes[tag + "records"] = count
    return out
