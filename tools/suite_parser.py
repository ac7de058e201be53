"""Histories of parser operations: those that cover the specification's state
graph, and random ones; and their validation."""
import json
from collections import defaultdict, deque
from vlib import *

PARSERS = ("byte", "memo", "slice")
BIG = -1          # usize::MAX

GEN_BUFS = {
    "quick": [[], [1, 0, 2, 255], [0, 1, 1]],
    "thorough": [[], [0], [255], [1, 0, 2, 255], [0, 1, 1], [2, 1, 0, 255, 7],
                 [0, 0, 0, 1, 9], [128, 1, 127, 0, 3], [1, 1, 1, 1], [64, 0, 0, 0]],
}


def op(name, n=0, v="", m=0, k=None, s=None):
    o = {"op": name, "n": n}
    if v:
        o["v"] = v
    if m:
        o["m"] = m
    if k is not None:
        o["k"] = k
    if s is not None:
        o["s"] = s
    return o


def take_variant(rng, n):
    """A consuming operation of n bytes."""
    c = ["consume", "dyn"]
    if n == 1:
        c += ["byte", "u8", "i8", "byte"]
    if n == 2:
        c += ["u16", "i16"]
    if n == 4:
        c += ["u32", "i32"]
    if n == 8:
        c += ["u64", "i64", "f64"]
    if n in (0, 1, 2, 3, 4, 5, 8, 16, 20, 32, 33, 64):
        c += ["arr", "fix"]
    return op("take", n, rng.choice(c))


TAGV = ("arr", "refarr", "slice", "refvec", "set", "vec")


def concrete(rng, o):
    """An operation of the specification as an operation of the driver."""
    n = o["n"]
    if n >= 10 ** 9:
        n = -rng.choice([1, 1, 2, 3, 4, 5, 6, 2 ** 62, 2 ** 63 - 1])
    name = o["op"]
    if name == "take":
        return take_variant(rng, n) if n >= 0 else op("take", n, rng.choice(["consume", "dyn"]))
    if name == "tag":
        s = [list(x) for x in o["s"]]
        return op("tag", n, rng.choice(TAGV), s=s)
    if name == "kv":
        return op("kv", n, m=o["m"], k=list(o["k"]))
    return op(name, n)


def edges(run, tier):
    bufs = GEN_BUFS[tier]
    gin = run.write("genin.ndjson", [{"buf": b} for b in bufs])
    lines, gen, dist = run.tlc("GenWindows", "SPECIFICATION Spec\nCONSTANT MaxDepth=%d\nINVARIANT Inv\n"
                               "CHECK_DEADLOCK FALSE\n" % (2 if tier == "quick" else 3),
                               env={"GENIN": gin})
    g = defaultdict(list)
    for e in sorted(Run.tagged(lines, "EDGE"), key=jline):
        g[(tuple(e["b"]), tuple(e["a"]))].append((e["o"], (tuple(e["b"]), tuple(e["z"]))))
    return g


def cover(run, g, salt="cover", limit=60):
    """Walks from the initial states that together take every transition."""
    rng = run.rng(salt)
    todo = {s: list(es) for s, es in g.items()}
    for es in todo.values():
        rng.shuffle(es)
    # operations without effect first, so that a walk takes them on its way
    for s in todo:
        todo[s].sort(key=lambda e: e[1] == s)
    left = sum(len(v) for v in todo.values())
    walks = []
    succ = {s: list({t: o for o, t in es if t != s}.items()) for s, es in g.items()}
    for s in succ:
        succ[s] = [(t, next(o for o, tt in g[s] if tt == t)) for t, _ in succ[s]]
    inits = sorted({(b, (0,)) for b, _ in g})
    for init in inits:
        while True:
            cur, walk, took = init, [], 0
            while len(walk) < limit:
                if todo[cur]:
                    o, t = todo[cur].pop()
                    left -= 1
                    took += 1
                    walk.append(o)
                    cur = t
                    continue
                # nearest state with something left
                seen, q, hit = {cur: None}, deque([cur]), None
                while q and hit is None:
                    s = q.popleft()
                    nxt = succ[s]
                    rng.shuffle(nxt)
                    for t, o in nxt:
                        if t not in seen:
                            seen[t] = (s, o)
                            if todo[t]:
                                hit = t
                                break
                            q.append(t)
                if hit is None:
                    break
                path = []
                s = hit
                while seen[s]:
                    path.append(seen[s][1])
                    s = seen[s][0]
                walk += reversed(path)
                cur = hit
            if not took:
                break
            walks.append((list(init[0]), walk))
    if left:
        raise ToolError(f"{left} transitions not covered")
    return walks


BYTES = [0, 0, 1, 1, 2, 3, 4, 127, 128, 255, 255]


def long_buffer(rng, n):
    """Runs of continuation bytes, records of one width, or anything."""
    r = rng.random()
    if r < .3:
        cut = rng.randrange(n)
        return [rng.randrange(128, 256) | 1 if i < cut else rng.randrange(256) for i in range(n)]
    if r < .6:
        w = rng.randint(2, 24)
        return [rng.randrange(3) if i % w else (i // w) % 256 for i in range(n)]
    return [rng.choice(BYTES) if rng.random() < .6 else rng.randrange(256) for _ in range(n)]


def random_session(rng, size=None):
    """A history over a short buffer, or over one of the given size with wide
    and deeply nested windows."""
    n = size or rng.choice([0, 1, 2, 3, 5, 8, 8, 12, 16, 24, 40])
    buf = long_buffer(rng, n) if size else \
        [rng.choice(BYTES) if rng.random() < 0.8 else rng.randrange(256) for _ in range(n)]
    off, fr = 0, []
    steps = []
    deep = size and rng.random() < .5
    for _ in range(rng.randint(10, 70 if size < 2000 else 16) if size else rng.randint(1, 28)):
        lim = fr[-1] if fr else n
        rem = max(0, lim - off)

        def sz():
            r = rng.random()
            if size and r < .5:
                return max(0, min(rem, rng.choice([rem - rng.randint(0, 4), rng.randint(0, rem), rem // 2,
                                                   2 ** rng.randint(0, 17) + rng.randint(-1, 1),
                                                   rng.choice([16, 20, 32, 33, 64])])))
            if r < 0.5:
                return rng.randint(0, min(rem, 6))
            if r < 0.7:
                return rem
            if r < 0.8:
                return rem + rng.randint(1, 3)
            if r < 0.86:
                return n - off + rng.choice([0, 1])
            if r < 0.93:
                return -rng.randint(1, max(2, off + 2))
            return rng.choice([0, 1, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 62, -(2 ** 63 - 1)])
        k = rng.choices(["take", "bool", "tag", "selfterm", "next", "skip", "skipx", "open", "test",
                         "close", "prefix", "skipdyn", "kv", "dump", "drain"],
                        [8, 1, 3, 4, 3, 3, 3, 60 if len(fr) < 14 else 1, 4, 8 if len(fr) > 9 else 1, 4, 4, 4, 3,
                         0 if len(fr) < 9 else 12] if deep else
                        [24, 4, 7, 4, 5, 8, 8, 14, 5, 12, 6, 5, 4, 3, 6])[0]
        if k == "drain":
            # use up the window and close it
            steps.append(op("take", rem, rng.choice(["consume", "dyn"])) if rng.random() < .5 else op("skip", -1))
            steps.append(op("close"))
            off += rem
            if fr:
                fr.pop()
        elif k == "take":
            s = sz()
            v = take_variant(rng, s) if s >= 0 else op("take", s, rng.choice(["consume", "dyn"]))
            steps.append(v)
            if 0 <= s <= rem:
                off += s
        elif k in ("skip", "skipx", "open"):
            s = sz()
            steps.append(op(k, s))
            if k == "open":
                if 0 <= s <= rem:
                    fr.append(off + s)
            elif 0 <= s <= rem:
                off += s
            elif k == "skip":
                off += rem
        elif k == "close":
            steps.append(op("close"))
            if fr and rem == 0:
                fr.pop()
        elif k in ("prefix", "skipdyn"):
            steps.append(op(k, rng.choice([1, 1, 2, 4])))
        elif k == "tag":
            w = rng.choice([1, 1, 2, 4])
            nt = rng.choice([0, 1, 2, 3, 3, 5, 9, 9])
            tags = []
            for _ in range(nt):
                t = [rng.choice(BYTES) for _ in range(w)]
                if rng.random() < 0.6 and off + w <= n:
                    t = buf[off:off + w]
                if t not in tags:
                    tags.append(t)
            steps.append(op("tag", w, rng.choice(TAGV), s=tags))
            off += min(w, rem) if w <= rem else 0
        elif k == "kv":
            m = rng.choice([0, 1, 1, 1, 2, 3, 4, 8])
            vn = rng.choice([0, 1, 2, 3, 4, 20])
            key = [rng.choice([0, 1, 2, 255]) for _ in range(m)]
            if rng.random() < 0.6 and rem >= m + vn:
                i = off + (m + vn) * rng.randint(0, max(0, rem // max(1, m + vn) - 1))
                if i + m <= n:
                    key = buf[i:i + m]
            if m == 0 and vn == 0 and rng.random() < .7:
                continue
            steps.append(op("kv", vn, m=m, k=key))
        elif k == "selfterm":
            steps.append(op(k, rng.choice([0, 0, 1, 2, 3])))
        else:
            steps.append(op(k))
            if k in ("bool", "next") and rem:
                off += 1
    return buf, steps


def nest_session(rng, depth):
    """Windows nested that deep, many of the same extent, opened and closed
    on the way in and all the way out."""
    n = rng.randint(3, 60)
    buf = [rng.choice(BYTES) for _ in range(n)]
    off, fr, steps = 0, [], []
    same = rng.choice([.5, .9, 1])
    inward, left = True, depth
    while left or fr:
        rem = (fr[-1] if fr else n) - off
        r = rng.random()
        if left and (inward or r < .15):
            w = rem if rng.random() < same else max(0, rem - rng.randint(0, 2))
            steps.append(op("open", w))
            fr.append(off + w)
            left -= 1
            inward = left and rng.random() < .97
        elif r < .1 and rem:
            steps.append(take_variant(rng, 1))
            off += 1
        elif r < .2:
            steps.append(op(rng.choice(["test", "close"]) if rem else "test"))
        else:
            if rem:
                steps.append(op("skip", -1) if rng.random() < .5 else op("take", rem, "consume"))
                off += rem
            if rng.random() < .2:
                steps.append(op("test"))
            if not fr:
                break
            steps.append(op("close"))
            fr.pop()
    steps += [op("close"), op("test"), op("take", 1, "byte")]
    return buf, steps


WIDTHS = [("byte", 1), ("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8), ("f64", 8)] \
    + [(v, n) for v in ("arr", "fix") for n in (0, 1, 2, 3, 4, 5, 8, 16, 20, 32, 33, 64)]
PATTERNS = [[255, 240, 0, 0, 0, 0, 0, 1], [127, 240, 0, 0, 0, 0, 0, 0], [127, 248, 1, 2, 3, 4, 5, 6], [128] + [0] * 7,
            [0] * 8, [255] * 8, [127] + [255] * 7, [63, 240] + [0] * 6, [1, 2, 3, 4, 5, 6, 7, 8], [0] * 7 + [1]]


def typed_session(rng):
    """Every typed read, on values at the edges of the types, in the open and
    in windows that hold it, are too short for it by little, or too long."""
    todo = WIDTHS * 2
    rng.shuffle(todo)
    buf, steps = [], []
    for v, n in todo:
        val = list(rng.choice(PATTERNS)[-n:]) if n and n <= 8 and rng.random() < .6 else [rng.randrange(256) for _ in range(n)]
        r = rng.random()
        if r < .6:
            steps.append(op("take", n, v))
            buf += val
        elif r < .8:
            steps += [op("open", n), op("take", n, v), op("close")]
            buf += val
        elif n:
            short = rng.randint(0, n - 1)
            steps += [op("open", short), op("take", n, v), op("skipx", short), op("close")]
            buf += val[:short]
    short = [(v, n) for v, n in WIDTHS if n > 1]
    rest = rng.randint(1, 7)
    buf += [rng.randrange(256) for _ in range(rest)]
    steps += [op("take", n, v) for v, n in rng.sample(short, 6) if n > rest] + [op("dump")]
    return buf, steps


def iter_session(rng):
    """Reading as an iterator, in windows and after them."""
    n = rng.choice([0, 1, 2, 5, 12, 24, 40])
    buf = [rng.randrange(256) for _ in range(n)]
    off, fr, steps = 0, [], []
    for _ in range(rng.randint(4, 26)):
        rem = (fr[-1] if fr else n) - off
        k = rng.choices(["nth", "gather", "hint", "next", "last", "count", "open", "close", "take", "skip"],
                        [6, 5, 6, 4, 1, 1, 6, 6, 3, 1])[0]
        if k in ("nth", "gather"):
            s = rng.choice([0, 0, 1, 2, rng.randint(0, max(rem, 1)), rem, max(0, rem - 1), rem + 1, -1])
            steps.append(op(k, s))
            off += rem if s < 0 else min(rem, s + (k == "nth"))
        elif k in ("last", "count"):
            steps.append(op(k))
            off += rem
        elif k == "open":
            w = rng.randint(0, rem)
            steps.append(op(k, w))
            fr.append(off + w)
        elif k in ("take", "skip"):
            s = rng.randint(0, rem)
            steps.append(take_variant(rng, s) if k == "take" else op(k, s))
            off += s
        else:
            steps.append(op(k))
            if k == "next" and rem:
                off += 1
            elif k == "close" and fr and rem == 0:
                fr.pop()
    return buf, steps


def scaled_session(rng, scale):
    """A history over units of that many equal bytes.  Above some size nothing
    is read, and the buffer is never more than a promise of memory."""
    big = scale > 1 << 22
    n = rng.randint(2, 20) if not big else (9 << 29) // scale
    buf = [0 if big else rng.choice(BYTES) for _ in range(n)]
    off, fr, steps = 0, [], []
    fine = []
    for _ in range(rng.randint(8, 40)):
        rem = (fr[-1] if fr else n) - off
        r = rng.random()
        sz = rng.randint(0, rem) if r < .6 else rem if r < .75 else rng.choice([n, rem + 1, n - off, n - off + 1, -1, 10 ** 9])
        k = rng.choices(["take", "skip", "skipx", "open", "test", "close", "info"], [0 if big else 5, 4, 4, 5, 1, 3, 1])[0]
        if k in ("test", "close", "info"):
            o = op(k)
        else:
            o = op(k, sz, rng.choice(["consume", "dyn"]) if k == "take" else "")
        steps.append(o)
        ok = sz >= 0 and sz <= rem if k in ("take", "skipx", "open") else bool(fr) and rem == 0 if k == "close" else True
        if ok:
            # what a parser that prints all it has read on every failure can bear
            fine.append(o)
            if k == "open":
                fr.append(off + sz)
            elif k in ("take", "skipx"):
                off += sz
            elif k == "skip":
                off += min(sz, rem) if sz >= 0 else rem
            elif k == "close":
                fr.pop()
    out = [{"p": p, "scale": scale, "buf": buf, "steps": steps} for p in ("byte", "slice")]
    if scale <= 1 << 17:
        out.append({"p": "memo", "scale": scale, "buf": buf, "steps": fine})
    return out


def scaled(run, tier):
    rng = run.rng("scaled")
    scales = [1 << 8, 257, 1 << 15, 1 << 16, 65537, 1 << 20, (1 << 22) - 3]
    out = []
    for k in scales:
        for _ in range(3 if tier == "quick" else 40):
            out += scaled_session(rng, k)
    for k in (1 << 26, 1 << 27, 1 << 28):
        for _ in range(5 if tier == "quick" else 20):
            out += scaled_session(rng, k)
    run.notes["histories_over_millions_of_bytes"] = len(out)
    return out


def triple(buf, steps):
    return [{"p": p, "buf": buf, "steps": steps} for p in PARSERS]


def script(run, tier, only=None):
    rng = run.rng("concrete")
    out = []
    g = edges(run, tier)
    walks = cover(run, g)
    reps = 1 if tier == "quick" else 3
    for r in range(reps):
        for b, w in walks:
            out += triple(b, [concrete(rng, o) for o in w])
    nrand = 500 if tier == "quick" else 12000
    rr = run.rng("random")
    for _ in range(nrand):
        out += triple(*random_session(rr))
    rl = run.rng("long")
    longs = [rl.choice([65, 100, 130, 257, 300, 700]) for _ in range(40 if tier == "quick" else 600)]
    longs += [66000] if tier == "quick" else [rl.choice([4000, 16500, 66000, 70000]) for _ in range(8)]
    for n in longs:
        out += triple(*random_session(rl, n))
    rt = run.rng("typed")
    for _ in range(12 if tier == "quick" else 200):
        out += triple(*typed_session(rt))
    ri = run.rng("iter")
    for _ in range(60 if tier == "quick" else 1500):
        out += triple(*iter_session(ri))
    rd = run.rng("nest")
    depths = [rd.choice([3, 9, 17, 18, 20, 33, 34]) for _ in range(16)] + [65, 66, 130, 260] if tier == "quick" else \
        [rd.randint(2, 40) for _ in range(300)] + [rd.choice([64, 65, 66, 128, 130, 256, 260, 520]) for _ in range(20)]
    for d in depths:
        out += triple(*nest_session(rd, d))
    run.notes["deepest_nesting"] = max(depths)
    run.notes["long_histories"] = len(longs) * 3
    run.notes["spec_transitions_replayed"] = sum(len(v) for v in g.values())
    run.notes["covering_histories"] = len(walks) * 3
    run.notes["random_histories"] = nrand * 3
    return out


def nsteps(log):
    n = s = 0
    with open(log) as f:
        for l in f:
            s += 1
            n += l.count('"op":')
    return s, n


def check(run, select, variants=("dev",), interchange=None):
    """Histories judged by TraceParser, or by TraceInterchange: the parsers
    against each other; `interchange` selects among the latter's reports."""
    sc = script(run, run.tier)
    big = scaled(run, run.tier)
    logs = {}
    for v in variants:
        d = build(["parser"], v)
        for what, log in (("parser", run.drive(d, "parser", sc, f"parser-{v}.ndjson", shards=4)),
                          ("scaled", run.drive(d, "parser", big, f"scaled-{v}.ndjson", mem=24 << 30))):
            twin = next((x for x in logs if open(x).read() == open(log).read()), None)
            if twin:
                run.notes[f"{what}-{v}_log_identical_to"] = os.path.basename(twin)
                continue
            logs[log] = v
            s, n = nsteps(log)
            run.traces += s
            run.steps += n
            if interchange and what == "parser":
                bad = run.validate("TraceInterchange", log, group=3)
                run.report(bad, log, interchange, f"parsers/{v}")
            bad = run.validate("TraceParser", log,
                               "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n",
                               expect=n + 2 * s)
            run.report(bad, log, select, f"{what}/{v}")
        with open(run.path(f"parser-{v}.ndjson")) as f:
            for i, l in enumerate(f):
                if i % 997 == 0 and len(run.samples) < 3:
                    run.samples.append(json.loads(l) if len(l) < 3000 else l[:1500])
