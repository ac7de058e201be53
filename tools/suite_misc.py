"""Histories of the output targets, the segmented store, the bounded sequences,
the containers and wrappers; requests to the ranged numbers and to the
hexadecimal conversions; and their validation."""
import json, struct
from collections import defaultdict, deque
from vlib import *

SPEC_ = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
BYTES = [0, 1, 1, 2, 9, 10, 15, 16, 65, 97, 127, 128, 160, 194, 200, 255]


def rbytes(rng, n):
    r = rng.random()
    if r < .12:
        b = []
        while len(b) < n:
            b += rng.choice(FRAGMENTS)
        return b[:n] if r < .06 else b[len(b) - n:]
    if r < .16:
        return [rng.choice([0, 1, 32, 48, 65, 255])] * n
    if r < .3:
        # runs of equal bytes
        b = []
        while len(b) < n:
            b += [rng.choice([0, 1, 2, 255, rng.randrange(256)])] * rng.randint(1, 4)
        return b[:n]
    return [rng.choice(BYTES) if rng.random() < .6 else rng.randrange(256) for _ in range(n)]


def key(o):
    return json.dumps(o, sort_keys=True)


# -- walks over a state graph --------------------------------------------------
def graph(run, module, cfg):
    lines, _, _ = run.tlc(module, cfg)
    g = defaultdict(dict)
    for e in Run.tagged(lines, "EDGE"):
        g[key(e["a"])][(key(e["o"]), key(e["z"]))] = (e["o"], key(e["z"]))
    return {s: [v for _, v in sorted(es.items())] for s, es in sorted(g.items())}


def cover(rng, g, inits, limit=60):
    """Walks from the initial states that together take every transition that
    can be reached; (initial state, operations)."""
    todo = {s: list(es) for s, es in g.items()}
    for s, es in todo.items():
        rng.shuffle(es)
        es.sort(key=lambda e: e[1] == s)
    succ = {s: sorted({t: o for o, t in reversed(es) if t != s}.items()) for s, es in g.items()}
    walks = []
    for init in inits:
        while True:
            cur, walk, took = init, [], 0
            while len(walk) < limit:
                if todo[cur]:
                    o, t = todo[cur].pop()
                    took += 1
                    walk.append(o)
                    cur = t
                    continue
                seen, q, hit = {cur: None}, deque([cur]), None
                while q and hit is None:
                    s = q.popleft()
                    nxt = list(succ[s])
                    rng.shuffle(nxt)
                    for t, o in nxt:
                        if t not in seen:
                            seen[t] = (s, o)
                            if todo[t]:
                                hit = t
                                break
                            q.append(t)
                if hit is None:
                    break
                path, s = [], hit
                while seen[s]:
                    path.append(seen[s][1])
                    s = seen[s][0]
                walk += reversed(path)
                cur = hit
            if not took:
                break
            walks.append((json.loads(init), walk))
    left = sum(len(v) for v in todo.values())
    if left:
        raise ToolError(f"{left} transitions not covered")
    return walks


# -- segmented stores ------------------------------------------------------------
def seg_step(rng, o):
    o = dict(o)
    o.setdefault("w", 0)
    if "b" in o:
        o["b"] = rbytes(rng, len(o["b"]))
    if "bs" in o:
        o["bs"] = [rbytes(rng, len(b)) for b in o["bs"]]
    o["v"] = {"new": ["new", "default"], "load": ["vec", "from"],
              "ext": ["iter", "filter", "append", "slice"] + HINTS,
              "extend": ["-"] + HINTS, "collect": ["-"] + HINTS}.get(o["op"], ["-"])
    o["v"] = rng.choice(o["v"])
    return o


def seg_random(rng):
    steps = []
    for _ in range(rng.randint(1, 40)):
        k = rng.choices(["ext", "push", "split", "force", "cleave", "concat", "extend", "collect", "load", "new",
                         "clone", "swap"], [12, 8, 8, 5, 4, 6, 3, 2, 2, 1, 2, 2])[0]
        n = rng.choice([0, 0, 1, 2, 3, 5, 17])
        o = {"op": k, "w": rng.randrange(2)}
        if k in ("ext", "load"):
            o["b"] = [0] * n
        if k == "push":
            o["b"] = [0]
        if k in ("extend", "collect"):
            o["bs"] = [[0] * rng.choice([0, 1, 2, 4]) for _ in range(rng.choice([0, 1, 2, 3]))]
        steps.append(seg_step(rng, o))
    return steps


SEG_CFG = ("SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxSegs=%d Two=%s Labels=%s\n"
           "INVARIANTS Partition Laws\nCHECK_DEADLOCK FALSE\n")


def seg_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("seg")
    if quick:
        run.tlc("SegmentsMC", SEG_CFG % (2, 1, "TRUE", "TRUE"))
    else:
        run.tlc("SegmentsMC", SEG_CFG % (2, 2, "TRUE", "TRUE"))
    g = graph(run, "SegmentsMC", SEG_CFG % (*((2, 2) if quick else (3, 2)), "TRUE", "FALSE"))
    init = key([{"b": [], "st": [], "ac": -1}] * 2)
    walks = cover(rng, g, [init])
    run.notes["seg_transitions"] = sum(len(v) for v in g.values())
    out = [{"k": "seg", "steps": [seg_step(rng, o) for o in w]} for _, w in walks]
    for _ in range(int(size * (300 if quick else 6000))):
        out.append({"k": "seg", "steps": seg_random(rng)})
    return out + list(seg_scaled(run))


def seg_scaled(run):
    """The same over units of many equal bytes."""
    rng = run.rng("seg-scaled")
    for k in [257, 257, 1023, 4099] * (2 if run.tier == "quick" else 30):
        yield {"k": "seg", "scale": k, "steps": [o for o in seg_random(rng) if o["op"] != "push"][:20]}


# -- output targets ---------------------------------------------------------------
ARR = [0, 1, 2, 3, 4, 5, 8, 16, 20, 33]


def tgt_step(rng, o):
    o = dict(o)
    runs = rng.random() < .15
    o["n"] = rng.choice([0, 1, 7, 64, 1000] if rng.random() < .5 else list(range(70)) + [127, 128, 129, 255, 256, 257, 4096])
    b = rbytes(rng, len(o.get("b", [])))
    if runs and b:
        b = [b[0]] * len(b)
    o["b"] = b
    k = o["op"]
    if k == "create":
        o["v"] = rng.choice(["new", "default", "-"])
    elif k == "load":
        c = ["-", "promote", "slice"]
        if len(b) == 1:
            c.append("word")
        if len(b) in (0, 1, 2, 3, 4, 8):
            c.append("words")
        if not b:
            c.append("empty")
        o["v"] = rng.choice(c)
    elif k == "put":
        # write_all of nothing does not write
        c = ["write", "vectored", "all", "all"] + (["writeall"] if b else [])
        if len(b) == 1:
            c += ["one", "one"]
        if len(b) in ARR:
            c += ["many", "many"]
        o["v"] = rng.choice(c)
    elif k == "mark":
        o["v"] = rng.choice(["zero", "macro", "flush", "-", "-"])
    else:
        o["v"] = "-"
    return o


def tgt_random(rng):
    steps = []
    text = rng.random() < .4
    for _ in range(rng.randint(1, 25)):
        k = rng.choices(["put", "mark", "hint", "load", "create"], [14, 6, 3, 1, .4])[0]
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9, 16, 20, 33, 33, 70, 300])
        o = tgt_step(rng, {"op": k, "b": [0] * n} if k in ("put", "load") else {"op": k})
        if text and o["b"]:
            # text: characters of one to four bytes, and their fragments
            s = "".join(rng.choice("aZ0 é٣１😀\ufeff\n\0") for _ in range(n)).encode()[:n]
            o["b"] = list(s)
        steps.append(o)
    return steps


def tgt_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("tgt")
    run.tlc("SegmentsMC", SEG_CFG % (4, 4, "FALSE", "TRUE"))
    g = graph(run, "SegmentsMC", SEG_CFG % (*((3, 3) if quick else (5, 4)), "FALSE", "FALSE"))
    walks = cover(rng, g, [key([{"b": [], "st": [], "ac": -1}] * 2)])
    run.notes["tgt_transitions"] = sum(len(v) for v in g.values())
    out = []
    for _ in range(3 if quick else 10):
        out += [{"k": "tgt", "steps": [tgt_step(rng, o) for o in w]} for _, w in walks]
    for _ in range(int(size * (300 if quick else 6000))):
        out.append({"k": "tgt", "steps": tgt_random(rng)})
    # every small hint, over contents with runs of equal bytes and without
    for base in ([0, 0, 0], [7, 7, 0, 0, 0, 9])[:1 if quick else 2]:
        for lo in range(0, 300, 20):
            w = [{"op": "put", "v": "all", "b": base, "n": 0}]
            for n in range(lo, lo + 20):
                w.append({"op": "hint", "v": "-", "b": [], "n": n})
                if n % 5 == 4:
                    w.append({"op": rng.choice(["mark", "put"]), "v": "-", "b": [0, 0], "n": 0})
            out.append({"k": "tgt", "steps": w})
    # long contents, around the sizes at which a copy may be divided
    for n in [255, 256, 257, 1023] + ([] if quick else [1025, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65537]):
        b = [rng.randrange(256) for _ in range(n)]
        out.append({"k": "tgt", "steps": [{"op": "put", "v": "one", "b": [1], "n": 0}]
                    + [{"op": "put", "v": v, "b": b, "n": 0} for v in ("all", "write") if n < 5000 or v == "all"]
                    + [{"op": "mark", "v": "-", "b": [], "n": 0}]})
    # units of many equal bytes
    for k in ([257] * 4 + [1000] * 3 + [4097] * 2 + [65537, 65536, 100001]) * (1 if quick else 20):
        w = []
        for _ in range(10 if k < 50000 else 3):
            op = rng.choices(["put", "mark", "hint", "load", "create"], [14, 4, 2, 1, .3])[0]
            o = {"op": op, "b": [], "v": "-", "n": rng.choice([0, 1, 1000, 70000])}
            if op in ("put", "load"):
                o["b"] = [rng.choice([0, 48, 65, 97, 128, 255] if rng.random() < .3 else [0, 48, 97])
                          for _ in range(rng.choice([1, 1, 2, 3]))]
                o["v"] = rng.choice(["all", "all", "write", "vectored", "writeall"] if op == "put" else ["-", "promote", "slice"])
            w.append(o)
        out.append({"k": "tgt", "scale": k, "steps": w})
    return out


# -- bounded sequences --------------------------------------------------------------
BND_CFG = "SPECIFICATION Spec\nCONSTANTS Sizes={%s} Edges=%s\nINVARIANTS Bound Kept\nCHECK_DEADLOCK FALSE\n"


def bnd_step(rng, o):
    o = dict(o)
    k = o["op"]
    o["b"] = rbytes(rng, len(o["b"]))
    o["v"] = o["v"] or rng.choice({"new": ["default", "-"], "extend": ["exact", "none", "low", "under", "over"],
                                   "collect": ["exact", "none", "low", "under", "over"], "load": ["slice", "vec"],
                                   "drain": ["vec", "part", "rev", "-"]}.get(k, ["-"]))
    if o["v"] == "endless":
        o["v"] = rng.choice(["endless", "huge"])
    o.setdefault("i", 0)
    o.setdefault("j", 0)
    return o


def bnd_random(rng, n):
    steps = []
    for _ in range(rng.randint(1, 30)):
        k = rng.choices(["extend", "collect", "load", "force", "set", "swap", "reverse", "clone", "drain", "iter",
                         "encode", "new"], [10, 4, 4, 2, 3, 3, 2, 2, 2, 2, 2, 1])[0]
        o = {"op": k, "v": "", "b": []}
        if k in ("extend", "collect", "load", "force"):
            o["b"] = [0] * rng.choice([0, 1, 1, 2, n, max(0, n - 1), n + 1, n + 4])
            if k in ("extend", "collect") and rng.random() < .1:
                o.update(b=[], v="endless")
        if k == "set":
            o["b"] = [0]
        if k in ("set", "swap"):
            o["i"], o["j"] = rng.randint(0, n), rng.randint(0, n)
        steps.append(o)
    return steps


def bnd_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("bnd")
    run.tlc("BoundedMC", BND_CFG % ("0, 1, 2" if quick else "0, 1, 2, 3", "FALSE"))
    g = graph(run, "BoundedMC", BND_CFG % ("0, 1, 2, 3", "TRUE"))
    inits = [key({"ty": ty, "n": n, "s": []}) for ty in ("lim", "fix") for n in (0, 1, 2, 3)]
    walks = cover(rng, g, inits)
    run.notes["bnd_transitions"] = sum(len(v) for v in g.values())
    out = []
    for t in ("tok", "u8"):
        for _ in range(2 if quick else 6):
            for x, w in walks:
                out.append({"k": "bnd", "ty": x["ty"], "t": t, "n": x["n"], "steps": [bnd_step(rng, o) for o in w]})
    for _ in range(int(size * (400 if quick else 8000))):
        n = rng.choice([0, 1, 2, 3, 3, 5, 5, 17])
        ty = rng.choice(["lim", "fix"])
        w = [o for o in bnd_random(rng, n) if ty == "lim" or o["op"] != "force"]
        out.append({"k": "bnd", "ty": ty, "t": rng.choice(["tok", "u8"]), "n": n,
                    "steps": [bnd_step(rng, o) for o in w]})
    return out


# -- containers and wrappers ---------------------------------------------------------
HINTS = ["none", "low", "under", "over"]
LOADS = {"bytes": ["new", "default", "from", "slice", "mslice", "box", "iter", "arr", "rarr", "marr", "-"] + HINTS,
         "hexs": ["new", "default", "from", "slice", "box", "rc", "arc", "cow", "ocow", "iter", "riter", "clone", "bytes",
                  "sbytes", "arr", "rarr", "barr", "rcarr", "arcarr", "carr",
                  "ocarr", "src", "sarc", "srcarr", "sarcarr", "target", "-"] + HINTS,
         "seq": ["new", "default", "from", "iter", "macro", "-"] + HINTS}
EXTENDS = {"bytes": ["vec", "-"] + HINTS, "hexs": ["vec", "ref", "write", "target", "-"] + HINTS, "seq": ["-"] + HINTS}
SETS = {"bytes": ["vec", "slice", "iter", "-"], "hexs": ["vec", "slice", "-"], "seq": ["slice", "asmut", "iter", "-"]}
TAKES = {"bytes": ["vec", "box", "iter", "-"], "hexs": ["vec", "iter", "-"], "seq": ["vec", "iter", "-"]}


def list_random(rng, ty, paths):
    base = "seq" if ty == "seqtok" else ty
    cur, steps = [], []
    for _ in range(rng.randint(3, 14)):
        k = rng.choices(["load", "extend", "set", "reverse", "pop", "take", "range", "cmp"], [8, 4, 3, 1, 1, 1.5, 4, 6])[0]
        o = {"op": k, "v": "-", "b": [], "i": 0, "j": 0}
        if k in ("load", "cmp"):
            o["v"] = next(paths)
            o["b"] = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 5, 9] if rng.random() < .8 else [20, 33, 40, 64, 100]))
            if k == "cmp" and cur and rng.random() < .8:
                b = list(cur)
                r = rng.random()
                if r < .35:
                    pass
                elif r < .55:
                    b = b[:-1]
                elif r < .7:
                    b = b + rbytes(rng, 1)
                else:
                    b[rng.randrange(len(b))] = rng.randrange(256)
                o["b"] = b
            if k == "load":
                cur = o["b"]
        elif k == "extend":
            o["v"] = rng.choice(EXTENDS[base])
            o["b"] = rbytes(rng, rng.choice([0, 1, 2, 6]))
            cur = cur + o["b"]
        elif k == "set":
            o["v"] = rng.choice(SETS[base])
            o["b"] = rbytes(rng, 1)
            o["i"] = rng.randint(0, len(cur))
            if o["i"] < len(cur):
                cur = cur[:o["i"]] + o["b"] + cur[o["i"] + 1:]
        elif k == "reverse":
            cur = cur[::-1]
        elif k == "pop":
            cur = cur[:-1]
        elif k == "take":
            o["v"] = rng.choice(TAKES[base])
            cur = []
        elif k == "range":
            o["v"] = rng.choice(["to", "from", "incl", "all", "half"] + (["index"] if base == "seq" else []))
            o["i"] = rng.randint(0, len(cur) + 1)
            o["j"] = rng.randint(0, len(cur) + 1)
            if rng.random() < .7 and o["i"] > o["j"]:
                o["i"], o["j"] = o["j"], o["i"]
        steps.append(o)
    return steps


def cycle(rng, xs):
    while True:
        ys = list(xs)
        rng.shuffle(ys)
        yield from ys


MAKES = {"dyn8": ["from", "-"], "dyn16": ["from", "-"], "dyn30": ["from", "-"], "pad": ["from", "with", "-"],
         "vpad": ["from", "-"], "null": ["value", "default", "-"], "box": ["from", "fbox", "boxed", "-"]}
CELL_SETS = {"box": ["boxed", "asmut", "-"]}


def cell_random(rng, ty):
    steps, cur = [], 0
    val = lambda: -1 if ty == "null" and rng.random() < .25 else rng.choice([0, 0, 1, 2, 255, 256, 4660, 65535])
    for _ in range(rng.randint(3, 12)):
        k = rng.choices(["make", "set", "cmp", "show", "size"], [4, 4, 5, 2, 1])[0]
        o = {"op": k, "x": 0, "v": "-"}
        if k in ("make", "set"):
            o["x"] = cur = val()
            o["v"] = rng.choice(MAKES[ty] if k == "make" else CELL_SETS.get(ty, ["-"]))
        if k == "cmp":
            o["x"] = cur if rng.random() < .4 else val()
        steps.append(o)
    return steps


WIDTHS = [0, 1, 2, 3, 4, 5, 8, 16, 20, 21, 32, 33, 64]
FIXED = {"bytes": ["slice", "tryfrom", "array", "aref", "from", "fref", "mut"],
         "string": ["bytes", "slice", "str", "string", "parse", "array", "from", "fref"]}


def fixed_steps(rng, n):
    steps = []
    for _ in range(n):
        op = rng.choice(["bytes", "string"])
        w = rng.choice(WIDTHS)
        k = w if rng.random() < .7 else rng.choice([0, 1, w - 1, w + 1, w + 7, 2 * w])
        b = rbytes(rng, max(0, k))
        if op == "string" and rng.random() < .7:
            s = "".join(rng.choice("aZ0 \0é٣１😀") for _ in range(k)).encode()
            b = list(s[:k] if rng.random() < .4 else "".join(rng.choice("abcXYZ09 \0") for _ in range(k)).encode())
        b2 = list(b)
        if rng.random() < .6 and b2:
            b2[rng.randrange(len(b2))] ^= rng.choice([1, 128, 255])
        steps.append({"op": op, "n": w, "b": b, "b2": b2, "v": rng.choice(FIXED[op])})
    return steps


def loads(rng, ty):
    """Every source of a container at every length with an array of its own."""
    for v in LOADS[ty]:
        o = [{"op": op, "v": v, "b": rbytes(rng, n), "i": 0, "j": 0}
             for n in [0, 1, 2, 3, 5, 9, 20, 33, 40, 64, 100] for op in ("load", "cmp")]
        yield {"k": "list", "ty": ty, "steps": o}


def hexlist_script(run, size):
    rng = run.rng("hexlist")
    out = list(loads(rng, "hexs"))
    paths = cycle(rng, LOADS["hexs"])
    for _ in range(int(size * (100 if run.tier == "quick" else 2000))):
        out.append({"k": "list", "ty": "hexs", "steps": list_random(rng, "hexs", paths)})
    return out


def box_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("box")
    out = [x for ty in LOADS for x in loads(rng, ty)]
    for ty in ("bytes", "hexs", "seq", "seqtok"):
        paths = cycle(rng, LOADS["seq" if ty == "seqtok" else ty])
        for _ in range(int(size * (150 if quick else 3000))):
            out.append({"k": "list", "ty": ty, "steps": list_random(rng, ty, paths)})
    for ty in MAKES:
        for _ in range(int(size * (40 if quick else 600))):
            out.append({"k": "cell", "ty": ty, "steps": cell_random(rng, ty)})
    for _ in range(int(size * (60 if quick else 1200))):
        out.append({"k": "fixed", "steps": fixed_steps(rng, 20)})
    return out


# -- hexadecimal text -------------------------------------------------------------------
HEXPATHS = ["fromhex", "fromhexs", "str", "string", "box", "rc", "arc", "src", "sarc", "cow", "ocow", "parse", "macro"]
INPUTS = ["str", "string", "cow", "memo", "hexs", "vec", "buf"]


def text_random(rng):
    r = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 16, 33, 64])
    good = "0123456789abcdefABCDEF"
    s = [rng.choice(good) for _ in range(n)]
    if r < .45:
        pass
    elif r < .8 and s:
        s[rng.randrange(n)] = rng.choice("gGzZ/:@[`{ +-_xX\0\n.é٣１😀\u0661\uff21")
    else:
        s = [rng.choice(good + "xg +é٣１😀") for _ in range(n)]
        if r > .97:
            s = ["0", "x"] + s
    return list("".join(s).encode())


def hex_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("hex")
    lines, _, _ = run.tlc("HexMC", "SPECIFICATION Spec\nCONSTANT MaxLen=%d\nINVARIANTS Laws Out\nCHECK_DEADLOCK FALSE\n"
                          % (3 if quick else 4))
    texts = sorted(Run.tagged(lines, "INP"))
    steps = []
    paths, inputs, loads = cycle(rng, HEXPATHS), cycle(rng, INPUTS), cycle(rng, LOADS["hexs"])

    def add(t, every=False):
        for v in (HEXPATHS if every else [next(paths)]):
            steps.append({"op": "parse", "b": t, "v": v})
        for v in (INPUTS if every else [next(inputs)]):
            if v != "buf":
                steps.append({"op": "input", "b": t, "v": v})
    for t in texts:
        add(t, quick is False or len(t) <= 2)
    # every byte of one character, next to a digit
    for c in range(128):
        for t in ([c, 48], [48, c], [102, 70, c, 57]):
            add(t)
    for _ in range(int(size * (1500 if quick else 20000))):
        add(text_random(rng))
    for _ in range(int(size * (600 if quick else 8000))):
        b = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 8, 9, 20] if rng.random() < .8 else [33, 40, 64, 300]))
        steps.append({"op": "print", "b": b, "v": next(loads)})
        t = "".join("%02x" % x for x in b)
        r = rng.random()
        if r < .25:
            t = t.upper()
        elif r < .4:
            t = "".join(rng.choice([c, c.upper()]) for c in t)
        elif r < .55 and t:
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice("0123456789abcdefgG é+") + t[i + 1:]
        elif r < .75:
            t = rng.choice([t[:-1], t[:-2], t + "0", t + "00", "0" + t, "00" + t, t + "zz", "0x" + t, " " + t, t + "\n", ""])
        steps.append({"op": "eq", "b": b, "b2": list(t.encode())})
    for x in range(256):
        steps.append({"op": "print", "b": [x], "v": "-"})
        steps.append({"op": "print", "b": [0, x, 0], "v": next(loads)})
        for y in (x, x ^ 16, x ^ 1):
            steps.append({"op": "eq", "b": [x], "b2": list(("%02x" % y).encode())})
    run.notes["texts_of_the_specification"] = len(texts)
    rng.shuffle(steps)
    return [{"k": "hex", "steps": steps[i:i + 40]} for i in range(0, len(steps), 40)]


# -- numbers of any size ---------------------------------------------------------------------
def num_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("num")
    lines, _, _ = run.tlc("NumbersMC", "SPECIFICATION Spec\nCONSTANT Top=%d\nINVARIANTS Laws Out\nCHECK_DEADLOCK FALSE\n"
                          % (3000 if quick else 70000))
    mags = sorted(Run.tagged(lines, "NUM"))
    run.notes["magnitudes_of_the_specification"] = len(mags)
    for _ in range(int(size * (150 if quick else 4000))):
        mags.append(rbytes(rng, rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15])) if rng.random() < .8
                    else rbytes(rng, rng.choice([16, 20, 33, 64])))
    steps = []
    for m in mags:
        for op in ("nat", "int", "int"):
            o = {"op": op, "v": "-", "b": m, "sg": 0 if not any(m) else 1 if op == "nat" else rng.choice([1, 2])}
            r = rng.random()
            m2 = m if r < .4 else m[:-1] + [m[-1] ^ 1] if r < .6 else rng.choice(mags)
            o["b2"] = m2
            o["sg2"] = 0 if not any(m2) else 1 if op == "nat" else o["sg"] if o["sg"] and rng.random() < .7 else rng.choice([1, 2])
            steps.append(o)
    rng.shuffle(steps)
    return [{"k": "num", "steps": steps[i:i + 20]} for i in range(0, len(steps), 20)]


# -- leftovers ------------------------------------------------------------------------------
def left_random(rng):
    steps = []
    for _ in range(rng.randint(1, 16)):
        k = rng.choices(["append", "escape", "new", "flat", "windowed", "clone", "swap"], [10, 6, 1, 1, 1, 2, 2])[0]
        o = {"op": k, "w": rng.randrange(2), "v": rng.choice(["new", "default"]), "b": []}
        if k in ("append", "flat", "windowed"):
            o["b"] = rbytes(rng, rng.choice([0, 0, 1, 1, 2, 5]))
        steps.append(o)
    return steps


def left_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("left")
    out = []
    # every short history, on one report
    ops = [("append", []), ("append", [7]), ("escape", []), ("new", [])]
    level = [[]]
    for _ in range(4 if quick else 6):
        level = [h + [o] for h in level for o in ops]
        out += [{"k": "left", "steps": [{"op": o, "w": 0, "v": "new", "b": b} for o, b in h]} for h in level]
    for _ in range(int(size * (400 if quick else 6000))):
        out.append({"k": "left", "steps": left_random(rng)})
    return out


# -- the buffers of parsers -------------------------------------------------------------------
BUFMAKE = {"slice": ["new", "static", "from"], "vec": ["slice", "hex", "arr", "rarr", "str", "string", "rstring", "cow", "-"]}


def buf_random(rng, ty, makes):
    steps, n = [], 0
    for _ in range(rng.randint(3, 14)):
        k = rng.choices(*(zip(*([("make", 3), ("cut", 4), ("split", 4), ("take", 4), ("cmp", 3)] if ty == "slice" else
                                [("make", 3), ("get", 7), ("byte", 4), ("clone", 1), ("cmp", 3)]))))[0] if steps else "make"
        o = {"op": k, "v": "-", "b": [], "n": 0, "m": 0}
        at = lambda: rng.choice([0, 1, n, n + 1, max(0, n - 1), rng.randint(0, n + 2), -1, -2, -1 - n])
        if k == "make":
            o["v"] = next(makes)
            o["b"] = rbytes(rng, rng.choice([0, 1, 2, 3, 3, 5, 8]))
            if o["v"] in ("arr", "rarr"):
                o["b"] = rbytes(rng, {"arr": 3, "rarr": 2}[o["v"]])
            if o["v"] in ("str", "string", "rstring", "cow"):
                o["b"] = list("".join(rng.choice("aZ0 é") for _ in range(4)).encode())
            n = len(o["b"])
            cur = o["b"]
        elif k == "cmp":
            o["b"] = list(cur) if rng.random() < .4 else cur[1:] if rng.random() < .5 else rbytes(rng, rng.choice([0, 1, 3]))
        else:
            o["n"], o["m"] = at(), at()
            if rng.random() < .6:
                o["n"] = rng.randint(0, n)
                o["m"] = rng.randint(0, n - o["n"])
            o["v"] = rng.choice(["head", "tail"]) if k == "split" else "-"
        if k in ("cut", "split", "take"):
            cur = cur[1:] if k == "cut" else cur if not 0 <= o["n"] <= n else cur[:o["n"]] if o["v"] == "head" else cur[o["n"]:]
            n = len(cur)
        steps.append(o)
    return steps


def buf_script(run, size):
    quick = run.tier == "quick"
    rng = run.rng("buf")
    out = []
    for ty in ("slice", "vec"):
        makes = cycle(rng, BUFMAKE[ty])
        for _ in range(int(size * (250 if quick else 4000))):
            out.append({"k": "buf", "ty": ty, "steps": buf_random(rng, ty, makes)})
    return out


# -- ranged numbers -------------------------------------------------------------------------
RINTS, RFLOATS = 34, 14
WAYS = ["try", "try", "i32", "i32!", "raw", "raw!", "dec"]


# how a bounds check is called: the number's width and sign, the bounds' range
I32, I64 = (-2 ** 31, 2 ** 31 - 1), (-2 ** 63, 2 ** 63 - 1)
BOUNDS = {"u8": (1, False, *I32), "i8": (1, True, -128, 127), "u16": (2, False, 0, 65535), "i16": (2, True, *I32),
          "u32": (4, False, *I32), "i32": (4, True, *I32), "u64": (8, False, *I32), "i64": (8, True, -32768, 32767),
          "usize": (8, False, 0, 2 ** 32 - 1), "isize": (8, True, *I64), "i128": (16, True, *I64)}


def types_of(run, bindir, kind):
    blank = {"op": kind, "ty": 0, "v": "try", "p": "u8", "n": [0] * (16 if kind == "rint" else 8), "n2": [0] * 16}
    n = RINTS if kind == "rint" else RFLOATS
    log = run.drive(bindir, "misc", [{"k": kind, "steps": [dict(blank, ty=i) for i in range(n)]}], kind + "-types.ndjson")
    rec = json.loads(open(log).read())
    keys = ("lo", "hi", "w", "sg") if kind == "rint" else ("lo", "hi")
    return run.write(kind + "-types.in", [dict({k: s["r"][k] for k in keys}, ty=s["ty"]) for s in rec["steps"]])


def pack(kind, steps):
    return [{"k": kind, "steps": steps[i:i + 30]} for i in range(0, len(steps), 30)]


def rint_script(run, bindir, size):
    quick = run.tier == "quick"
    rng = run.rng("rint")
    types = types_of(run, bindir, "rint")
    lines, _, _ = run.tlc("RangesMC", "SPECIFICATION Spec\nCONSTANT Deep=%s\nINVARIANTS Laws Out\nCHECK_DEADLOCK FALSE\n"
                          % ("FALSE" if quick else "TRUE"), env={"TYPES": types})
    inps = sorted(Run.tagged(lines, "INP"), key=jline)
    by = defaultdict(list)
    for i in inps:
        by[i["ty"]].append(i["n"])
    steps = []

    def add(ty, n, v, p):
        n2 = n if rng.random() < .3 else rng.choice(by[ty])
        steps.append({"op": "rint", "ty": ty, "v": v, "p": p, "n": n, "n2": n2})
    for i in inps:
        ps = sorted(i["p"])
        for p in ps if not quick else rng.sample(ps, min(3, len(ps))):
            add(i["ty"], i["n"], "try", p)
        for v in ("i32", "i32!", "raw", "raw!", "dec"):
            if "i32" in ps and (not quick or rng.random() < .7):
                add(i["ty"], i["n"], v, "i32")
    for ty in range(RINTS):
        for v in ("default", "min", "max"):
            for _ in range(4):
                add(ty, [0] * 16, v, "-")
        for _ in range(int(size * (20 if quick else 600))):
            w = rng.choice([1, 2, 4, 8])
            s = rng.random() < .4
            n = int.from_bytes(bytes(rng.randrange(256) for _ in range(w)), "big", signed=s)
            p = ("i" if s else "u") + str(8 * w)
            add(ty, list(n.to_bytes(16, "big", signed=True)), rng.choice(WAYS), p)
    for v, (w, sg, ulo, uhi) in BOUNDS.items():
        lo, hi = (-1 << 8 * w - 1, (1 << 8 * w - 1) - 1) if sg else (0, (1 << 8 * w) - 1)
        edges = [x for x in (lo, lo + 1, hi - 1, hi, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 63, 2 ** 32, -1, 0, 1)
                 if lo <= x <= hi]
        for _ in range(int(size * (60 if quick else 800)) + 1):
            a = rng.choice([ulo, uhi, -1, 0, 1, 5, rng.randint(ulo, uhi), rng.randint(-10, 10)])
            b = rng.choice([ulo, uhi, 0, a, a + 1, a - 1, a + 7, rng.randint(ulo, uhi), rng.randint(-10, 10)])
            n = rng.choice([a, a - 1, a + 1, b, b + 1, b - 1, b - a, b - a + 1, b - a - 1, rng.choice(edges), rng.randint(-10, 10)])
            x16 = lambda k: list(k.to_bytes(16, "big", signed=True))
            steps.append({"op": "bound", "ty": 0, "v": v, "n": x16(n), "lo": x16(a), "hi": x16(b)})
    rng.shuffle(steps)
    run.notes["numbers_of_the_specification"] = len(inps)
    return pack("rint", steps)


def rfloat_script(run, bindir, size):
    quick = run.tier == "quick"
    rng = run.rng("rfloat")
    types = types_of(run, bindir, "rfloat")
    lines, _, _ = run.tlc("FloatsMC", "SPECIFICATION Spec\nINVARIANTS Laws Out\nCHECK_DEADLOCK FALSE\n", env={"TYPES": types})
    inps = sorted(Run.tagged(lines, "INP"), key=jline)
    steps = []
    for i in inps:
        for v in ("try", "tryfrom", "force", "f32", "dec"):
            steps.append({"op": "rfloat", "ty": i["ty"], "v": v, "n": i["n"]})
    for ty in range(RFLOATS):
        for v in ("default", "MIN", "MAX"):
            steps.append({"op": "rfloat", "ty": ty, "v": v, "n": [0] * 8})
        for _ in range(int(size * (60 if quick else 2500))):
            r = rng.random()
            if r < .4:
                x = struct.pack(">d", rng.choice([-1, 1]) * rng.random() * rng.choice([.2, .5, 1, 3, 12, 1e300]))
            elif r < .6:
                x = struct.pack(">d", struct.unpack(">f", struct.pack(">f", rng.uniform(-11, 11)))[0])
            else:
                x = bytes(rng.choice([0, 1, 63, 64, 127, 128, 191, 192, 240, 248, 255, rng.randrange(256)]) for _ in range(8))
            steps.append({"op": "rfloat", "ty": ty, "v": rng.choice(["try", "tryfrom", "force", "f32", "dec"]), "n": list(x)})
    # under bounds chosen at run time
    pool = sorted({tuple(i["n"]) for i in inps})
    for _ in range(int(size * (250 if quick else 4000))):
        a, b, c = (list(rng.choice(pool)) for _ in range(3))
        if rng.random() < .3:
            a = b
        elif rng.random() < .6 and struct.unpack(">d", bytes(a))[0] > struct.unpack(">d", bytes(b))[0]:
            a, b = b, a
        c = rng.choice([c, c, a, b])
        steps.append({"op": "bound", "ty": 0, "v": rng.choice(["f64", "f32"]), "n": c, "lo": a, "hi": b})
    rng.shuffle(steps)
    run.notes["floats_of_the_specification"] = len(inps)
    return pack("rfloat", steps)


# -- errors made by hand -----------------------------------------------------------
FAULTS = ["consume", "open", "residue", "nowindow", "overflow", "notags", "coerce", "bool", "nonterm", "pad", "tag",
          "irange", "frange", "length", "width", "utf8"]
WINDOWED = ("consume", "open", "residue", "nowindow", "overflow")
BROKEN = [[128], [255], [192, 128], [237, 160, 128], [244, 144, 128, 128], [226, 130], [240, 159, 146]]


def fault_script(run, size):
    """Errors of every kind, as they are and through every conversion."""
    rng, quick = run.rng("fault"), run.tier == "quick"
    steps = []

    def number(n):
        r = rng.random()
        if r < .3:
            return rng.choice([[0] * n, [255] * n, [127] + [255] * (n - 1), [128] + [0] * (n - 1)])
        if r < .6:
            k = rng.randint(1, n)
            return [rng.choice([0, 255])] * (n - k) + [rng.randrange(256) for _ in range(k)]
        return [rng.randrange(256) for _ in range(n)]

    def amount():
        return rng.choice([0, 1, 2, 3, 7, 9, 10, 99, 255, 256, 1000, 65536, rng.randrange(10 ** 9)])

    for op in FAULTS:
        ways = ["-", "inv", "invkind", "dec"]
        ways += ["invcase"] if op in WINDOWED else []
        ways += {"tag": ["from", "typed", "promote"], "length": ["reify", "box"]}.get(op, [])
        for v in ways:
            for _ in range(max(2, int(size * (20 if quick else 400)))):
                t = {"op": op, "v": v, "x": amount(), "y": amount(), "z": amount(), "b": [], "s": []}
                if op in ("open", "length", "width"):
                    t["z"] = rng.randint(1, 3 if op == "width" else 2)
                elif op == "bool":
                    t["x"] = rng.randrange(256)
                elif op in ("nonterm", "pad"):
                    t["b"] = rbytes(rng, rng.choice([0, 1, 2, 3, 5, 9, 17, 40]))
                elif op == "tag":
                    w = rng.choice([1, 2, 4])
                    t["b"] = number(w)
                    if v != "from":
                        s = sorted({tuple(number(w)) for _ in range(rng.choice([0, 1, 2, 5, 12]))} - {tuple(t["b"])})
                        t["s"] = [list(x) for x in s]
                elif op == "irange":
                    t.update(x=rng.randint(1, 5), b=number(8), s=[number(8)])
                elif op == "frange":
                    f = [list(struct.pack(">d", q)) for q in (rng.uniform(-9, 9), rng.choice([0., -0., 1e300, -1e-300, 5e-324,
                         float("inf"), float("-inf"), 1.5, 100., rng.uniform(-1e9, 1e9)]))]
                    rng.shuffle(f)
                    t.update(x=rng.randint(1, 4), b=f[0], s=[f[1]])
                elif op == "utf8":
                    t["b"] = [rng.randrange(32, 127) for _ in range(rng.randint(0, 4))] + rng.choice(BROKEN)
                steps.append(t)
    rng.shuffle(steps)
    return pack("fault", steps)


SCRIPTS = {"seg": seg_script, "tgt": tgt_script, "bnd": bnd_script, "box": box_script, "hex": hex_script,
           "num": num_script, "hexlist": hexlist_script, "left": left_script, "buf": buf_script,
           "fault": fault_script}


def script(run, kind, bindir, size=1.0):
    if kind == "rint":
        return rint_script(run, bindir, size)
    if kind == "rfloat":
        return rfloat_script(run, bindir, size)
    return SCRIPTS[kind](run, size)


def misc_cfg(variant):
    f = flags(variant)
    return (f"SPECIFICATION Spec\nCONSTANTS RangeCheck={f['rangeck']} Implicit={f['hexin']}\n"
            "CHECK_DEADLOCK FALSE\n")


def judge(run, log, sc, select, variant):
    run.traces += len(sc)
    run.steps += sum(len(s["steps"]) for s in sc)
    bad = run.validate("TraceMisc", log, misc_cfg(variant), expect=sum(len(s["steps"]) + 1 for s in sc))
    run.report(bad, log, select, f"misc/{variant}")


def check(run, select, kinds, variants=None, size=1.0):
    """Histories of the given kinds on each variant, judged by TraceMisc."""
    # the segmented store is visible only in a build that exposes it
    variants = variants or (("int",) if {"seg", "left"} & set(kinds) else ("dev",))
    dirs = {v: build(["misc"], v) for v in variants}
    sc = []
    for k in kinds:
        sc += script(run, k, dirs[variants[0]], size)
    done = {}
    for v in variants:
        log = run.drive(dirs[v], "misc", sc, f"misc-{v}.ndjson", shards=4)
        same = (misc_cfg(v), open(log).read())
        if same in done:
            run.notes[f"{v}_log_identical_to"] = done[same]
            continue
        done[same] = os.path.basename(log)
        judge(run, log, sc, select, v)
        with open(log) as f:
            for i, l in enumerate(f):
                if i % 499 == 7 and len(run.samples) < 3:
                    run.samples.append(json.loads(l) if len(l) < 3000 else l[:1500])
