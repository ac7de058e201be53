#!/usr/bin/env python3
"""Decides one property: check.py --prop C01 [--tier quick|thorough]"""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import suite_parser, suite_codec, suite_misc, suite_builds

CHECKS = {}


def prop(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco


def f(b):
    return set(b["fields"])


MC_CFG = """SPECIFICATION Spec
CONSTANTS
  MaxLen = %d
  MaxDepth = %d
  Alphabet = {0, 1, 255}
VIEW View_
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def windows_mc(run, invs):
    quick = run.tier == "quick"
    lines, gen, dist = run.tlc("WindowsMC", MC_CFG % (3 if quick else 4, 2 if quick else 3, invs))
    run.notes["model"] = f"WindowsMC: {dist} states, {gen} transitions; invariants {invs}"


ITERATING = {"next", "nth", "last", "gather", "count", "hint"}
CONSUMING = ITERATING | {"take", "skip", "skipx", "bool", "tag", "selfterm"}
POSITION = {"off", "rem", "vl", "panic"}


@prop("C01")
def c01(run):
    windows_mc(run, "WindowsNested RemOk Effect")
    suite_parser.check(run, lambda b: (b["op"] in CONSUMING and f(b) - {"payload", "trace"})
                       or f(b) & POSITION)
    suite_misc.check(run, lambda b: True, ["buf"])


@prop("C02")
def c02(run):
    windows_mc(run, "WindowsNested Stack_")
    suite_parser.check(run, lambda b: b["op"] in {"open", "test", "close"} and f(b) - {"trace"})
    # windows opened and closed around and within decodings
    suite_codec.check(run, lambda b: f(b) - {"value", "re", "trace", "kind", "payload"}, ops=("mix",), size=.7)


@prop("C03")
def c03(run):
    run.tlc("SliceStack", "SPECIFICATION Spec\nCONSTANTS MaxLen=%d MaxDepth=4\n"
            "INVARIANTS Refines ViewIsTop LeftoverSame\nCHECK_DEADLOCK FALSE\n"
            % (6 if run.tier == "quick" else 9))
    # the parsers against each other; iteration against single-byte reads
    suite_parser.check(run, lambda b: b["op"] in ITERATING, interchange=lambda b: True)
    suite_codec.check(run, lambda b: "disagree" in f(b), ops=("dec", "mix"), size=.7)


@prop("C04")
def c04(run):
    windows_mc(run, "Helpers Effect")
    suite_parser.check(run, lambda b: b["op"] in {"skip", "skipx", "prefix", "skipdyn", "kv"}
                       and f(b) - {"trace"})


@prop("C22")
def c22(run):
    windows_mc(run, "GroupsCover Effect")
    suite_parser.check(run, lambda b: "trace" in f(b))
    suite_codec.check(run, lambda b: "trace" in f(b), ops=("dec", "mix"), trace=True, size=.4)


@prop("C05")
def c05(run):
    windows_mc(run, "LeftoverOk")
    suite_parser.check(run, lambda b: b["op"] == "cleanup")
    # with complete-parse checking
    suite_codec.check(run, lambda b: f(b) & (TRY | {"leftkind", "leftbytes", "leftlen"}), ops=("dec", "mix"), variants=("full",),
                      size=.6)
    suite_misc.check(run, lambda b: True, ["left"])


@prop("C21")
def c21(run):
    windows_mc(run, "Effect Helpers")
    suite_parser.check(run, lambda b: f(b) & {"kind", "payload", "panic"})
    suite_codec.check(run, lambda b: f(b) & FACTS, ops=("dec", "tagq", "big", "enc"), size=.7)
    # incomplete parses and padding are errors only under their options
    suite_codec.check(run, lambda b: f(b) & FACTS, ops=("dec",), variants=("full",), size=.5)
    suite_misc.check(run, lambda b: f(b) & {"facts", "kind"}, ["bnd", "box", "hex", "rint", "rfloat"], size=.3)
    suite_misc.check(run, lambda b: True, ["fault"])


# -- the wire language --------------------------------------------------------
DEC = {"ok", "value", "off", "panic", "try-ok", "try-value"}
TRY = {"try-ok", "try-value", "try-kind", "try-payload", "panic"}
KIND = {"kind", "try-kind"}
FACTS = KIND | {"payload", "try-payload", "prefix-payload", "convert-payload", "panic"}
LENS = {"enc_len", "estimate", "unknown", "known", "length"}
REFUSE = {"refuse", "refused"}


def has(b, *prefixes):
    return any(x.startswith(prefixes) for x in b["fields"])


def decoding(b):
    return b["op"] in ("dec", "rt", "pump") and f(b) & (DEC | KIND) \
        or b["op"] == "mix" and f(b) & (DEC | KIND | {"leftkind", "leftbytes", "leftlen", "step:ok", "step:off", "step:result"})


def encoding(b):
    return has(b, "bytes:") or f(b) & (REFUSE | {"re", "built", "again", "prefix"})


def either(b):
    return decoding(b) or encoding(b)


def whole(b):
    """everything the specification says about a type of the property's own"""
    return either(b) or f(b) & (LENS | {"payload", "try-payload", "prefix-payload"}) or has(b, "count:")


def of(*ks):
    return lambda kinds: kinds & set(ks)


@prop("C06")
def c06(run):
    suite_codec.check(run, lambda b: "panic" in f(b), ops=("dec", "mix"), variants=("dev", "lite"), size=1.3)
    suite_codec.check(run, lambda b: "panic" in f(b), ops=("dec", "mix"), variants=("full",), size=.6)
    # the reads that decoders are written with
    suite_parser.check(run, lambda b: "panic" in f(b))


@prop("C07")
def c07(run):
    suite_codec.check(run, lambda b: decoding(b) or f(b) & TRY, ops=("dec", "mix"), size=1.5)
    # the typed reads of a parser, one by one
    suite_parser.check(run, lambda b: b["op"] in {"take", "bool", "tag"} and f(b) - {"trace", "payload"})


@prop("C08")
def c08(run):
    suite_codec.check(run, lambda b: has(b, "bytes:") or f(b) & (REFUSE | {"re"}), ops=("enc", "rt", "big"))


@prop("C09")
def c09(run):
    suite_codec.check(run, lambda b: b["op"] == "rt" and f(b) & (DEC | {"built"}), ops=("rt",), size=1.5)


@prop("C10")
def c10(run):
    lens = lambda b: has(b, "count:") or f(b) & LENS or has(b, "bytes:full", "bytes:to_bytes")
    suite_codec.check(run, lens, ops=("enc", "rt", "big"))
    suite_codec.check(run, lambda b: lens(b) or encoding(b), ops=("enc", "big"), variants=("full",), size=.6)


@prop("C11")
def c11(run):
    suite_codec.check(run, whole, of("dyn"), size=1.5)
    suite_parser.check(run, lambda b: b["op"] in {"prefix", "skipdyn"} and f(b) - {"trace"})


@prop("C12")
def c12(run):
    suite_codec.check(run, whole, of("pad", "vpad"), size=3)
    suite_codec.check(run, lambda b: whole(b) or f(b) & TRY, of("pad", "vpad"), variants=("full",), size=3)


@prop("C13")
def c13(run):
    suite_codec.check(run, whole, of("lim", "fixseq"), size=3)
    suite_codec.check(run, lambda b: whole(b) or f(b) & TRY, of("lim", "fixseq"), variants=("full",), size=2)
    suite_misc.check(run, lambda b: True, ["bnd"])
    suite_misc.check(run, lambda b: True, ["bnd"], variants=("store",), size=.6)


@prop("C14")
def c14(run):
    suite_codec.check(run, whole, of("rint"), size=4)
    suite_misc.check(run, lambda b: True, ["rint"], variants=("dev", "release"))


@prop("C15")
def c15(run):
    suite_codec.check(run, whole, of("rfloat"), size=8)
    suite_misc.check(run, lambda b: True, ["rfloat"], variants=("dev", "release"))


@prop("C16")
def c16(run):
    suite_codec.check(run, whole, of("N", "Z"), size=3)
    suite_parser.check(run, lambda b: b["op"] == "selfterm" and f(b) - {"trace"})
    suite_misc.check(run, lambda b: True, ["num"])


@prop("C17")
def c17(run):
    suite_codec.check(run, lambda b: whole(b) or b["op"] == "tagq",
                      of("enum", "union"), size=3)
    suite_parser.check(run, lambda b: b["op"] == "tag" and f(b) - {"trace"})


# -- targets, stores, containers, hexadecimal text ------------------------------
@prop("C18")
def c18(run):
    suite_misc.check(run, lambda b: f(b) - {"segments", "final"}, ["tgt"])
    suite_codec.check(run, lambda b: has(b, "bytes:", "count:"), ops=("enc", "big"), size=.8)


@prop("C19")
def c19(run):
    suite_misc.check(run, lambda b: b["kind"] == "seg" or b["kind"] == "left" or f(b) & {"segments", "final", "panic"},
                     ["seg", "tgt", "left"])


@prop("C20")
def c20(run):
    suite_misc.check(run, lambda b: b["kind"] in ("hex", "list") or f(b) & {"hex", "panic"},
                     ["hex", "hexlist", "tgt"], size=.5)
    suite_misc.check(run, lambda b: True, ["hex"], variants=("hexin",), size=.5)


@prop("C23")
def c23(run):
    suite_misc.check(run, lambda b: True, ["box"])
    suite_misc.check(run, lambda b: True, ["box"], variants=("full",), size=.4)


@prop("C24")
def c24(run):
    suite_builds.check(run, .4)


# -- values among each other ----------------------------------------------------
@prop("C25")
def c25(run):
    suite_codec.compare(run, lambda b: True)
    suite_codec.compare(run, lambda b: True, variant="full", size=.3)
    # containers, wrappers, numbers, buffers, output targets and stores
    suite_misc.check(run, lambda b: f(b) & {"compare", "panic"}, ["box", "tgt", "num", "buf", "rint"], size=.7)
    suite_misc.check(run, lambda b: f(b) & {"eq", "panic"}, ["seg", "left"])


@prop("C26")
def c26(run):
    suite_codec.check(run, lambda b: f(b) & {"cuts", "bytes:memo", "bytes:encmemo"}, ops=("enc",), size=2)
    suite_codec.check(run, lambda b: f(b) & {"cuts", "bytes:memo", "bytes:encmemo"}, ops=("enc",), variants=("full",), size=.5)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn, level = CHECKS[a.prop]
    run = Run(a.prop, a.tier, seed)
    try:
        fn(run)
    except Violation as v:
        run.bad.append({"label": v.what, "spec": {"op": v.what, "fields": ["panic"]},
                        "observed": json.load(open(v.replay))})
    except ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return run.finish(level)


if __name__ == "__main__":
    sys.exit(main())
