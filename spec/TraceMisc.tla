----------------------------- MODULE TraceMisc -----------------------------
(* Validates recorded histories of the output targets, segmented stores,     *)
(* bounded sequences, containers, wrappers, ranged numbers and hexadecimal   *)
(* text.  A line of the log is one history; a step of it is one step here.   *)
EXTENDS Segments, Bounded, Containers, HexText, Ranges, Numbers, Json, IOUtils

CONSTANTS RangeCheck,  \* ranges outside the 31-bit integers may panic
          Implicit     \* text given to a decoder is hexadecimal

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES sess, step, x
vars == <<sess, step, x>>

If(c, w) == IF c THEN {w} ELSE {}
AllEq(s, y) == \A i \in 1..Len(s) : s[i] = y

Start(r) == CASE r.k = "seg" -> <<SNew, SNew>>
              [] r.k = "tgt" -> SNew
              [] r.k = "bnd" -> [ty |-> r.ty, n |-> r.n, s |-> <<>>]
              [] r.k \in {"list", "buf"} -> <<>>
              [] r.k = "left" -> <<LNew, LNew>>
              [] r.k = "cell" -> 0
              [] OTHER -> 0

---------------------------------------------------------------------------
StoreBad(s, r) ==
  LET g == Segs(s) IN
  If(r.b # s.b \/ r.pb # s.b \/ ~r.same, "bytes")
  \cup If(r.f # g, "segments") \cup If(r.w # Reverse(g), "backwards") \cup If(r.m # Alternate(g, TRUE), "mixed")
  \cup If(r.len # Len(s.b) \/ r.empty # (s.b = <<>> /\ g = <<>>), "len")
  \cup If(r.contig # (Len(g) <= 1), "contiguous") \cup If(~r.bal, "balanced")
  \cup If(r.d # g, "display") \cup If(r.g # g, "debug") \cup If(r.pl # Spans(s), "parts")
SegBad(z, t) ==
  IF t.r.panic THEN {"panic"}
  ELSE StoreBad(z[1], t.r.s[1]) \cup StoreBad(z[2], t.r.s[2])
       \cup If(t.r.eq # (z[1] = z[2]) \/ (t.r.eq /\ ~t.r.hash), "eq")

ReportBad(l, r) ==
  LET nothing == l.k # "windowed" /\ l.s.b = <<>>
  IN If(IF nothing THEN r.k \notin {"empty", "flat"} ELSE r.k # l.k, "leftkind")
     \cup If(IF nothing THEN Concat(r.segs) # <<>> ELSE r.segs # LeftSegs(l), "leftbytes")
     \cup If(r.len # Len(l.s.b) \/ r.empty # (l.s.b = <<>>), "leftlen")
LeftsBad(z, t) ==
  IF t.r.panic THEN {"panic"}
  ELSE ReportBad(z[1], t.r.s.x) \cup ReportBad(z[2], t.r.s.y)
       \cup If(t.r.left # 0, "moved")
       \cup If((z[1] = z[2] /\ ~t.r.s.eq /\ z[1].s.b # <<>>) \/ (t.r.s.eq /\ ~LeftSame(z[1], z[2]))
               \/ (t.r.s.eq /\ ~t.r.s.hash), "eq")

BufBad(ty, s, t) ==
  LET w == BufDo(s, t)
      r == t.r
  IN If(r.ok # w.ok, "ok") \cup If(r.ok /\ w.ok /\ r.o # w.o, "output")
     \cup If(~AllEq(r.s, w.s), "contents") \cup If(r.len # Len(w.s) \/ r.empty # (w.s = <<>>), "size")
     \cup If(ty = "vec" /\ r.g # "[" \o Listed(w.s) \o "]", "display")
     \cup If(t.op = "cmp" /\ CmpBad(r, s = t.b, Cmp(s, t.b)), "compare")

\* what a target was before a step, compared with what it is after it: by its
\* bytes, and for the segmented ones by the state of their segments too
Alike(r, same) == r.eq = same /\ (r.cmp = 0) = same /\ r.pcmp = r.cmp /\ (same => r.hash)
TgtBad(y, z, t) ==
  IF t.r.panic THEN {"panic"}
  ELSE LET r == t.r.s
           c == t.r.c
           bin == [ok |-> ValidUtf8(z.b), b |-> z.b]
       IN If(CmpBad(c.s, y.b = z.b, Cmp(y.b, z.b)) \/ CmpBad(c.h, y.b = z.b, Cmp(y.b, z.b))
             \/ ~Alike(c.m, y = z) \/ ~Alike(c.f, y.b = z.b /\ Spans(y) = Spans(z)), "compare")
          \cup If(~AllEq(t.r.n, TgtCount(t)), "count")
          \cup If(r.v # z.b, "bytes") \cup If(~AllEq(r.views, z.b), "views")
          \cup If(~AllEq(r.hex, HexStr(z.b)), "hex") \cup If(~AllEq(r.bin, bin), "text")
          \cup If(~AllEq(r.lens, Len(z.b)) \/ ~AllEq(r.empty, z.b = <<>>), "len")
          \cup If(r.md # Segs(z), "segments") \cup If(r.mf # Segs(z), "final")

LengthErr(x0, t) == LET e == t.r.e IN
  e.k = "length" => Says(e) /\ e.x = x0.n /\ e.y = Len(t.b) /\ (e.z = 1 => Len(t.b) > x0.n)
BndBad(x0, t) ==
  LET w == BndDo(x0, t)
      r == t.r
  IN If(r.ok \notin w.ok, "ok")
     \cup If(Len(r.s) > x0.n, "bound")
     \cup If(r.ok /\ TRUE \in w.ok /\ (r.s # w.s \/ r.o # w.o), "elements")
     \cup If(~r.ok /\ r.s \notin Residues(x0, t), "kept")
     \cup If(r.len # Len(r.s) \/ r.live # Len(r.s), "live")
     \cup If(~r.ok /\ ~LengthErr(x0, t), "facts")

ListBad(s, t) ==
  LET w == ListDo(s, t)
      r == t.r
  IN If(r.ok # w.ok, "ok") \cup If(r.ok /\ w.ok /\ r.o # w.o, "output")
     \cup If(~AllEq(r.s, w.s), "contents")
     \cup If(t.op = "cmp" /\ CmpBad(r, s = t.b, Cmp(s, t.b)), "compare")

CellBad(ty, c, t) ==
  LET z == CellDo(c, t)
      r == t.r
  IN If(~r.ok, "ok") \cup If(~AllEq(r.s, z), "contents")
     \cup If(t.op = "cmp" /\ CmpBad(r, c = t.x, Sign(c, t.x)), "compare")
     \cup If(t.op = "show" /\ \/ ~AllEq(r.d, ToString(c)) \/ ~AllEq(r.p, PadLeft(ToString(c), 9))
                              \/ r.g # CellDebug(ty, c), "display")
     \cup If(t.op = "size" /\ r.o # CellSize(ty, c), "size")

\* the second value of a comparison: as wide as the first
Padded_(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]
FixedBad(t) ==
  LET r == t.r
      n == t.n
      utf8 == ValidUtf8(t.b)
      ok == Len(t.b) = n /\ (t.op = "string" /\ t.v = "array" => utf8)
      other == Padded_(t.b2, n)
      \* the length is recorded in a byte
      views == Front0(r.views)
  IN IF r.e.k = "skip" THEN {}
     ELSE If(r.ok # ok, "ok")
          \cup If(~r.ok /\ (r.e.k = "panic" \/ (r.e.k = "width" /\ (r.e.x # n \/ r.e.y # Len(t.b) \/ ~Says(r.e)))
                            \/ (r.e.k \in {"wide", "invalid"})), "facts")
          \cup (IF r.ok /\ ok
                THEN If(~AllEq(views, t.b) \/ Last0(r.views) # <<n>>, "contents")
                     \cup If(t.op = "bytes" /\ r.hex # HexStr(t.b), "display")
                     \cup If(t.op = "string" /\ (~AllEq(r.text, Lossy(t.b)) \/ r.utf8 # utf8), "display")
                     \cup If(CmpBad(r, t.b = other, Cmp(t.b, other)), "compare")
                ELSE {})

---------------------------------------------------------------------------
\* an error made of the facts t, and what became of it
FaultBad(t) ==
  LET e == t.r.e
      wrapped == t.op = "length" /\ t.v \in {"reify", "box"}
      kind == IF wrapped THEN "generic" ELSE t.op
      \* the facts as they were given
      told == [e EXCEPT !.k = t.op, !.x = t.x, !.y = t.y, !.z = t.z, !.b = t.b, !.s = t.s]
      Members(q) == {q[i] : i \in 1..Len(q)}
      same == CASE wrapped \/ t.op \in {"utf8", "coerce", "notags", "nowindow"} -> TRUE
                [] t.op = "consume" -> e.x = t.x /\ e.y = t.y /\ e.z = t.z
                [] t.op \in {"open", "length"} -> e.x = t.x /\ e.y = t.y /\ e.z = t.z
                [] t.op = "width" -> (t.z = 3 \/ e.x = t.x) /\ e.y = t.y /\ e.z = t.z
                [] t.op \in {"residue", "overflow", "bool"} -> e.x = t.x
                [] t.op \in {"nonterm", "pad"} -> e.b = t.b
                [] t.op = "tag" -> e.b = t.b /\ Members(e.s) = Members(t.s) /\ e.y = 1
                [] OTHER -> e.x = t.x /\ (t.x = 5 \/ (e.b = t.b /\ e.s = t.s))
  IN IF e.k = "panic" THEN {"panic"}
     ELSE IF e.k # kind THEN {"kind"}
     ELSE If(~same, "facts") \cup If(~Says(told) \/ ~Sourced(told), "message")

HexBad(t) ==
  LET r == t.r IN
  CASE t.op = "parse" \/ (t.op = "input" /\ Implicit /\ t.v \notin {"hexs", "vec"}) ->
         If(r.ok # Denotes(t.b), "ok")
         \cup If(r.ok /\ Denotes(t.b) /\ r.b # Meaning(t.b), "bytes")
         \cup If(~r.ok /\ r.e \notin (IF t.v = "macro" THEN {"panic"} ELSE HexErrors(t.b)), "kind")
         \cup If(~r.ok /\ r.e \in {"odd", "nonhex"} /\ r.src # t.b, "facts")
    [] t.op = "input" -> If(~r.ok, "ok") \cup If(r.ok /\ r.b # t.b, "bytes")
    [] t.op = "eq" -> If(~r.ok, "panic")
                      \cup If(r.ok /\ ~AllEq(r.is, Denotes(t.b2) /\ Meaning(t.b2) = t.b), "equal")
    [] t.op = "print" -> If(~r.ok, "panic")
                         \cup If(r.ok /\ ~AllEq(r.is, HexStr(t.b)), "print")
                         \cup If(r.ok /\ ~AllEq(r.back, t.b), "back")

---------------------------------------------------------------------------
\* numbers of any size
NumBad(t) ==
  LET r == t.r
      v == NumOf(t.sg, t.b, t.op = "nat")
      v2 == NumOf(t.sg2, t.b2, t.op = "nat")
      d == DecNum(v)
      Into(i) == \/ i.ok # NumFits(v, i.p)
                 \/ i.ok /\ i.b # Num16(v)
                 \/ ~i.ok /\ i.b # <<>>
  IN IF ~r.ok THEN {"panic"}
     ELSE If(\E i \in 1..Len(r.vals) : r.vals[i] # v, "number") \cup If(r.zero # NumOf(0, <<>>, FALSE), "zero")
          \cup If(\E i \in 1..Len(r.into) : Into(r.into[i]), "into")
          \cup If(r.d # d \/ r.g # "(" \o d \o ")" \/ r.plus # (IF v.sg = 2 THEN d ELSE "+" \o d)
                  \/ r.pad # PadLeft(d, 30), "display")
          \cup If(r.bits # (IF v.sg = 0 THEN 0 ELSE BitLen(v.b)), "bits")
          \cup If(CmpBad(r, v = v2, NumCmp(v, v2)), "compare")

IntoBad(i, n) == \/ i.ok # FitsP(n, i.p)
                 \/ i.ok /\ i.b # n
                 \/ ~i.ok /\ i.b # <<>>  \* a fallible conversion that panicked
ReadBad(r, n, t) ==
  LET w == r.w
      raw == Raw(r, n)
      low == Drop(n, 12)
      m == t.n2
  IN If(r.v # n, "number") \cup If(r.u # raw, "underlying")
     \cup If(\E i \in 1..Len(r.into) : IntoBad(r.into[i], n), "into")
     \cup If(r.enc # Drop(raw, 16 - w), "wire")
     \cup If(r.fx # HexStr(low) \/ r.fu # UpperStr(low) \/ r.fb # BinStr(low) \/ r.fo # OctStr(low), "format")
     \cup If(IF Held(r, m) /\ FitsP(m, "i32")
             THEN CmpBad(r, n = m, IF n = m THEN 0 ELSE IF SLess(n, m) THEN -1 ELSE 1)
             ELSE r.cmp # 9, "compare")
RintBad(t) ==
  LET r == t.r
      n == Asked(r, t)
      strict == ~(RangeCheck /\ ~SaneR(r))
  IN CASE r.got = "skip" -> {}
       [] ~strict -> {}
       [] t.v \in OwnWays /\ ~Proper(r) -> {}
       [] t.v \in OwnWays -> IF r.got # "ok" THEN {"ok"}
                             ELSE IF Len(r.v) # 16 \/ ~InR(r, r.v) THEN {"number"}
                             ELSE If(t.v # "default" /\ r.v # n, "number")
                                  \cup ReadBad(r, r.v, t)
       [] OTHER ->
          If((r.got = "ok") # IntOk(r, t), "ok")
          \cup (IF r.got = "ok" /\ IntOk(r, t) THEN ReadBad(r, n, t) ELSE {})
          \* numbers in a range that the backing type cannot hold may fail anyhow
          \cup If(r.got = "panic" /\ t.v \notin Panicky /\ ~InR(r, n), "panic")
          \cup If(r.got = "err" /\ ~InR(r, n) /\ LET e == IntErr(r, t) IN
                   r.e.k # "irange" \/ r.e.x # e.x \/ r.e.b # e.b \/ <<r.e.s>> # e.s \/ ~Says([r.e EXCEPT !.s = <<@>>]), "facts")

\* the bounds checks themselves, under bounds chosen at run time
ExtFits(v, n) == CASE v \in {"u8", "u32", "i64"} -> FitsP(n, "i32")
                   [] v \in {"i8", "i32", "u64"} -> FitsP(n, "i64")
                   [] OTHER -> TRUE
BoundBad(t) ==
  LET r == t.r
      w == OfRaw([lo |-> t.lo, hi |-> t.hi], t.n)
  IN CASE r.got = "skip" -> {}
       [] r.got = "panic" -> {"panic"}
       [] ~ExtFits(t.v, t.n) -> If(r.got # "err" \/ r.e.k # "failed", "ok")
       [] r.got = "ok" -> If(~w.ok, "ok") \cup If(r.v # t.n, "number")
       [] OTHER -> If(w.ok, "ok")
                   \cup If(~w.ok /\ LET e == w.e IN
                           r.e.k # "irange" \/ r.e.x # e.x \/ r.e.b # e.b \/ <<r.e.s>> # e.s
                           \/ ~Says([r.e EXCEPT !.s = <<@>>]), "facts")
FboundBad(t) ==
  LET r == t.r
      w == InFloat([lo |-> t.lo, hi |-> t.hi], t.n)
  IN CASE r.got = "skip" -> {}
       [] r.got = "panic" -> {"panic"}
       [] r.got = "ok" -> If(~w.ok, "ok") \cup If(r.v # t.n, "number")
       [] OTHER -> If(w.ok, "ok")
                   \cup If(~w.ok /\ ~(r.e.k = w.e.k /\ ErrPayload("", w.e, [r.e EXCEPT !.s = <<@>>])), "facts")

RfloatBad(t) ==
  LET r == t.r
      s == [lo |-> r.lo, hi |-> r.hi]
      w == InFloat(s, t.n)
      range == FLeq(r.lo, r.hi)
      pre == [ok |-> w.ok, v |-> IF w.ok THEN t.n ELSE <<>>]
  IN If(~AllEq(r.pre, pre), "validate")
     \cup (CASE r.got = "skip" -> {}
             [] t.v \in {"MIN", "MAX"} -> If(r.got # "ok" \/ ~AllEq(r.v, IF t.v = "MIN" THEN r.lo ELSE r.hi), "number")
             [] t.v = "default" -> If((r.got = "ok") # range, "ok")
                                   \cup If(r.got = "ok" /\ ~(InFloat(s, r.v[1]).ok /\ AllEq(r.v, r.v[1]) /\ r.valid.ok), "number")
             [] OTHER -> If((r.got = "ok") # w.ok, "ok")
                         \cup If(r.got = "ok" /\ w.ok /\ ~AllEq(r.v, t.n), "number")
                         \cup If(r.got = "ok" /\ w.ok /\ r.valid # pre, "validate")
                         \cup If(r.got = "panic" /\ t.v # "force", "panic")
                         \cup If(r.got = "err" /\ ~w.ok /\ ~(IsNaN(t.n) /\ t.v = "f32") /\
                                 ~(r.e.k = w.e.k /\ ErrPayload("", w.e, [r.e EXCEPT !.s = <<@>>])), "facts"))

---------------------------------------------------------------------------
Judge(r, t) == CASE r.k = "seg" -> SegBad(SegDo(x, t), t)
                 [] r.k = "tgt" -> TgtBad(x, TgtDo(x, t), t)
                 [] r.k = "bnd" -> BndBad(x, t) \cup If(step = Len(r.steps) /\ r.left # 0, "left")
                 [] r.k = "list" -> ListBad(x, t)
                 [] r.k = "fault" -> FaultBad(t)
                 [] r.k = "cell" -> CellBad(r.ty, x, t)
                 [] r.k = "left" -> LeftsBad(LeftDo(x, t), t)
                 [] r.k = "buf" -> BufBad(r.ty, x, t)
                 [] r.k = "num" -> NumBad(t)
                 [] r.k = "fixed" -> FixedBad(t)
                 [] r.k = "hex" -> HexBad(t)
                 [] r.k = "rint" -> IF t.op = "bound" THEN BoundBad(t) ELSE RintBad(t)
                 [] r.k = "rfloat" -> IF t.op = "bound" THEN FboundBad(t) ELSE RfloatBad(t)
Move(r, t) == CASE r.k = "seg" -> SegDo(x, t)
                [] r.k = "tgt" -> TgtDo(x, t)
                [] r.k = "bnd" -> [x EXCEPT !.s = t.r.s]
                [] r.k = "list" -> ListDo(x, t).s
                [] r.k = "cell" -> CellDo(x, t)
                [] r.k = "left" -> LeftDo(x, t)
                [] r.k = "buf" -> BufDo(x, t).s
                [] OTHER -> x

\* histories of independent steps go on after a rejected one
Stateless == {"fixed", "hex", "num", "rint", "rfloat", "fault"}

Init == sess \in 1..N /\ step = 1 /\ x = Start(Trace[sess])
Next ==
  /\ step <= Len(Trace[sess].steps)
  /\ LET s == Trace[sess]
         t == s.steps[step]
         bad == Judge(s, t)
     IN IF bad = {}
        THEN x' = Move(s, t) /\ step' = step + 1
        ELSE /\ PrintT("BAD " \o ToJson([sess |-> sess, step |-> step, kind |-> s.k, op |-> t.op, v |-> IF "v" \in DOMAIN t THEN t.v ELSE "-",
                                         fields |-> bad]))
             /\ step' = (IF s.k \in Stateless THEN step + 1 ELSE Len(s.steps) + 1)
             /\ x' = x
  /\ UNCHANGED sess
Spec == Init /\ [][Next]_vars
=============================================================================
