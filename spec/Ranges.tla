------------------------------- MODULE Ranges -------------------------------
(* Ranged integers and floats.  Numbers are 16-byte two's complement, floats *)
(* their 8 bytes.  A type r has bounds lo and hi, a backing width w and      *)
(* signedness sg.                                                            *)
EXTENDS Scalars, Payload

Zero16 == Zeros(16)
InR(r, n) == SLeq(r.lo, n) /\ SLeq(n, r.hi)
Pos(r) == SLess(Zero16, r.lo)
\* the underlying number of n, and the number of an underlying one
Raw(r, n) == IF Pos(r) THEN Sub8(n, r.lo) ELSE n
OfRaw16(r, u) == IF Pos(r) THEN Add8(u, r.lo) ELSE u
\* n can be held by a primitive of w bytes
Fits(n, w, sg) ==
  LET k == 16 - w
      s == IF sg /\ n[k + 1] >= 128 THEN 255 ELSE 0
  IN (sg \/ n[1] < 128) /\ \A i \in 1..k : n[i] = s
Held(r, n) == InR(r, n) /\ Fits(Raw(r, n), r.w, r.sg)
\* the bounds are in order and can be held
Proper(r) == SLeq(r.lo, r.hi) /\ Held(r, r.lo) /\ Held(r, r.hi)
\* within the 31-bit integers
MinWide == [i \in 1..8 |-> 255] \o MinNative
MaxWide == Zeros(8) \o MaxNative
SaneR(r) == SLeq(MinWide, r.lo) /\ SLeq(r.hi, MaxWide) /\ SLeq(r.lo, r.hi)

PrimW(p) == CASE p \in {"u8", "i8"} -> 1 [] p \in {"u16", "i16"} -> 2 [] p \in {"u32", "i32"} -> 4
              [] OTHER -> 8
Signed(p) == p \in {"i8", "i16", "i32", "i64", "isize"}
FitsP(n, p) == Fits(n, PrimW(p), Signed(p))

RawWays == {"raw", "raw!", "dec"}
NumWays == {"try", "i32", "i32!"}
Panicky == {"raw!", "i32!"}

\* the number asked for
Asked(r, o) == CASE o.v \in RawWays -> OfRaw16(r, o.n)
                 [] o.v = "min" -> r.lo
                 [] o.v = "max" -> r.hi
                 [] OTHER -> o.n
IntOk(r, o) == CASE o.v \in RawWays -> InR(r, OfRaw16(r, o.n))
                 [] o.v \in NumWays -> Held(r, o.n)
                 [] OTHER -> TRUE
\* what the error says, when there is one
IntErr(r, o) ==
  IF o.v \in RawWays THEN OfRaw([lo |-> r.lo, hi |-> r.hi], o.n).e
  ELSE IF SLess(r.hi, r.lo) THEN ERange(3, r.lo, r.hi)
  ELSE IF SLess(o.n, r.lo) THEN ERange(1, r.lo, o.n)
  ELSE ERange(2, r.hi, o.n)

OwnWays == {"default", "min", "max"}
=============================================================================
