------------------------------ MODULE RangesMC ------------------------------
(* The laws of ranged numbers at the numbers where anything can change, and  *)
(* the requests to be replayed.  The types under test are read from TYPES.   *)
EXTENDS Ranges, Json, IOUtils

Types == ndJsonDeserialize(IOEnv.TYPES)
CONSTANT Deep

VARIABLE x
Wide_(n, w) == Zeros(16 - w) \o BE(n, w)
Neg16(n) == Sub8(Zero16, n)
Prims == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize">>
PMax(p) == LET w == PrimW(p) IN Zeros(16 - w) \o [i \in 1..w |-> IF i = 1 /\ Signed(p) THEN 127 ELSE 255]
PMin(p) == IF Signed(p) THEN Neg16(Add8(PMax(p), Wide_(1, 1))) ELSE Zero16
PrimBounds == UNION {{PMin(Prims[i]), PMax(Prims[i])} : i \in 1..Len(Prims)}
Steps_ == IF Deep THEN {0, 1, 2, 255, 256} ELSE {0, 1}
Near(n) == UNION {{Add8(n, Wide_(k, 2)), Sub8(n, Wide_(k, 2))} : k \in Steps_}
\* the middle of the range
RECURSIVE Half(_, _)
Half(b, carry) == IF b = <<>> THEN <<>>
                  ELSE <<(Head(b) + 256 * carry) \div 2>> \o Half(Tail(b), (Head(b) + 256 * carry) % 2)
Numbers(r) ==
  LET base == {r.lo, r.hi, Zero16, Sub8(r.hi, r.lo), Neg16(r.lo)} \cup PrimBounds
      mid == IF SLeq(r.lo, r.hi) THEN {Add8(r.lo, Half(Sub8(r.hi, r.lo), 0))} ELSE {}
  IN mid \cup UNION {Near(n) : n \in base}

Init == x \in {[t |-> i, n |-> <<>>] : i \in 1..Len(Types)}
Next == x.n = <<>> /\ \E n \in Numbers(Types[x.t]) : x' = [x EXCEPT !.n = n]
Spec == Init /\ [][Next]_x

Laws ==
  x.n # <<>> =>
  LET r == Types[x.t]
      n == x.n
  IN /\ OfRaw16(r, Raw(r, n)) = n /\ Raw(r, OfRaw16(r, n)) = n
     \* membership of a raw number, however it is put
     /\ InR(r, OfRaw16(r, n)) <=> OfRaw([lo |-> r.lo, hi |-> r.hi], n).ok
     /\ InR(r, OfRaw16(r, n)) => OfRaw([lo |-> r.lo, hi |-> r.hi], n).v = OfRaw16(r, n)
     /\ Pos(r) /\ InR(r, n) => SLeq(Zero16, Raw(r, n)) /\ SLeq(Raw(r, n), Sub8(r.hi, r.lo))
     /\ ~SLeq(r.lo, r.hi) => ~InR(r, n)
     \* fitting a primitive is lying between its bounds
     /\ \A i \in 1..Len(Prims) : LET p == Prims[i] IN FitsP(n, p) <=> SLeq(PMin(p), n) /\ SLeq(n, PMax(p))
Out == x.n # <<>> => PrintT("INP " \o ToJson([ty |-> Types[x.t].ty, n |-> x.n,
                              p |-> {Prims[i] : i \in {j \in 1..Len(Prims) : FitsP(x.n, Prims[j])}}]))
=============================================================================
