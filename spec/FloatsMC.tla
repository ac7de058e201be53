------------------------------ MODULE FloatsMC ------------------------------
(* The order of IEEE doubles and membership of float ranges, at and next to  *)
(* the bounds of the types under test and the special values.                *)
EXTENDS Scalars, Json, IOUtils

Types == ndJsonDeserialize(IOEnv.TYPES)
VARIABLE x
One8 == <<0, 0, 0, 0, 0, 0, 0, 1>>
Bits(h, l) == <<h, l, 0, 0, 0, 0, 0, 0>>
Specials == {Zeros(8), Bits(128, 0), One8, <<128, 0, 0, 0, 0, 0, 0, 1>>, Bits(63, 240), Bits(191, 240), Bits(127, 240),
             Bits(255, 240), Bits(127, 248), Bits(255, 248), <<127, 240, 0, 0, 0, 0, 0, 1>>, <<255, 247, 255, 255, 255, 255, 255, 255>>,
             Bits(0, 16), Bits(128, 16), Bits(63, 224), Bits(64, 4), Bits(64, 20), Bits(192, 28),
             <<127, 239, 255, 255, 255, 255, 255, 255>>, <<255, 239, 255, 255, 255, 255, 255, 255>>,
             <<63, 185, 153, 153, 160, 0, 0, 0>>, <<63, 211, 51, 51, 64, 0, 0, 0>>, <<54, 160, 0, 0, 0, 0, 0, 0>>,
             <<71, 239, 255, 255, 224, 0, 0, 0>>}
Numbers(r) == Specials \cup UNION {{b, Add8(b, One8), Sub8(b, One8)} : b \in {r.lo, r.hi}}
All == Specials \cup UNION {{Types[i].lo, Types[i].hi} : i \in 1..Len(Types)}

Init == x \in {[t |-> i, n |-> <<>>] : i \in 1..Len(Types)}
Next == x.n = <<>> /\ \E n \in Numbers(Types[x.t]) : x' = [x EXCEPT !.n = n]
Spec == Init /\ [][Next]_x

Laws ==
  x.n # <<>> =>
  LET r == Types[x.t]
      n == x.n
  IN /\ InFloat(r, n).ok <=> FLeq(r.lo, n) /\ FLeq(n, r.hi)
     /\ FLeq(n, n) <=> ~IsNaN(n)
     /\ \A a \in All : /\ IsNaN(a) \/ IsNaN(n) \/ FLeq(a, n) \/ FLeq(n, a)
                       /\ FLeq(a, n) /\ FLeq(n, a) => a = n \/ (IsZeroF(a) /\ IsZeroF(n))
     /\ \A a, b \in All : FLeq(a, n) /\ FLeq(n, b) => FLeq(a, b)
Out == x.n # <<>> => PrintT("INP " \o ToJson([ty |-> Types[x.t].ty, n |-> x.n]))
=============================================================================
