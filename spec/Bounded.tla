------------------------------ MODULE Bounded ------------------------------
(* A sequence with room for n elements.  An operation that would exceed it   *)
(* fails; what it may leave behind is every element that was there, possibly *)
(* followed by some of the new ones, within the bound.                       *)
EXTENDS Bytes

Endless == {"endless", "huge"}

BTake(s, n) == Take(s, IF n < Len(s) THEN n ELSE Len(s))
IsPrefix_(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a

\* [ok |-> outcomes allowed, s |-> the contents on success, o |-> what it gives]
BndDo(x, o) ==
  LET s == x.s
      R(ok, t, g) == [ok |-> ok, s |-> t, o |-> g]
      Must(c) == IF c THEN {TRUE} ELSE {FALSE}
      fits == Len(o.b) <= x.n
  IN CASE o.op = "new" -> R({TRUE}, <<>>, <<>>)
       [] o.op = "extend" -> R(Must(o.v \notin Endless /\ Len(s) + Len(o.b) <= x.n), s \o o.b, <<>>)
       [] o.op = "collect" -> R(Must(o.v \notin Endless /\ fits), o.b, <<>>)
       [] o.op = "force" -> R(Must(fits), o.b, <<>>)
       \* a fixed-length sequence that is too short may be refused or not
       [] o.op = "load" -> R(IF x.ty = "fix" /\ Len(o.b) < x.n THEN BOOLEAN ELSE Must(fits), o.b, <<>>)
       [] o.op = "set" -> IF o.i < Len(s) THEN R({TRUE}, [s EXCEPT ![o.i + 1] = o.b[1]], <<>>)
                          ELSE R({FALSE}, s, <<>>)
       [] o.op = "swap" -> IF o.i < Len(s) /\ o.j < Len(s)
                           THEN R({TRUE}, [s EXCEPT ![o.i + 1] = s[o.j + 1], ![o.j + 1] = s[o.i + 1]], <<>>)
                           ELSE R({FALSE}, s, <<>>)
       [] o.op = "reverse" -> R({TRUE}, [k \in 1..Len(s) |-> s[Len(s) + 1 - k]], <<>>)
       [] o.op = "clone" -> R({TRUE}, s, <<>>)
       [] o.op = "drain" -> R({TRUE}, <<>>, IF o.v = "part" THEN BTake(s, 2) ELSE s)
       [] o.op = "iter" -> R({TRUE}, s, s)
       [] o.op = "encode" -> R(Must(x.ty = "lim" \/ Len(s) = x.n), s, s)

\* what a failed operation may leave
Residues(x, o) ==
  IF o.op = "extend"
  THEN {x.s} \cup {x.s \o Take(o.b, k) : k \in {j \in 0..Len(o.b) : Len(x.s) + j <= x.n}}
  ELSE {x.s}
=============================================================================
