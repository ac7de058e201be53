----------------------------- MODULE SliceStack -----------------------------
(* The slice-based parser keeps no offsets: it holds a stack of views, the   *)
(* bytes not yet consumed of every open window without those of the windows  *)
(* inside it.  This module states that machine and checks that it refines    *)
(* the offset-based parser of Windows: every operation has the same outcome  *)
(* and leads to corresponding states.                                        *)
EXTENDS Windows, TLC

CONSTANTS MaxLen, MaxDepth

VARIABLES buf, vs, same     \* vs: the views, outermost first

vars == <<buf, vs, same>>

Top == Last0(vs)
Put(v) == Append(Front0(vs), v)

RECURSIVE Sizes_(_)
Sizes_(x) == IF x = <<>> THEN 0 ELSE Len(Head(x)) + Sizes_(Tail(x))

(* the offset-based parser that corresponds to a stack of views *)
Abs(b, x) ==
  [buf |-> b,
   off |-> Len(b) - Sizes_(x),
   fr  |-> [i \in 1..(Len(x) - 1) |-> Len(b) - Sizes_(SubSeq(x, 1, i))]]

\* outcome of an operation: success, bytes, count, next views
R(ok, b, n, x) == [ok |-> ok, b |-> b, n |-> n, vs |-> x]

SConsume(n) == IF n <= Len(Top) THEN R(TRUE, Take(Top, n), n, Put(Drop(Top, n)))
               ELSE R(FALSE, <<>>, 0, vs)
SSkip(n) == LET d == IF n <= Len(Top) THEN n ELSE Len(Top)
            IN R(TRUE, <<>>, d, Put(Drop(Top, d)))
SOpen(n) == IF n <= Len(Top) THEN R(TRUE, <<>>, 0, Append(Put(Drop(Top, n)), Take(Top, n)))
            ELSE R(FALSE, <<>>, 0, vs)
STest == R(TRUE, <<>>, IF Len(vs) > 1 /\ Top = <<>> THEN 1 ELSE 0, vs)
SClose == IF Len(vs) > 1 /\ Top = <<>> THEN R(TRUE, <<>>, 0, Front0(vs))
          ELSE R(FALSE, <<>>, 0, vs)

Init == /\ \E n \in 0..MaxLen : buf = [i \in 1..n |-> i]
        /\ vs = <<buf>>
        /\ same = TRUE

Op(name, n) == [op |-> name, n |-> n, m |-> 0, k |-> <<>>, s |-> {}]

Step(o, r) ==
  LET c == Abs(buf, vs) q == Do(o, c) IN
  /\ vs' = r.vs
  /\ buf' = buf
  /\ same' = /\ q.ok = r.ok
             /\ (r.ok => q.b = r.b /\ q.n = r.n)
             /\ q.c = Abs(buf, r.vs)

Next == \/ \E n \in 0..(MaxLen + 1) :
             \/ Step(Op("take", n), SConsume(n))
             \/ Step(Op("skip", n), SSkip(n))
             \/ Len(vs) <= MaxDepth /\ Step(Op("open", n), SOpen(n))
        \/ Step(Op("test", 0), STest)
        \/ Step(Op("close", 0), SClose)

Spec == Init /\ [][Next]_vars

Refines == same
ViewIsTop == View(Abs(buf, vs)) = Top
LeftoverSame == Leftover(Abs(buf, vs)) = [i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]]
=============================================================================
