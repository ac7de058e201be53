----------------------------- MODULE SegmentsMC -----------------------------
(* The laws of segmented stores, over every history within the bounds, and   *)
(* the edges of the state graph for the histories to be replayed.            *)
EXTENDS Segments, Json

CONSTANTS MaxLen,   \* bytes in a store
          MaxSegs,  \* segments in a store
          Two,      \* two stores; otherwise one, driven as an output target
          Labels    \* bytes are numbered; otherwise all are 0

VARIABLES x, last
vars == <<x, last>>

Fresh(n) == [k \in 1..n |-> IF Labels THEN (Len(x[1].b) + 2 * Len(x[2].b) + k) % 3 ELSE 0]
Pieces == {<<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2, 1>>}
RECURSIVE Cuts(_, _)
Cuts(ls, from) == IF ls = <<>> THEN <<>>
                  ELSE <<[k \in 1..Head(ls) |-> IF Labels THEN (from + k) % 3 ELSE 0]>> \o Cuts(Tail(ls), from + Head(ls))

W == IF Two THEN {0, 1} ELSE {0}
SegOps ==
  UNION {{[op |-> k, w |-> w] : k \in {"new", "split", "force", "cleave", "concat", "clone", "swap"}} : w \in W}
  \cup {[op |-> "load", w |-> w, b |-> Fresh(n)] : w \in W, n \in 0..2}
  \cup {[op |-> "push", w |-> w, b |-> Fresh(1)] : w \in W}
  \cup {[op |-> "ext", w |-> w, b |-> Fresh(n)] : w \in W, n \in 0..2}
  \cup {[op |-> k, w |-> w, bs |-> Cuts(ls, Len(x[1].b) + Len(x[2].b))] : k \in {"extend", "collect"}, w \in W, ls \in Pieces}
TgtOps == {[op |-> k] : k \in {"create", "mark", "hint"}}
  \cup {[op |-> k, b |-> Fresh(n)] : k \in {"load", "put"}, n \in 0..2}

Small(s) == Len(s.b) <= MaxLen /\ Len(Spans(s)) <= MaxSegs

Init == x = <<SNew, SNew>> /\ last = [o |-> [op |-> "new", w |-> 0], old |-> <<SNew, SNew>>]
Next == \E o \in IF Two THEN SegOps ELSE TgtOps :
          /\ x' = IF Two THEN SegDo(x, o) ELSE <<TgtDo(x[1], o), SNew>>
          /\ Small(x'[1]) /\ Small(x'[2])
          /\ last' = IF Labels THEN [o |-> o, old |-> x] ELSE last
          /\ IF Labels THEN TRUE ELSE PrintT("EDGE " \o ToJson([a |-> x, o |-> o, z |-> x']))
Spec == Init /\ [][Next]_vars

\* the segments are a partition of the contents, in order
Partition == \A i \in 1..2 : Concat(Segs(x[i])) = x[i].b /\ SumSeq(Spans(x[i])) = Len(x[i].b)

Laws == Labels =>
  LET o == last.o
      old == last.old
      i == IF Two THEN o.w + 1 ELSE 1
      a == old[i]
      z == x[i]
  IN /\ o.op \in {"split", "mark"} => z.b = a.b /\ Segs(z) = Segs(a) /\ SSplit(z) = z /\ z.ac = -1
     /\ o.op = "force" => z.b = a.b /\ z.ac = -1
                          /\ Segs(z) = Segs(a) \o (IF a.ac = -1 THEN <<<<>>>> ELSE <<>>)
     /\ o.op = "cleave" => z.b = a.b /\ Segs(z) = Append(Segs(a), <<>>) /\ z.ac = -1
     /\ o.op \in {"push", "ext", "put"} =>
           z.b = a.b \o o.b /\ Len(Segs(z)) = Len(Segs(a)) + (IF a.ac = -1 THEN 1 ELSE 0)
           /\ z.st = a.st
     /\ o.op = "concat" => z.b = a.b \o old[3 - i].b /\ Segs(z) = Segs(a) \o Segs(old[3 - i])
                           /\ x[3 - i] = SNew
     /\ o.op = "extend" => Segs(z) = Segs(a) \o o.bs /\ z.ac = -1
     /\ o.op = "collect" => Segs(z) = o.bs
     /\ o.op \in {"load"} => Segs(z) = <<o.b>>
     /\ o.op \in {"split", "force", "cleave", "push", "ext", "extend"} => x[3 - i] = old[3 - i]
     /\ \A f \in BOOLEAN : Len(Alternate(Segs(z), f)) = Len(Segs(z))
=============================================================================
