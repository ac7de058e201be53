------------------------------ MODULE BoundedMC ------------------------------
(* The bound is never exceeded, over every history, and the edges to replay. *)
EXTENDS Bounded, Json

CONSTANTS Sizes, Edges
VARIABLES x, last
vars == <<x, last>>

Fresh(n) == [k \in 1..n |-> IF Edges THEN 0 ELSE k]
Ops(n) ==
  {[op |-> k, v |-> "", b |-> Fresh(m)] : k \in {"extend", "collect", "load"}, m \in 0..(n + 2)}
  \cup {[op |-> k, v |-> "endless", b |-> <<>>] : k \in {"extend", "collect"}}
  \cup {[op |-> "force", v |-> "", b |-> Fresh(m)] : m \in IF x.ty = "lim" THEN 0..(n + 2) ELSE {}}
  \cup {[op |-> "set", v |-> "", b |-> Fresh(1), i |-> i] : i \in 0..n}
  \cup {[op |-> "swap", v |-> "", b |-> <<>>, i |-> i, j |-> j] : i, j \in 0..n}
  \cup {[op |-> k, v |-> "", b |-> <<>>] : k \in {"new", "reverse", "clone", "drain", "iter", "encode"}}

Init == /\ \E n \in Sizes, ty \in {"lim", "fix"} : x = [ty |-> ty, n |-> n, s |-> <<>>]
        /\ last = [o |-> [op |-> "new"], old |-> x, ok |-> TRUE]
Next == \E o \in Ops(x.n) :
          LET r == BndDo(x, o) IN
          \E ok \in r.ok, t \in Residues(x, o) :
            /\ (ok => t = x.s) /\ (Edges => t = x.s)
            /\ x' = [x EXCEPT !.s = IF ok THEN r.s ELSE t]
            /\ last' = IF Edges THEN last ELSE [o |-> o, old |-> x, ok |-> ok]
            /\ IF ~Edges THEN TRUE ELSE PrintT("EDGE " \o ToJson([a |-> x, o |-> o, z |-> x']))
Spec == Init /\ [][Next]_vars

Bound == Len(x.s) <= x.n
\* success loses nothing; failure keeps what was there
Kept == /\ ~last.ok => IsPrefix_(last.old.s, x.s)
        /\ last.ok /\ last.o.op = "extend" => x.s = last.old.s \o last.o.b
        /\ last.ok /\ last.o.op \in {"collect", "load", "force"} => x.s = last.o.b
=============================================================================
