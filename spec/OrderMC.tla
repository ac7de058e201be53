------------------------------ MODULE OrderMC ------------------------------
(* The laws of the order, on the representative values of every type: the    *)
(* order is total where there are no floats, and only a value's own copies   *)
(* are equal to it.  With Emit the pairs are printed, to be compared by the  *)
(* implementation.                                                           *)
EXTENDS Order, CodecVals, FiniteSetsExt

CONSTANTS Most, Emit

VARIABLES name, a, b
vars == <<name, a, b>>
Schema == Defs[name]

\* up to n, spread over all
Spread(q, n) == IF Len(q) <= n THEN q ELSE [i \in 1..n |-> q[1 + ((i - 1) * (Len(q) - 1)) \div (n - 1)]]
Good(q) == SelectSeq(q, LAMBDA v : LET e == E(Schema, v) IN e.can)
Values == Spread(Good(VS(Schema, 3)), Most)

RECURSIVE Floating(_, _)
Floating(s, fuel) ==
  IF fuel = 0 THEN FALSE ELSE
  CASE s.k = "rfloat" -> TRUE
    [] s.k = "int" -> s.o = "f"
    [] s.k \in {"opt", "null", "seq", "lim", "fixseq", "dyn", "pad", "vpad", "box"} -> Floating(s.t, fuel)
    [] s.k = "struct" -> \E i \in 1..Len(s.f) : Floating(s.f[i], fuel)
    [] s.k = "union" -> \E i \in 1..Len(s.v) : \E j \in 1..Len(s.v[i]) : Floating(s.v[i][j], fuel)
    [] s.k = "ref" -> Floating(Defs[s.n], fuel - 1)
    [] OTHER -> FALSE

Init == name \in DOMAIN Defs /\ a = <<-1>> /\ b = <<-1>>
Next == /\ a = <<-1>>
        /\ \E x \in ToSet(Values), y \in ToSet(Values) : a' = x /\ b' = y
        /\ UNCHANGED name
Spec == Init /\ [][Next]_vars

On == a # <<-1>>
R == Cmp(Schema, a, b).r
Mirror == On => R = Flipped(Cmp(Schema, b, a).r)
Apart == On /\ ~Floating(Schema, 4) => R # 2 /\ (R = 0) = (a = b)
\* values that are equal have one encoding, and the other way round
Encoded == On /\ ~Floating(Schema, 4) /\ R = 0 => E(Schema, a).b = E(Schema, b).b
Chain == On /\ R \in {-1, 0}
  => \A c \in ToSet(Spread(Values, 8)) :
       LET x == Cmp(Schema, b, c).r y == Cmp(Schema, a, c).r
       IN x \in {-1, 0} => y = IF x = 0 THEN R ELSE -1
Out == ~Emit \/ ~On \/ PrintT("PAIR " \o ToJson([t |-> name, a |-> a, b |-> b]))
=============================================================================
