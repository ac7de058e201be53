------------------------------- MODULE Layout -------------------------------
(* Where the encoding of a value divides into the encodings of its           *)
(* constituents: the positions at which the memoizing builder has to begin a *)
(* new segment, and those at which it may.                                   *)
EXTENDS Codec

\* [n - bytes, must, may - positions, rest - the tokens after the value]
Lay(n, must, may, rest) == [n |-> n, must |-> must, may |-> may, rest |-> rest]
Shift(S, k) == {x + k : x \in S}
\* r after k bytes which end at a position of their own, or may do so
Behind(k, own, r) == Lay(r.n + k, Shift(r.must, k) \cup (IF own THEN {k} ELSE {}),
                         Shift(r.may, k) \cup (IF own THEN {} ELSE {k}), r.rest)
Beside(a, r) == Lay(a.n + r.n, a.must \cup Shift(r.must, a.n), a.may \cup Shift(r.may, a.n), r.rest)
Nil(v) == Lay(0, {}, {}, v)

RECURSIVE L(_, _), LFields(_, _, _), LItems(_, _, _, _)
L(s, v) ==
  CASE s.k = "opt"    -> IF v[1] = 0 THEN Lay(1, {1}, {}, Tail(v))
                         ELSE LET r == Behind(1, FALSE, L(s.t, Tail(v))) IN [r EXCEPT !.must = @ \cup {r.n}]
    [] s.k = "null"   -> IF v[1] = 0 THEN Nil(Tail(v)) ELSE L(s.t, Tail(v))
    [] s.k \in {"seq", "lim", "fixseq"} -> LItems(s.t, v[1], Tail(v), Nil(<<>>))
    [] s.k = "struct" -> LFields(s.f, v, Nil(<<>>))
    [] s.k = "union"  -> Behind(Len(s.tags[v[1] + 1]), TRUE, LFields(s.v[v[1] + 1], Tail(v), Nil(<<>>)))
    [] s.k = "dyn"    -> Behind(s.p, TRUE, L(s.t, v))
    [] s.k = "pad"    -> LET r == L(s.t, v) IN Lay(r.n + s.n, r.must \cup {r.n, r.n + s.n}, r.may, r.rest)
    [] s.k \in {"vpad", "box"} -> L(s.t, v)
    [] s.k = "ref"    -> L(Defs[s.n], v)
    [] OTHER -> LET r == E(s, v) IN Lay(Len(r.b), {Len(r.b)}, {}, r.rest)
LFields(fs, v, acc) ==
  IF fs = <<>> THEN [acc EXCEPT !.rest = v]
  ELSE LET r == L(Head(fs), v) IN LFields(Tail(fs), r.rest, Beside(acc, r))
LItems(t, n, v, acc) ==
  IF n = 0 THEN [acc EXCEPT !.rest = v]
  ELSE LET r == L(t, v) IN LItems(t, n - 1, r.rest, Beside(acc, r))

\* ends: the ends of the segments that are not empty
CutsBad(s, v, ends) ==
  LET l == L(s, v)
      c == {ends[k] : k \in 1..Len(ends)}
  IN ~(l.must \ {0} \subseteq c /\ c \subseteq l.must \cup l.may)
=============================================================================
