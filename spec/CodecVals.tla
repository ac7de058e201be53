----------------------------- MODULE CodecVals -----------------------------
(* Representative values of every schema, as a sequence of token sequences:  *)
(* the extremes and boundaries of the basic types, and combinations in which *)
(* every field meets all of its own representatives.  Some of them are       *)
(* values that must be refused.                                              *)
EXTENDS Codec

Pattern(n) == [i \in 1..n |-> (37 * i + 90) % 256]
Ones(n) == [i \in 1..n |-> 255]
Nub(q) == SelectSeq([i \in 1..Len(q) |-> <<i, q[i]>>],
                    LAMBDA p : \A j \in 1..(p[1] - 1) : q[j] # p[2])
Uniq(p) == LET u == TLCEval(Nub(TLCEval(p))) IN TLCEval([i \in 1..Len(u) |-> u[i][2]])
Mod1(i, n) == ((i - 1) % n) + 1

\* 2^e - 1, 2^e, 2^e + 1 as minimal big-endian bytes
Near(e) == LET n == e \div 8
               t == Pow2(e % 8)
           IN <<Strip(<<t - 1>> \o Ones(n)), <<t>> \o Zeros(n),
                IF n = 0 THEN <<t + 1>> ELSE <<t>> \o Zeros(n - 1) \o <<1>> >>

Mags == Uniq(<< <<1>>, <<2>> >> \o Near(5) \o Near(6) \o Near(7) \o Near(8) \o Near(13) \o Near(14)
             \o Near(20) \o Near(21) \o Near(27) \o Near(28) \o Near(31) \o Near(32) \o Near(34) \o Near(35)
             \o Near(48) \o Near(49) \o Near(62) \o Near(63) \o Near(64) \o Near(70) \o Near(128)
             \o << <<123, 45, 67, 89, 12, 34, 56, 78, 90, 1, 2, 3>>, <<200>> \o Zeros(19) >>)

Texts == << <<>>, <<97>>, <<0>>, <<104, 105, 33>>, <<195, 169>>, <<226, 130, 172, 65>>,
            <<240, 159, 166, 128>>, <<239, 191, 189>>, <<127, 194, 128>>, <<237, 159, 191>>, <<238, 128, 128>> >>
Octets == << <<>>, <<0>>, <<255>>, <<1, 2, 3>>, <<128, 0>>, <<0, 0, 0, 0>>, Pattern(9) >>
Floats == << Zeros(8), <<128, 0, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>,
             <<191, 240, 0, 0, 0, 0, 0, 0>>, <<127, 240, 0, 0, 0, 0, 0, 0>>, <<255, 240, 0, 0, 0, 0, 0, 0>>,
             <<127, 248, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>,
             <<0, 0, 0, 0, 0, 0, 0, 1>>, <<128, 0, 0, 0, 0, 0, 0, 1>>, <<127, 239, 255, 255, 255, 255, 255, 255>>,
             <<64, 89, 0, 0, 0, 0, 0, 1>>, <<64, 88, 255, 255, 255, 255, 255, 255>> >>

One8 == <<0, 0, 0, 0, 0, 0, 0, 1>>
InI32(n) == SLeq(<<255, 255, 255, 255, 128, 0, 0, 0>>, n) /\ SLeq(n, <<0, 0, 0, 0, 127, 255, 255, 255>>)
NextF(v) == Add8(v, One8)
PrevF(v) == Sub8(v, One8)

Below(q, n) == [i \in 1..(IF Len(q) < n THEN Len(q) ELSE n) |-> q[i]]

RECURSIVE VS(_, _), VS0(_, _), Diag(_, _)

\* counts n of items, chosen in rotation
Items(q, n, start) ==
  <<n>> \o Concat([i \in 1..n |-> q[Mod1(start + i - 1, Len(q))]])
Lists(q, counts) ==
  IF q = <<>> THEN << <<0>> >>
  ELSE Uniq(<< <<0>> >> \o Concat([c \in 1..Len(counts) |->
              [j \in 1..(IF counts[c] = 0 THEN 0 ELSE IF counts[c] = 1 THEN Len(q) ELSE IF Len(q) > 3 THEN 3 ELSE Len(q)) |->
                 Items(q, counts[c], 3 * j - 2)]]))

VS(s, fuel) == TLCEval(VS0(s, fuel))
VS0(s, fuel) ==
  CASE s.k = "unit"   -> << <<>> >>
    [] s.k = "bool"   -> << <<0>>, <<1>> >>
    [] s.k = "int"    -> Uniq(<<Zeros(s.w), BE(1, s.w), Ones(s.w), <<127>> \o Ones(s.w - 1),
                                <<128>> \o Zeros(s.w - 1), Pattern(s.w), BE(128, s.w)>>
                              \o (IF s.w = 8 THEN Floats ELSE <<>>))
    [] s.k = "fix"    -> Uniq(<<Zeros(s.n), Ones(s.n), Pattern(s.n), [i \in 1..s.n |-> i % 256]>>)
    [] s.k = "rint"   -> SelectSeq(Uniq(<<s.lo, Add8(s.lo, One8), s.hi, Sub8(s.hi, One8), Zero8, One8,
                                Sub8(s.lo, One8), Add8(s.hi, One8), BE(5, 8), Not8(Zero8)>>), InI32)
    [] s.k = "rfloat" -> Uniq(Floats \o <<s.lo, s.hi, NextF(s.lo), PrevF(s.lo), NextF(s.hi), PrevF(s.hi)>>)
    [] s.k = "N"      -> << <<1, 0>> >> \o [i \in 1..Len(Mags) |-> Prefixed(Mags[i])]
    [] s.k = "Z"      -> << <<0, 1, 0>> >> \o [i \in 1..Len(Mags) |-> <<1>> \o Prefixed(Mags[i])]
                         \o [i \in 1..Len(Mags) |-> <<2>> \o Prefixed(Mags[i])]
    [] s.k = "bytes"  -> [i \in 1..Len(Octets) |-> Prefixed(Octets[i])]
    [] s.k = "string" -> [i \in 1..Len(Texts) |-> Prefixed(Texts[i])]
    [] s.k \in {"opt", "null"} -> << <<0>> >> \o LET q == VS(s.t, fuel) IN [i \in 1..Len(q) |-> <<1>> \o q[i]]
    [] s.k = "seq"    -> Lists(Below(VS(s.t, fuel), 12), <<1, 2, 3, 5>>)
    [] s.k \in {"lim", "fixseq"} /\ s.n > 1000 -> Lists(Below(VS(s.t, fuel), 12), <<1, 2, 3, 5>>)
    [] s.k = "lim"    -> Lists(Below(VS(s.t, fuel), 12), [i \in 1..(s.n + 1) |-> i])
    [] s.k = "fixseq" -> Lists(Below(VS(s.t, fuel), 12), [i \in 1..(s.n + 1) |-> i])
    [] s.k = "struct" -> Diag(s.f, fuel)
    [] s.k = "enum"   -> [i \in 1..Len(s.tags) |-> <<i - 1>>]
    [] s.k = "union"  -> Concat([i \in 1..Len(s.v) |->
                           LET q == Diag(s.v[i], fuel) IN [j \in 1..Len(q) |-> <<i - 1>> \o q[j]]])
    [] s.k = "dyn"    -> LET q == VS(s.t, fuel) IN
                         IF s.p = 1 /\ s.t.k = "bytes"
                         THEN q \o <<Prefixed(Pattern(255)), Prefixed(Pattern(256)), Prefixed(Pattern(511)), Prefixed(Pattern(512))>>
                         ELSE IF s.p = 1 /\ s.t.k = "seq" /\ s.t.t.k = "int" /\ s.t.t.w = 2
                         THEN q \o << <<127>> \o Pattern(254), <<128>> \o Pattern(256) >>
                         ELSE q
    [] s.k \in {"pad", "vpad", "box"} -> VS(s.t, fuel)
    [] s.k = "ref"    -> IF fuel = 0 THEN <<>> ELSE Below(VS(Defs[s.n], fuel - 1), 14)

\* as many combinations as the richest field has values
Diag(fs, fuel) ==
  IF fs = <<>> THEN << <<>> >>
  ELSE LET q == TLCEval([i \in 1..Len(fs) |-> VS(fs[i], fuel)])
           most == CHOOSE n \in {Len(q[i]) : i \in 1..Len(q)} : \A i \in 1..Len(q) : n >= Len(q[i])
       IN IF \E i \in 1..Len(q) : q[i] = <<>> THEN <<>>
          ELSE Uniq([k \in 1..most |-> Concat([i \in 1..Len(q) |->
                 q[i][Mod1(k + (i - 1) * ((k - 1) \div Len(q[i])), Len(q[i]))]])])

\* the values that cannot be told apart once encoded: an item without bytes
RECURSIVE Vague(_, _), VagueF(_, _, _), VagueI(_, _, _, _)
VagueR(v, x) == [v |-> x, rest |-> v]
Vague(s, v) ==       \* [v |-> whether, rest |-> the tokens after]
  CASE s.k = "opt"   -> IF v[1] = 0 THEN VagueR(Tail(v), FALSE) ELSE Vague(s.t, Tail(v))
    [] s.k = "null"  -> IF v[1] = 0 THEN VagueR(Tail(v), FALSE)
                        ELSE LET r == Vague(s.t, Tail(v))
                             IN [r EXCEPT !.v = @ \/ E(s.t, Tail(v)).b = <<>>]
    [] s.k \in {"seq", "lim", "fixseq"} -> VagueI(s, v[1], Tail(v), FALSE)
    [] s.k = "struct" -> VagueF(s.f, v, FALSE)
    [] s.k = "union" -> VagueF(s.v[v[1] + 1], Tail(v), FALSE)
    [] s.k \in {"dyn", "pad", "vpad", "box"} -> Vague(s.t, v)
    [] s.k = "ref"   -> Vague(Defs[s.n], v)
    [] OTHER         -> VagueR(E(s, v).rest, FALSE)
VagueF(fs, v, acc) ==
  IF fs = <<>> THEN VagueR(v, acc)
  ELSE LET r == Vague(Head(fs), v) IN VagueF(Tail(fs), r.rest, acc \/ r.v)
VagueI(s, n, v, acc) ==
  IF n = 0 THEN VagueR(v, acc)
  ELSE LET r == Vague(s.t, v)
           e == E(s.t, v)
       IN VagueI(s, n - 1, r.rest, acc \/ r.v \/ e.b = <<>> \/ (Greedy(s.t, 5) /\ n > 1))
=============================================================================
