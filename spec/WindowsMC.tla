----------------------------- MODULE WindowsMC -----------------------------
(* Exhaustive model checking of the parser design over small buffers: every  *)
(* history of operations, from every buffer over a small alphabet.           *)
EXTENDS Windows, TLC

CONSTANTS MaxLen, MaxDepth, Alphabet

Bufs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Sizes == 0..(MaxLen + 1)

Op(name, n) == [op |-> name, n |-> n, m |-> 0, k |-> <<>>, s |-> {}]
Ops ==
  {Op(x, n) : x \in {"take", "skip", "skipx", "open"}, n \in Sizes}
  \cup {Op(x, 0) : x \in {"next", "test", "close", "bool", "dump"}}
  \cup {Op("selfterm", k) : k \in 0..3}
  \cup {Op(x, w) : x \in {"prefix", "skipdyn"}, w \in {1, 2}}
  \cup {[Op("tag", w) EXCEPT !.s = t] : w \in {1}, t \in {{}, {<<0>>}, {<<0>>, <<255>>}}}
  \cup {[Op("kv", n) EXCEPT !.m = m, !.k = [i \in 1..m |-> 1]] : m \in {1, 2}, n \in 0..2}

VARIABLES c,      \* the parser
          g,      \* lengths of the byte groups taken so far
          last    \* the last operation and its result

vars == <<c, g, last>>

Init == /\ \E b \in Bufs : c = Ctx(b)
        /\ g = <<>>
        /\ last = [o |-> Op("info", 0), r |-> Res(c, <<>>, 0, <<>>), old |-> c]

Step(o) == LET r == Do(o, c) IN
  /\ c' = r.c
  /\ g' = g \o r.g
  /\ last' = [o |-> o, r |-> r, old |-> c]

Take_     == \E n \in Sizes : Step(Op("take", n))
Skip_     == \E n \in Sizes : Step(Op("skip", n))
SkipX_    == \E n \in Sizes : Step(Op("skipx", n))
Open_     == \E n \in Sizes : Depth(c) < MaxDepth /\ Step(Op("open", n))
Close_    == Step(Op("close", 0))
Test_     == Step(Op("test", 0))
Next_     == Step(Op("next", 0))
Bool_     == Step(Op("bool", 0))
SelfTerm_ == \E k \in 0..3 : Step(Op("selfterm", k))
Tag_      == \E o \in Ops : o.op = "tag" /\ Step(o)
Prefix_   == \E w \in {1, 2} : Depth(c) < MaxDepth /\ Step(Op("prefix", w))
SkipDyn_  == \E w \in {1, 2} : Depth(c) < MaxDepth /\ Step(Op("skipdyn", w))
Kv_       == \E o \in Ops : o.op = "kv" /\ Step(o)

Next == \/ Take_ \/ Skip_ \/ SkipX_ \/ Open_ \/ Close_ \/ Test_ \/ Next_
        \/ Bool_ \/ SelfTerm_ \/ Tag_ \/ Prefix_ \/ SkipDyn_ \/ Kv_

Spec == Init /\ [][Next]_vars

\* the histories are unbounded: states are identified by the parser and the
\* last step only
View_ == <<c, last>>

----------------------------------------------------------------------------
(* C01, C02 *)
WindowsNested == Nested(c)
RemOk == Rem(c) >= 0 /\ Rem(c) <= Len(c.buf) - c.off

(* C22: the groups cover exactly what was consumed *)
GroupsCover == SumSeq(g) = c.off

(* C01: the effect of a step on the position *)
Effect ==
  LET o == last.o r == last.r old == last.old IN
  /\ c.buf = old.buf
  /\ SumSeq(r.g) = c.off - old.off
  /\ c.off >= old.off
  /\ (o.op \in Primitive /\ ~r.ok) => c = old
  /\ (o.op \in {"take", "next"}) =>
        LET n == IF o.op = "next" THEN 1 ELSE o.n IN
        /\ r.ok <=> n <= Rem(old)
        /\ r.ok => /\ r.b = SubSeq(c.buf, old.off + 1, old.off + n)
                   /\ Rem(c) = Rem(old) - n /\ c.fr = old.fr
  /\ (o.op = "skip") => r.ok /\ r.n <= o.n /\ Rem(c) = Rem(old) - r.n
                        /\ (r.n < o.n => Rem(c) = 0)
  \* no operation consumes past the innermost window that was open
  /\ c.off <= Lim(old) \/ c.off = old.off

(* C02: windows form a stack that is left only by exhausting it *)
Stack_ ==
  LET o == last.o r == last.r old == last.old IN
  /\ (o.op = "open") => (r.ok <=> o.n <= Rem(old))
                        /\ (r.ok => c.fr = Append(old.fr, old.off + o.n) /\ Rem(c) = o.n)
  /\ (o.op = "test") => r.n = (IF CloseWindow(old).ok THEN 1 ELSE 0) /\ c = old
  /\ (o.op = "close") => (r.ok <=> (old.fr # <<>> /\ Rem(old) = 0))
                         /\ (r.ok => Append(c.fr, old.off) = old.fr)
  /\ (o.op \notin {"open", "close", "prefix", "skipdyn"}) => c.fr = old.fr
  /\ (o.op = "skipdyn" /\ r.ok) => c.fr = old.fr

(* C04: the helpers in terms of the bytes in view *)
Helpers ==
  LET o == last.o r == last.r old == last.old v == View(old) IN
  /\ (o.op = "prefix" /\ r.ok) =>
        /\ c.off = old.off + o.n /\ Rem(c) = r.n
        /\ r.n = Nat_(Take(v, o.n)) /\ Front0(c.fr) = old.fr
  /\ (o.op = "skipdyn") =>
        (r.ok <=> Len(v) >= o.n /\ Len(v) - o.n >= Nat_(Take(v, o.n)))
        /\ (r.ok => c = Adv(old, o.n + Nat_(Take(v, o.n))))
  /\ (o.op = "kv") =>
        LET w == o.m + o.n
            full == Len(v) \div w
            hit == {i \in 0..(full - 1) : SubSeq(v, i * w + 1, i * w + o.m) = o.k}
        IN CASE hit # {} -> LET i == CHOOSE i \in hit : \A j \in hit : i <= j
                            IN r.ok /\ r.n = 1 /\ c = Adv(old, (i + 1) * w)
                               /\ r.b = SubSeq(v, i * w + o.m + 1, (i + 1) * w)
             [] hit = {} /\ Len(v) % w = 0 -> r.ok /\ r.n = 0 /\ c = Adv(old, Len(v))
             [] OTHER -> ~r.ok
  /\ (o.op = "selfterm") =>
        (r.ok <=> \E i \in 1..Len(v) : Terminal(o.n, v[i]))

(* C05: the leftover segments partition the unread bytes *)
LeftoverOk ==
  /\ Concat(Leftover(c)) = Drop(c.buf, c.off)
  /\ Len(Leftover(c)) = Depth(c) + 1
=============================================================================
