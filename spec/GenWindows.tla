----------------------------- MODULE GenWindows -----------------------------
(* Enumerates the state graph of the parser for a few buffers and prints     *)
(* every transition; the runner covers all of them with histories that are   *)
(* replayed on the real parsers.                                             *)
EXTENDS Windows, Json, IOUtils, TLC

CONSTANT MaxDepth

\* the buffers to enumerate: read from the environment
In == ndJsonDeserialize(IOEnv.GENIN)
Bufs == {In[i].buf : i \in 1..Len(In)}

Huge == 1000000000
Op(name, n) == [op |-> name, n |-> n, m |-> 0, k |-> <<>>, s |-> {}]
Kv(m, n, k) == [op |-> "kv", n |-> n, m |-> m, k |-> k, s |-> {}]

OpsFor(b) ==
  {Op(x, n) : x \in {"take", "skip", "skipx", "open"}, n \in 0..(Len(b) + 1) \cup {Huge}}
  \cup {Op(x, 0) : x \in {"next", "test", "close", "bool", "dump"}}
  \cup {Op("selfterm", k) : k \in 0..3}
  \cup {Op(x, w) : x \in {"prefix", "skipdyn"}, w \in {1, 2, 4}}
  \cup {[Op("tag", w) EXCEPT !.s = t] : w \in {1},
        t \in {{}, {<<0>>}, {<<0>>, <<255>>}, {<<1>>, <<2>>, <<3>>}}}
  \cup {[Op("tag", 2) EXCEPT !.s = {<<0, 1>>, <<1, 0>>}]}
  \cup {Kv(1, n, <<k>>) : n \in 0..2, k \in {1, 2}} \cup {Kv(2, 1, <<0, 1>>), Kv(0, 1, <<>>)}

VARIABLE c

Init == \E b \in Bufs : c = Ctx(b)

Next == \E o \in OpsFor(c.buf) :
  LET r == Do(o, c) IN
  /\ Depth(r.c) <= MaxDepth
  /\ c' = r.c
  /\ PrintT("EDGE " \o ToJson([b |-> c.buf, a |-> <<c.off>> \o c.fr, o |-> o,
                               z |-> <<r.c.off>> \o r.c.fr]))

Spec == Init /\ [][Next]_c
Inv == Nested(c)
=============================================================================
