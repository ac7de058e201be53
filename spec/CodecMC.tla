------------------------------ MODULE CodecMC ------------------------------
(* The laws of the wire language, checked on the representative values of    *)
(* every type under test and (with Edits = 1) on every input one edit away   *)
(* from an encoding.  With Emit the values and encodings are printed: they   *)
(* are replayed on the implementation.                                       *)
EXTENDS CodecVals, Layout, Payload

CONSTANTS Edits, Emit

VARIABLES name,   \* the type
          v,      \* a value of it
          e,      \* its encoding
          buf,    \* an input
          ed      \* how many edits it is away from the encoding
vars == <<name, v, e, buf, ed>>

Schema == Defs[name]

Init == /\ name \in DOMAIN Defs
        /\ ed = -1 /\ v = <<>> /\ e = Plain(<<>>, <<>>) /\ buf = <<>>

Pick == /\ ed = -1
        /\ \E x \in Set(VS(Schema, 3)) : v' = x /\ e' = E(Schema, x) /\ buf' = E(Schema, x).b
        /\ ed' = 0
        /\ UNCHANGED name

EditBytes == {0, 1, 2, 127, 128, 255}
Edit ==
  /\ ed >= 0 /\ ed < Edits /\ e.ok /\ e.can /\ Len(buf) <= 12
  /\ \/ \E i \in 0..(Len(buf) - 1) : buf' = Take(buf, i)
     \/ \E b \in EditBytes : buf' = Append(buf, b)
     \/ \E i \in 1..Len(buf), b \in EditBytes : buf' = [buf EXCEPT ![i] = b]
     \/ \E i \in 1..Len(buf) : buf' = SubSeq(buf, 1, i - 1) \o SubSeq(buf, i + 1, Len(buf))
  /\ ed' = ed + 1
  /\ UNCHANGED <<name, v, e>>

Next == Pick \/ Edit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
At0 == ed = 0 /\ e.ok /\ e.can
Clear == At0 /\ ~Vague(Schema, v).v
         \* a reserved tail inside a reserved tail is never used up
         /\ (Schema.k = "vpad" => Reserve(Schema.t, 4) = 0)
         \* nothing can follow what is bounded by the end of the view only
         /\ (Schema.k = "pad" => ~Greedy(Schema.t, 5))

\* all tokens are used
Shaped == e.rest = <<>>

\* what is encoded is decoded, whatever follows if the type delimits itself
Tails == { <<>>, <<0>>, <<255, 1>>, <<128, 128, 0>>, Zeros(5) }
RoundTrip ==
  Clear => LET res == Reserve(Schema, 4)
               tails == IF res > 0 THEN {Pattern(res)} ELSE IF Greedy(Schema, 5) THEN { <<>> } ELSE Tails
           IN \A t \in tails : LET r == D(Schema, Ctx(buf \o t))
                               IN r.ok /\ r.b = v /\ r.c.off = Len(buf) /\ r.c.fr = <<>>

\* in a frame every type is delimited
Framed ==
  Clear /\ Reserve(Schema, 4) = 0
    => \A t \in Tails : LET s == [k |-> "dyn", p |-> 2, t |-> Schema]
                            f == E(s, v)
                            r == D(s, Ctx(f.b \o t))
                        IN f.ok => r.ok /\ r.b = v /\ r.c.off = Len(f.b) /\ r.c.fr = <<>>

\* no proper prefix of the encoding of a self-delimiting type decodes
PrefixFree ==
  Clear /\ ~Greedy(Schema, 5) => \A i \in 0..(Len(buf) - 1) : ~D(Schema, Ctx(Take(buf, i))).ok

\* lengths known from the type
Lengths ==
  At0 => LET n == FixedLen(Schema, 4) IN n >= 0 => Len(buf) = n

\* the fewest bytes
Minimal ==
  At0 /\ Schema.k \in {"N", "Z"} => Len(buf) = 1 \/ Last0(buf) # 0

Kinds == {"consume", "open", "residue", "bool", "tag", "nonterm", "irange", "frange", "length", "pad",
          "generic", "nonempty", "panic"}
\* decoding stays inside the input and says what failed
Total ==
  LET r == D(Schema, Ctx(buf))
  IN /\ r.c.off \in 0..Len(buf)
     /\ Nested(r.c)
     /\ r.ok => r.c.fr = <<>>
     /\ ~r.ok => r.e.k \in Kinds

\* what was decoded from anything is a value that is encoded and decoded again
Stable ==
  LET r == D(Schema, Ctx(buf))
  IN r.ok /\ ~Vague(Schema, r.b).v /\ Reserve(Schema, 4) = 0 /\ CheckPad
     => LET f == E(Schema, r.b)
            q == D(Schema, Ctx(f.b))
        IN f.ok /\ f.can /\ f.rest = <<>> /\ q.ok /\ q.b = r.b

\* bytes behind a self-delimiting value do not matter
Local ==
  LET r == D(Schema, Ctx(buf))
  IN r.ok /\ ~Greedy(Schema, 5) => D(Schema, Ctx(Append(buf, 255))).b = r.b

\* a sequence many times over is one long sequence
Pumped ==
  Clear /\ Schema.k = "seq" /\ ~Greedy(Schema.t, 5) /\ v[1] > 0
    => \A m \in 2..3 :
         LET r == D(Schema, Ctx(Concat([k \in 1..m |-> buf])))
         IN r.ok /\ r.b[1] = m * v[1] /\ Tail(r.b) = Concat([k \in 1..m |-> Tail(v)])

\* the layout of an encoding covers it, and a decoder is done with the first constituent
\* where the layout has a position
Laid ==
  At0 => LET l == L(Schema, v)
         IN /\ l.n = Len(buf) /\ l.rest = <<>>
            /\ l.must \cup l.may \subseteq 0..l.n /\ (l.n > 0 => l.n \in l.must) /\ l.must \cap l.may \subseteq {l.n}
            /\ (Clear /\ Schema.k = "struct" /\ Len(Schema.f) > 1
                => LET r == D(Schema.f[1], Ctx(buf)) IN r.ok /\ r.c.off \in l.must \cup {0})
            /\ (Clear /\ Schema.k \in {"seq", "lim", "fixseq"} /\ v[1] > 0
                => LET r == D(Schema.t, Ctx(buf)) IN r.ok /\ r.c.off \in l.must \cup {0})

Out == \/ ~Emit \/ ed < 0
       \/ ed = 0 /\ PrintT("VEC " \o ToJson([t |-> name, v |-> v, b |-> e.b, ok |-> e.ok, can |-> e.can,
                                            greedy |-> Greedy(Schema, 5), res |-> Reserve(Schema, 4)]))
       \/ ed > 0 /\ PrintT("INP " \o ToJson([t |-> name, b |-> buf]))
=============================================================================
