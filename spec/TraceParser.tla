---------------------------- MODULE TraceParser ----------------------------
(* Validates recorded histories of the three parsers against Windows.  Every *)
(* session is one line of the log; every recorded operation is one step here *)
(* and must be the step the specification takes.                             *)
EXTENDS Payload, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES sess,   \* the session
          step,   \* the next recorded operation
          c,      \* the parser, according to the specification
          g       \* the groups taken, according to the specification

vars == <<sess, step, c, g>>

Operation(t) == [op |-> t.op, n |-> t.n, m |-> t.m, k |-> t.k, s |-> Set(t.s)]

\* the groups of lengths gs as bytes
RECURSIVE Cut(_, _)
Cut(b, gs) == IF gs = <<>> THEN <<>>
              ELSE <<Take(b, Head(gs))>> \o Cut(Drop(b, Head(gs)), Tail(gs))

DeliversBytes == {"take", "next", "bool", "tag", "selfterm", "kv", "nth", "last", "gather"}

(* Reading as an iterator.  How the bytes were grouped is not prescribed: an  *)
(* iterator may move over several in one go.                                  *)
Iterating == {"next", "nth", "last", "gather", "count", "hint"}
Grouped == \A i \in 1..Len(Trace[sess].steps) : Trace[sess].steps[i].op \notin Iterating \ {"next"}

(* bounds on what the iterator has still to give *)
HintOk(t, n) == t.r <= n /\ (t.b = <<>> \/ ~IsSmall(t.b) \/ SmallNat(t.b) >= n)

(* A session over very large data is recorded in units of some thousands or  *)
(* millions of equal bytes: every rule about sizes and positions is           *)
(* indifferent to the unit.  Its messages and dumps are not.                  *)
Scaled == Trace[sess].scale > 1

(* which recorded fields differ from the specification *)
Bad(p, t, r, gg) ==
  (IF t.e.k = "panic" THEN {"panic"} ELSE {})
  \cup (IF t.ok # r.ok THEN {"ok"} ELSE {})
  \cup (IF r.ok /\ t.ok /\ t.op \in DeliversBytes /\ t.op # "bool" /\ t.b # r.b THEN {"bytes"} ELSE {})
  \cup (IF r.ok /\ t.ok /\ t.op # "tag" /\ t.op \notin {"take", "selfterm", "hint"} /\ t.r # r.n THEN {"result"} ELSE {})
  \cup (IF ~r.ok /\ ~t.ok /\ t.op \notin Iterating /\ t.e.k # r.e.k THEN {"kind"} ELSE {})
  \cup (IF ~r.ok /\ ~t.ok /\ t.op \notin Iterating /\ t.e.k = r.e.k
             /\ (~Carries(p, r.e, t.e) \/ ~(Scaled \/ (Says(t.e) /\ Sourced(t.e))) \/ (r.e.k = "tag" /\ t.e.z # 1))
        THEN {"payload"} ELSE {})
  \cup (IF t.op = "hint" /\ ~HintOk(t, Rem(r.c)) THEN {"hint"} ELSE {})
  \cup (IF t.rem # Rem(r.c) THEN {"rem"} ELSE {})
  \cup (IF t.off # (IF p = "slice" THEN 0 ELSE r.c.off) THEN {"off"} ELSE {})
  \cup (IF t.vl # (IF p = "slice" THEN Rem(r.c) ELSE Lim(r.c)) THEN {"vl"} ELSE {})
  \cup (IF p = "memo" /\ ~Scaled /\ Grouped
         /\ \/ (r.pf \/ t.op = "dump") /\ Len(t.tr) = 0
            \/ \E i \in 1..Len(t.tr) : t.tr[i] # Cut(c.buf, gg)
        THEN {"trace"} ELSE {})

Report(what, t, r) ==
  PrintT("BAD " \o ToJson([sess |-> sess, step |-> step, p |-> Trace[sess].p, op |-> t.op,
                           v |-> t.v, fields |-> what, want |-> [ok |-> r.ok, b |-> r.b, n |-> r.n,
                           e |-> r.e, off |-> r.c.off, fr |-> r.c.fr]]))

Init == /\ sess \in 1..N
        /\ step = 1
        /\ c = Ctx(Trace[sess].buf)
        /\ g = <<>>

Done == step = Len(Trace[sess].steps) + 2

StepOk ==
  /\ step <= Len(Trace[sess].steps)
  /\ LET t == Trace[sess].steps[step]
         r == Do(Operation(t), c)
         gg == g \o r.g
         bad == Bad(Trace[sess].p, t, r, gg)
     IN IF bad = {}
        THEN c' = r.c /\ g' = gg /\ step' = step + 1
        ELSE /\ Report(bad, t, r)
             /\ step' = Len(Trace[sess].steps) + 2 /\ UNCHANGED <<c, g>>
  /\ UNCHANGED sess

Cleanup ==
  /\ step = Len(Trace[sess].steps) + 1
  /\ LET t == Trace[sess].left
         bad == IF Scaled THEN {} ELSE LeftBad(c, t)
     IN \/ bad = {}
        \/ /\ bad # {}
           /\ Report(bad, [op |-> "cleanup", v |-> ""],
                     [ok |-> TRUE, b |-> <<>>, n |-> 0, e |-> Leftover(c), c |-> c])
  /\ step' = step + 1
  /\ UNCHANGED <<sess, c, g>>

Next == StepOk \/ Cleanup
Spec == Init /\ [][Next]_vars

\* the specification's own invariants hold along every recorded history
Inv == Nested(c) /\ SumSeq(g) = c.off
=============================================================================
