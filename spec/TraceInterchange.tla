-------------------------- MODULE TraceInterchange --------------------------
(* C03: three consecutive sessions of the log are the same history run on    *)
(* the owning, the memoizing and the slice-based parser.  Step by step they  *)
(* must agree in everything that does not depend on how positions are kept.  *)
EXTENDS Bytes, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace) \div 3

VARIABLES grp, step
vars == <<grp, step>>

A == Trace[3 * grp - 2]
B == Trace[3 * grp - 1]
C == Trace[3 * grp]

Greater(a, b) == IF a > b THEN a ELSE b
Steps == Greater(Len(A.steps), Greater(Len(B.steps), Len(C.steps)))

Differ(s, t) ==
  (IF s.ok # t.ok THEN {"ok"} ELSE {})
  \cup (IF s.op # "hint" /\ s.b # t.b THEN {"bytes"} ELSE {})
  \cup (IF s.op # "hint" /\ s.r # t.r THEN {"result"} ELSE {})
  \cup (IF s.e.k # t.e.k THEN {"kind"} ELSE {})
  \cup (IF s.e.b # t.e.b THEN {"payload"} ELSE {})
  \cup (IF s.rem # t.rem THEN {"rem"} ELSE {})

DifferLeft(s, t) == IF s # t THEN {"left"} ELSE {}

Report(what, op, p) ==
  PrintT("BAD " \o ToJson([sess |-> 3 * grp - 2, step |-> step, op |-> op, v |-> "", p |-> p,
                           fields |-> what, want |-> <<>>]))

Init == grp \in 1..N /\ step = 1

Agree ==
  /\ step <= Steps
  /\ IF \/ Len(A.steps) < step \/ Len(B.steps) < step \/ Len(C.steps) < step
     THEN Report({"length"}, "?", "") /\ step' = Steps + 2
     ELSE LET ab == Differ(A.steps[step], B.steps[step])
              ac == Differ(A.steps[step], C.steps[step])
          IN IF ab \cup ac = {} THEN step' = step + 1
             ELSE /\ Report(ab \cup ac, A.steps[step].op, IF ab # {} THEN "memo" ELSE "slice")
                  /\ step' = Steps + 2
  /\ UNCHANGED grp

AgreeLeft ==
  /\ step = Steps + 1
  /\ LET d == DifferLeft(A.left, B.left) \cup DifferLeft(A.left, C.left)
     IN d = {} \/ (d # {} /\ Report(d, "cleanup", ""))
  /\ step' = step + 1
  /\ UNCHANGED grp

Next == Agree \/ AgreeLeft
Spec == Init /\ [][Next]_vars
=============================================================================
