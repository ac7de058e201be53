------------------------------ MODULE SameLogs ------------------------------
(* Every build that differs from the first in ways that must not be seen     *)
(* records the same history.  A line of the log has one record per build.    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, done
vars == <<sess, done>>

(* A value without encoding has no length: whether asking for it panics is   *)
(* not compared.                                                             *)
Lengthless(a) == "len" \in DOMAIN a /\ a.len.enc = -2
Seen(a, lengthless) == IF lengthless THEN [x \in DOMAIN a \ {"len", "pref"} |-> a[x]] ELSE a
Differs(r, k) == r.v[k] # r.v[1] /\ LET l == Lengthless(r.v[1]) IN Seen(r.v[k], l) # Seen(r.v[1], l)
Odd(r) == {k \in 2..Len(r.v) : Differs(r, k)}
\* the first step at which two histories differ, 0 if they have no steps
First(a, b) ==
  IF "steps" \notin DOMAIN a THEN 0
  ELSE IF Len(a.steps) # Len(b.steps) THEN -1
  ELSE LET d == {i \in 1..Len(a.steps) : a.steps[i] # b.steps[i]} IN
       IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : i <= j
Report(r, k) == [build |-> k, step |-> First(r.v[1], r.v[k])]

Init == sess \in 1..Len(Trace) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ LET r == Trace[sess]
               odd == Odd(r)
           IN IF odd = {} THEN TRUE
              ELSE PrintT("BAD " \o ToJson([sess |-> sess, op |-> "same", fields |-> {"differs"},
                                            odd |-> {Report(r, k) : k \in odd}]))
        /\ UNCHANGED sess
Spec == Init /\ [][Next]_vars
=============================================================================
