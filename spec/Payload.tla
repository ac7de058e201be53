------------------------------ MODULE Payload ------------------------------
(* What a recorded error must say: a comparison of the error of the          *)
(* specification, e, with the recorded one, r, whose message must say so too. *)
EXTENDS Windows, Message

Set(s) == {s[i] : i \in 1..Len(s)}

\* sizes are recorded up to a thousand million
Least(a, b) == IF a < b THEN a ELSE b

(* the error payloads; p tells which parser reported it *)
SignExt(b) == (IF b[1] >= 128 THEN [i \in 1..4 |-> 255] ELSE Zeros(4)) \o b
Carries(p, e, r) ==
  CASE e.k = "consume" -> IF p = "slice"
                          THEN r.x = 0 /\ r.y = e.y /\ r.z = e.z - e.x
                          ELSE r.x = e.x /\ r.y = e.y /\ r.z = e.z
    [] e.k = "open"    -> r.y = Least(e.y, 1000000000) /\ (IF r.z = 1 THEN r.x = e.z ELSE r.x = e.x)
    [] e.k = "residue" -> r.x = e.x
    [] e.k = "bool"    -> r.x = e.x
    [] e.k = "tag"     -> r.b = e.b /\ Set(r.s) = e.s /\ r.x = e.x /\ r.y = 1
    [] e.k = "nonterm" -> r.b = e.b
    [] e.k = "irange" /\ e.z = 0 ->           \* of a length prefix
                          \/ r.x = 2 /\ r.b = BE(MaxU30, 8)
                             /\ r.s \in {<<Zeros(4) \o e.b>>, <<SignExt(e.b)>>}
                          \/ e.b[1] >= 128 /\ r.x = 1 /\ r.b = Zeros(8) /\ r.s = <<SignExt(e.b)>>
    [] e.k = "irange"  -> r.x = e.x /\ r.b = e.b /\ r.s = e.s
    \* a value that is not a number is on neither side of the bounds
    [] e.k = "frange"  -> /\ r.s = <<e.s[1]>>
                          /\ \/ r.x = e.x /\ r.b = e.b
                             \/ e.z = 1 /\ r.x = 2 /\ r.b = e.s[2]
    [] e.k = "length"  -> r.x = e.x /\ r.y = e.y /\ r.z = e.z
    [] e.k = "width"   -> r.x = e.x /\ r.y = e.y /\ r.z = e.z
    [] e.k = "pad"     -> r.b = e.b
    [] e.k = "nonempty" -> r.x = e.x /\ r.y = e.y /\ r.b = e.b
    [] OTHER           -> TRUE
ErrPayload(p, e, r) == Says(r) /\ Carries(p, e, r)
---------------------------------------------------------------------------
(* the leftover report t of a parser discarded in the state c *)
LeftBad(c, t) ==
  LET segs == Leftover(c)
      n == Len(c.buf) - c.off
      kind == IF Depth(c) > 0 THEN "windowed" ELSE IF n = 0 THEN "empty" ELSE "flat"
      \* an empty tail outside every window may or may not be listed
      want == IF kind = "empty" THEN {<<>>}
              ELSE {segs} \cup (IF Last0(segs) = <<>> THEN {Front0(segs)} ELSE {})
  IN (IF t.k # kind THEN {"leftkind"} ELSE {})
     \cup (IF t.segs \notin want THEN {"leftbytes"} ELSE {})
     \cup (IF t.len # n \/ t.empty # (n = 0) THEN {"leftlen"} ELSE {})
=============================================================================
