------------------------------ MODULE Numbers ------------------------------
(* Arbitrary-precision integers read back: a sign (0 zero, 1 positive, 2     *)
(* negative) and the big-endian bytes of the magnitude.                      *)
EXTENDS Scalars, Message

NumOf(sg, b, nat) == LET m == Strip(b)
                     IN IF m = <<0>> THEN [sg |-> 0, b |-> <<0>>]
                        ELSE [sg |-> IF nat THEN 1 ELSE sg, b |-> m]
DecNum(v) == IF v.sg = 2 THEN "-" \o DecMag(v.b) ELSE DecMag(v.b)

\* as 16 bytes of two's complement, when the magnitude has at most 15
Num16(v) == LET m == Zeros(16 - Len(v.b)) \o v.b IN IF v.sg = 2 THEN Negate(m, 1) ELSE m

\* the number fits a primitive type
NumFits(v, p) ==
  LET w == CASE p \in {"u8", "i8"} -> 1 [] p \in {"u16", "i16"} -> 2 [] p \in {"u32", "i32"} -> 4 [] OTHER -> 8
      sg == p \in {"i8", "i16", "i32", "i64"}
      top == BitLen(v.b)
      power == \A i \in 1..Len(v.b) : v.b[i] = IF i = 1 THEN 128 ELSE 0
  IN CASE v.sg = 0 -> TRUE
       [] ~sg -> v.sg = 1 /\ top <= 8 * w
       [] OTHER -> top <= 8 * w - 1 \/ (v.sg = 2 /\ top = 8 * w /\ power)

MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE IF a = b THEN 0 ELSE IF LexLess(a, b) THEN -1 ELSE 1
Signed_(v) == CASE v.sg = 0 -> 0 [] v.sg = 1 -> 1 [] OTHER -> -1
NumCmp(v, w) == IF v.sg # w.sg THEN (IF Signed_(v) < Signed_(w) THEN -1 ELSE 1)
                ELSE IF v.sg = 0 THEN 0
                ELSE IF v.sg = 1 THEN MagCmp(v.b, w.b) ELSE MagCmp(w.b, v.b)

\* s at the right of n columns
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadLeft(s, n) == Spaces(n - Len(s)) \o s
=============================================================================
