------------------------------ MODULE Scalars ------------------------------
(* Arithmetic, numbers, floats, arbitrary-precision integers and text, over  *)
(* bytes.                                                                    *)
EXTENDS Windows

---------------------------------------------------------------------------
(* 8-byte two's-complement arithmetic *)

Zero8 == Zeros(8)
Neg8(b) == b[1] >= 128
Flip(b) == <<(b[1] + 128) % 256>> \o Tail(b)
SLeq(a, b) == LexLeq(Flip(a), Flip(b))        \* signed comparison
SLess(a, b) == a # b /\ SLeq(a, b)

RECURSIVE AddC(_, _, _)
AddC(a, b, carry) ==
  IF a = <<>> THEN <<>>
  ELSE LET t == Last0(a) + Last0(b) + carry
       IN Append(AddC(Front0(a), Front0(b), t \div 256), t % 256)
Add8(a, b) == AddC(a, b, 0)
Not8(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Sub8(a, b) == AddC(a, Not8(b), 1)

\* a raw word of w bytes as an 8-byte number
Ext8(b, signed) == IF signed /\ b[1] >= 128
                   THEN [i \in 1..(8 - Len(b)) |-> 255] \o b
                   ELSE Zeros(8 - Len(b)) \o b

\* the numbers -2^30 and 2^30 - 1
MinNative == <<255, 255, 255, 255, 192, 0, 0, 0>>
MaxNative == <<0, 0, 0, 0, 63, 255, 255, 255>>
Sane(s) == SLeq(MinNative, s.lo) /\ SLeq(s.hi, MaxNative) /\ SLeq(s.lo, s.hi)

ERange(x, bound, val) == [NoErr EXCEPT !.k = "irange", !.x = x, !.z = 1, !.b = bound, !.s = <<val>>]

(* A ranged integer whose minimum is positive travels as its offset from the *)
(* minimum.  RaW: the number that an underlying value u stands for, or error *)
OfRaw(s, u) ==
  IF SLess(Zeros(Len(s.lo)), s.lo)
  THEN CASE Neg8(u) -> [ok |-> FALSE, e |-> ERange(4, s.lo, u)]
         [] SLess(s.hi, s.lo) -> [ok |-> FALSE, e |-> ERange(3, s.lo, s.hi)]
         [] SLess(Sub8(s.hi, s.lo), u) -> [ok |-> FALSE, e |-> ERange(2, Sub8(s.hi, s.lo), u)]
         [] OTHER -> [ok |-> TRUE, v |-> Add8(u, s.lo)]
  ELSE CASE SLess(s.hi, s.lo) /\ ~(SLeq(s.lo, u) /\ SLeq(u, s.hi)) -> [ok |-> FALSE, e |-> ERange(3, s.lo, s.hi)]
         [] SLess(u, s.lo) -> [ok |-> FALSE, e |-> ERange(1, s.lo, u)]
         [] SLess(s.hi, u) -> [ok |-> FALSE, e |-> ERange(2, s.hi, u)]
         [] OTHER -> [ok |-> TRUE, v |-> u]

ToRaw(s, n) == IF SLess(Zeros(Len(s.lo)), s.lo) THEN Sub8(n, s.lo) ELSE n

---------------------------------------------------------------------------
(* IEEE doubles, by their bytes *)

ExpOnes(b) == b[1] % 128 = 127 /\ b[2] >= 240
IsNaN(b) == ExpOnes(b) /\ (b[2] # 240 \/ \E i \in 3..8 : b[i] # 0)
IsZeroF(b) == b[1] % 128 = 0 /\ \A i \in 2..8 : b[i] = 0
FKey(b) == IF IsZeroF(b) THEN <<128, 0, 0, 0, 0, 0, 0, 0>>
           ELSE IF b[1] >= 128 THEN Not8(b) ELSE Flip(b)
FLeq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ LexLeq(FKey(a), FKey(b))

EFloat(x, bound, val) == [NoErr EXCEPT !.k = "frange", !.x = x, !.b = bound, !.s = <<val>>]

InFloat(s, v) ==
  IF ~FLeq(s.lo, s.hi) THEN [ok |-> FALSE, e |-> EFloat(3, s.lo, s.hi)]
  ELSE IF IsNaN(v) THEN [ok |-> FALSE, e |-> [EFloat(1, s.lo, v) EXCEPT !.z = 1, !.s = <<v, s.hi>>]]
  ELSE IF ~FLeq(s.lo, v) THEN [ok |-> FALSE, e |-> EFloat(1, s.lo, v)]
  ELSE IF ~FLeq(v, s.hi) THEN [ok |-> FALSE, e |-> EFloat(2, s.hi, v)]
  ELSE [ok |-> TRUE]

---------------------------------------------------------------------------
(* Numbers of any size: magnitudes are big-endian bytes; on the wire they    *)
(* are 7-bit groups, least significant first                                 *)

Strip(mag) == LET nz == {i \in 1..Len(mag) : mag[i] # 0}
              IN IF nz = {} THEN <<0>>
                 ELSE Drop(mag, (CHOOSE i \in nz : \A j \in nz : i <= j) - 1)
BitLenB(x) == CASE x = 0 -> 0 [] x < 2 -> 1 [] x < 4 -> 2 [] x < 8 -> 3 [] x < 16 -> 4
                [] x < 32 -> 5 [] x < 64 -> 6 [] x < 128 -> 7 [] OTHER -> 8
\* the number of significant bits of a magnitude
BitLen(mag) == LET m == Strip(mag) IN 8 * (Len(m) - 1) + BitLenB(m[1])

CeilDiv(a, b) == (a + b - 1) \div b
Max2(a, b) == IF a > b THEN a ELSE b

\* the seven payload bits of group i (from 0) of b
Group(b, i) == IF i < Len(b) THEN b[i + 1] % 128 ELSE 0
\* eight bits of the groups from bit `at`
Octet(b, at) == LET i == at \div 7
                    r == at % 7
                IN (Group(b, i) \div Pow2(r) + Group(b, i + 1) * Pow2(7 - r) + Group(b, i + 2) * Pow2(14 - r)) % 256
\* byte i (from 0) from the end of mag
Low(mag, i) == IF i < Len(mag) THEN mag[Len(mag) - i] ELSE 0
\* seven bits of mag from bit `at`
Seven(mag, at) == LET i == at \div 8
                      r == at % 8
                  IN (Low(mag, i) \div Pow2(r) + Low(mag, i + 1) * Pow2(8 - r)) % 128

Prefixed(b) == <<Len(b)>> \o b

NatMag(b) == LET n == CeilDiv(7 * Len(b), 8)
             IN Strip([k \in 1..n |-> Octet(b, 8 * (n - k))])
NatTokens(b) == Prefixed(NatMag(b))
\* the first group has six bits of the number and the sign
IntMag(b) == LET n == CeilDiv(7 * Len(b) - 1, 8)
             IN Strip([k \in 1..n |->
                  IF k = n THEN (Group(b, 0) % 64) + (Group(b, 1) % 4) * 64
                  ELSE Octet(b, 8 * (n - k) + 1)])
IntTokens(b) ==
  LET mag == IntMag(b)
      sign == IF mag = <<0>> THEN 0 ELSE IF Group(b, 0) >= 64 THEN 2 ELSE 1
  IN <<sign>> \o Prefixed(mag)

NatBytes(mag) ==
  LET ng == Max2(1, CeilDiv(BitLen(mag), 7))
  IN [k \in 1..ng |-> Seven(mag, 7 * (k - 1)) + (IF k < ng THEN 128 ELSE 0)]
IntBytes(sign, mag) ==
  LET top == BitLen(mag)
      ng == IF top <= 6 THEN 1 ELSE 1 + CeilDiv(top - 6, 7)
  IN [k \in 1..ng |-> (IF k = 1 THEN (Low(mag, 0) % 64) + (IF sign = 2 THEN 64 ELSE 0)
                       ELSE Seven(mag, 7 * (k - 2) + 6))
                      + (IF k < ng THEN 128 ELSE 0)]

---------------------------------------------------------------------------
(* Text: invalid UTF-8 is replaced, one replacement character for every      *)
(* maximal prefix of a well-formed sequence (or for a single stray byte).    *)

Repl == <<239, 191, 189>>
Need(x) == CASE x < 128 -> 0
             [] x \in 194..223 -> 1
             [] x \in 224..239 -> 2
             [] x \in 240..244 -> 3
             [] OTHER -> -1
SecondOk(x, y) == CASE x = 224 -> y \in 160..191
                    [] x = 237 -> y \in 128..159
                    [] x = 240 -> y \in 144..191
                    [] x = 244 -> y \in 128..143
                    [] OTHER -> y \in 128..191
\* the number of bytes at the front of b that belong to one character
GoodLen(b) ==
  LET n == Need(b[1])
      k1 == IF n >= 1 /\ Len(b) >= 2 /\ SecondOk(b[1], b[2]) THEN 2 ELSE 1
      k2 == IF k1 = 2 /\ n >= 2 /\ Len(b) >= 3 /\ b[3] \in 128..191 THEN 3 ELSE k1
      k3 == IF k2 = 3 /\ n = 3 /\ Len(b) >= 4 /\ b[4] \in 128..191 THEN 4 ELSE k2
  IN k3
RECURSIVE Lossy(_)
Lossy(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET k == GoodLen(b) IN
       (IF Need(b[1]) = k - 1 THEN Take(b, k) ELSE Repl) \o Lossy(Drop(b, k))
ValidUtf8(b) == Lossy(b) = b
=============================================================================
