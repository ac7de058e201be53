----------------------------- MODULE NumbersMC -----------------------------
(* The laws of arbitrary-precision integers, and the numbers worth asking.   *)
EXTENDS Numbers, Json

CONSTANT Top

VARIABLE n
Init == n \in 0..Top
Spec == Init /\ [][UNCHANGED n]_n

B == BE(n, 4)
M == Strip(B)
P == NumOf(1, B, FALSE)
Q == NumOf(2, B, FALSE)
Laws ==
  /\ DecMag(B) = ToString(n) /\ DecSigned(B) = ToString(n)
  /\ DecSigned(Negate(B, 1)) = ToString(-n)
  /\ NatTokens(NatBytes(M)) = Prefixed(M)
  /\ IntTokens(IntBytes(1, M)) = <<IF n = 0 THEN 0 ELSE 1>> \o Prefixed(M)
  /\ IntTokens(IntBytes(2, M)) = <<IF n = 0 THEN 0 ELSE 2>> \o Prefixed(M)
  /\ NumFits(P, "u8") = (n < 256) /\ NumFits(P, "i8") = (n < 128) /\ NumFits(Q, "i8") = (n <= 128)
  /\ NumFits(P, "u16") = (n < 65536) /\ NumFits(Q, "u16") = (n = 0)
  /\ NumFits(P, "i16") = (n < 32768) /\ NumFits(Q, "i16") = (n <= 32768)
  /\ NumCmp(P, Q) = (IF n = 0 THEN 0 ELSE 1) /\ NumCmp(P, P) = 0
  /\ NumCmp(P, NumOf(1, BE(n + 1, 5), TRUE)) = -1
  /\ NumCmp(Q, NumOf(2, BE(n + 1, 3), FALSE)) = 1
  /\ Len(NatBytes(M)) <= Len(IntBytes(1, M))
  /\ PadLeft(ToString(n), 7) = Spaces(7 - Len(ToString(n))) \o ToString(n)

\* 2^k - 1, 2^k and 2^k + 1
Around == {LET one == BE(Pow2(k % 8), 1) \o Zeros(k \div 8)
               low == [i \in 1..Len(one) |-> IF i = 1 THEN one[1] - 1 ELSE 255]
               up == Zeros(1) \o one
           IN <<low, one, AddC(up, Zeros(Len(one)) \o <<1>>, 0)>>
           : k \in {0, 1, 5, 6, 7, 8, 12, 13, 14, 15, 16, 19, 20, 21, 27, 28, 31, 32, 33, 34, 35, 48, 49, 55, 56, 62, 63,
                    64, 65, 69, 70, 71, 127, 128, 129, 255, 256}}
Out == n # 0 \/ \A s \in Around : \A i \in 1..3 : PrintT("NUM " \o ToJson(Strip(s[i])))
=============================================================================
