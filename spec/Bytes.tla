------------------------------- MODULE Bytes -------------------------------
(* Byte sequences and the few numeric conversions the specification needs.  *)
(* A byte is an integer in 0..255; a bit is 0 or 1.  TLC integers are 32-bit *)
(* so that wider numbers are always kept as big-endian byte sequences.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Byte == 0..255

Zeros(n) == [i \in 1..n |-> 0]

Last0(s) == s[Len(s)]
Front0(s) == SubSeq(s, 1, Len(s) - 1)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Pow2(n) == 2 ^ n

(* big-endian bytes -> natural number; only for values below 2^31 *)
RECURSIVE Nat_(_)
Nat_(b) == IF b = <<>> THEN 0 ELSE Nat_(Front0(b)) * 256 + Last0(b)

(* big-endian bytes whose value fits below 2^30 *)
IsSmall(b) == \/ Len(b) < 4
              \/ /\ \A i \in 1..(Len(b) - 4) : b[i] = 0
                 /\ b[Len(b) - 3] < 64
SmallNat(b) == IF Len(b) <= 4 THEN Nat_(b) ELSE Nat_(Drop(b, Len(b) - 4))

RECURSIVE BE(_, _)      \* natural number -> w big-endian bytes
BE(n, w) == IF w = 0 THEN <<>> ELSE Append(BE(n \div 256, w - 1), n % 256)

(* lexicographic comparison of equally long byte sequences *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))
LexLeq(a, b) == a = b \/ LexLess(a, b)

(* bits of a byte, least significant first *)
BitsOf(x, n) == [i \in 1..n |-> (x \div Pow2(i - 1)) % 2]
RECURSIVE OfBits(_)
OfBits(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 2 * OfBits(Tail(bs))
=============================================================================
