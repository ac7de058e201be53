------------------------------ MODULE Message ------------------------------
(* What the text of an error must mention.  The text is recorded as the      *)
(* words of it that are numbers (0x ones without leading zeros) or           *)
(* hexadecimal dumps, in order.                                              *)
EXTENDS HexText

\* the decimal digits of a magnitude, most significant first
RECURSIVE DivTen(_, _, _), DecOf(_)
DivTen(b, carry, q) == IF b = <<>> THEN [q |-> q, r |-> carry]
                       ELSE LET t == carry * 256 + Head(b)
                            IN DivTen(Tail(b), t % 10, Append(q, t \div 10))
DecOf(b) == IF \A i \in 1..Len(b) : b[i] = 0 THEN ""
            ELSE LET d == DivTen(b, 0, <<>>) IN DecOf(d.q) \o HexDigits[d.r + 1]
DecMag(b) == LET d == DecOf(b) IN IF d = "" THEN "0" ELSE d

RECURSIVE Negate(_, _)
Negate(b, carry) == IF b = <<>> THEN <<>>
                    ELSE LET t == 255 - Last0(b) + carry
                         IN Append(Negate(Front0(b), t \div 256), t % 256)
\* a two's-complement number
DecSigned(b) == IF b # <<>> /\ b[1] >= 128 THEN "-" \o DecMag(Negate(b, 1)) ELSE DecMag(b)

\* a number after 0x, without its leading zeros
RECURSIVE NoZeros(_)
NoZeros(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN NoZeros(Tail(ds)) ELSE ds
Nibbles(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE (b[i \div 2]) % 16]
HexNum(b) == "0x" \o Str(NoZeros(Nibbles(b)), HexDigits)
Dump(b) == IF b = <<>> THEN <<>> ELSE <<HexStr(b)>>

\* the facts are words of the message, in order
RECURSIVE Mentions(_, _)
Mentions(m, facts) == IF facts = <<>> THEN TRUE
                      ELSE IF m = <<>> THEN FALSE
                      ELSE IF Head(m) = Head(facts) THEN Mentions(Tail(m), Tail(facts))
                      ELSE Mentions(Tail(m), facts)

\* sizes are recorded up to a thousand million
Large(n) == n >= 1000000000
Nums(ns) == [i \in 1..Len(ns) |-> ToString(ns[i])]

Nan(b) == b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] # 240 \/ \E i \in 3..8 : b[i] # 0)
RECURSIVE Floats(_)
Floats(bs) == IF bs = <<>> THEN <<>>
              ELSE (IF Nan(Head(bs)) THEN <<>> ELSE <<HexStr(Head(bs))>>) \o Floats(Tail(bs))

(* the facts that the message of a recorded error states *)
Facts(r) ==
  CASE r.k = "consume" -> IF Large(r.y) THEN Nums(<<r.x, r.z>>) ELSE Nums(<<r.y, r.x, r.z>>)
    [] r.k = "open" /\ Large(r.y) -> IF r.x = 0 /\ r.z = 1 THEN <<>> ELSE Nums(<<r.x>>)
    [] r.k = "open" -> IF r.x = 0 /\ r.z = 1 THEN Nums(<<r.y>>) ELSE Nums(<<r.y, r.x>>)
    [] r.k = "residue" -> Nums(<<r.x>>)
    [] r.k = "bool" -> <<HexNum(<<r.x>>)>>
    [] r.k = "tag" -> <<HexNum(r.b)>>
    [] r.k \in {"nonterm", "pad"} -> Dump(r.b)
    [] r.k = "irange" /\ r.x \in {1, 2, 4} -> <<DecSigned(r.s[1]), DecSigned(r.b)>>
    [] r.k = "irange" /\ r.x = 3 -> <<DecSigned(r.b), DecSigned(r.s[1])>>
    [] r.k = "overflow" -> Nums(<<r.x>>)
    [] r.k = "width" /\ "z" \in DOMAIN r /\ r.z = 3 -> Nums(<<r.y>>)
    [] r.k \in {"length", "width"} -> IF Large(r.y) \/ Large(r.x) THEN <<>> ELSE Nums(<<r.y, r.x>>)
    \* of floats, the bits are recorded; what a NaN is written as is not fixed
    [] r.k = "frange" /\ r.x = 3 -> Floats(<<r.b, r.s[1]>>)
    [] r.k = "frange" -> Floats(<<r.s[1], r.b>>)
    [] OTHER -> <<>>
Says(r) == Mentions(r.m, Facts(r))
\* so do the errors it names as its sources; a parser's error has at least one
Sourced(r) == \/ r.k \in {"nonempty", "panic", "conv", "other", "-"}
              \/ /\ Len(r.src) > 0
                 /\ \A i \in 1..Len(r.src) : Mentions(r.src[i], Facts(r))
=============================================================================
