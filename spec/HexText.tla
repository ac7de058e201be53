------------------------------ MODULE HexText ------------------------------
(* Hexadecimal text, as UTF-8 bytes.                                         *)
EXTENDS Bytes

Digit(c) == CASE c \in 48..57 -> c - 48
              [] c \in 65..70 -> c - 55
              [] c \in 97..102 -> c - 87
              [] OTHER -> -1
AllHex(t) == \A i \in 1..Len(t) : Digit(t[i]) >= 0
Denotes(t) == Len(t) % 2 = 0 /\ AllHex(t)
Meaning(t) == [i \in 1..(Len(t) \div 2) |-> 16 * Digit(t[2 * i - 1]) + Digit(t[2 * i])]
\* the number of characters of a text
Chars(t) == Cardinality({i \in 1..Len(t) : t[i] \notin 128..191})
\* the failures that describe a text truthfully
HexErrors(t) == (IF Len(t) % 2 = 1 \/ Chars(t) % 2 = 1 THEN {"odd"} ELSE {})
                \cup (IF ~AllHex(t) THEN {"nonhex"} ELSE {})

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
UpperDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE HexStr(_)
HexStr(b) == IF b = <<>> THEN ""
             ELSE HexDigits[Head(b) \div 16 + 1] \o HexDigits[(Head(b) % 16) + 1] \o HexStr(Tail(b))
RECURSIVE UpperStr(_)
UpperStr(b) == IF b = <<>> THEN ""
               ELSE UpperDigits[Head(b) \div 16 + 1] \o UpperDigits[(Head(b) % 16) + 1] \o UpperStr(Tail(b))

\* the text of some bytes, as UTF-8
Lower(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText_(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN Lower(b[(i + 1) \div 2] \div 16) ELSE Lower((b[i \div 2]) % 16)]

RECURSIVE Str(_, _)
Str(ds, from) == IF ds = <<>> THEN "" ELSE from[Head(ds) + 1] \o Str(Tail(ds), from)
\* the bits of big-endian bytes, most significant first
RECURSIVE Bits_(_)
Bits_(b) == IF b = <<>> THEN <<>> ELSE [i \in 1..8 |-> (Head(b) \div Pow2(8 - i)) % 2] \o Bits_(Tail(b))
BinStr(b) == Str(Bits_(b), HexDigits)
OctStr(b) == LET q == <<0>> \o Bits_(b)      \* of 32 bits
             IN Str([k \in 1..11 |-> 4 * q[3 * k - 2] + 2 * q[3 * k - 1] + q[3 * k]], HexDigits)
=============================================================================
