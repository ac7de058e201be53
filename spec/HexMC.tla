------------------------------- MODULE HexMC -------------------------------
(* The laws of hexadecimal text over every text up to a length, and the      *)
(* texts to be replayed.                                                     *)
EXTENDS HexText, Json

CONSTANT MaxLen
VARIABLE t
\* characters: digits, letters of both cases and their neighbours, spaces,
\* signs, and characters of two, three and four bytes (some are digits)
Alphabet == {<<48>>, <<57>>, <<97>>, <<70>>, <<47>>, <<58>>, <<71>>, <<96>>, <<103>>, <<43>>, <<32>>, <<120>>, <<0>>,
             <<195, 169>>, <<217, 163>>, <<239, 188, 145>>, <<240, 159, 152, 128>>}
Init == t = <<>>
Next == \E c \in Alphabet : Len(t) + Len(c) <= MaxLen /\ t' = t \o c
Spec == Init /\ [][Next]_t

Laws == /\ Denotes(t) => /\ HexErrors(t) = {}
                         /\ Len(Meaning(t)) * 2 = Len(t)
                         /\ Denotes(HexText_(Meaning(t)))
                         /\ Meaning(HexText_(Meaning(t))) = Meaning(t)
        /\ ~Denotes(t) => HexErrors(t) # {}
        /\ \A i \in 1..Len(t) : Meaning(HexText_(t)) = t
Out == PrintT("INP " \o ToJson(t))
=============================================================================
