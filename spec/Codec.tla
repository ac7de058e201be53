------------------------------- MODULE Codec -------------------------------
(* The wire language.  A schema describes a type; a value is a flat sequence *)
(* of integers (its tokens).  D decodes a value from a parser context, E     *)
(* encodes one, and Vals enumerates representative values of a schema.       *)
(*                                                                           *)
(* Tokens: int (w bytes) - w big-endian bytes; rint - the number as 8 bytes; *)
(* rfloat - 8 bytes; bool - 0 or 1; bytes, string - length, bytes; fix - the *)
(* bytes; opt, null - 0, or 1 and the value; seq, lim, fixseq - the count    *)
(* and the items; struct - the fields; enum, union - the index of the        *)
(* variant (from 0) and its fields; N - length and big-endian bytes; Z - a   *)
(* sign (0, 1 positive, 2 negative), length and bytes of the magnitude.      *)
EXTENDS Scalars, Json, IOUtils

\* the schemas of all types under test, by name, as the driver declares them
Defs == ndJsonDeserialize(IOEnv.SCHEMAS)[1]

CONSTANTS
  CheckPad,   \* padding bytes must be zero
  RangeCheck, \* ranges outside the 31-bit integers and empty ones panic
  Complete    \* decoding must use the whole input

---------------------------------------------------------------------------
(* Decoding *)

RECURSIVE Def(_)
Def(s) == IF s.k = "ref" THEN Def(Defs[s.n]) ELSE s

EWrong(n, m) == [NoErr EXCEPT !.k = "length", !.x = n, !.y = m, !.z = 2]
ELong(n, m)  == [NoErr EXCEPT !.k = "length", !.x = n, !.y = m, !.z = 1]

Tok(r, v) == Res(r.c, v, 0, <<>>)
Give(r, f(_)) == Then(r, LAMBDA q : Tok(q, f(q.b)))

RECURSIVE D(_, _), DFields(_, _, _), DSeq(_, _, _, _), DFix(_, _, _, _), DLim(_, _, _, _)

D(s, c) ==
  CASE s.k = "unit"   -> Res(c, <<>>, 0, <<>>)
    [] s.k = "bool"   -> Give(TakeBool(c), LAMBDA b : <<IF b[1] = 255 THEN 1 ELSE 0>>)
    [] s.k = "int"    -> Consume(c, s.w)
    [] s.k = "fix"    -> Consume(c, s.n)
    [] s.k = "rint"   -> Then(Consume(c, s.w), LAMBDA r :
                           IF RangeCheck /\ ~Sane(s) THEN Fail(r.c, Err("panic"), <<>>, FALSE)
                           ELSE LET x == OfRaw(s, Ext8(r.b, s.s))
                                IN IF x.ok THEN Tok(r, x.v) ELSE Fail(r.c, x.e, <<>>, FALSE))
    [] s.k = "rfloat" -> Then(Consume(c, 8), LAMBDA r :
                           LET x == InFloat(s, r.b)
                           IN IF x.ok THEN Tok(r, r.b) ELSE Fail(r.c, x.e, <<>>, FALSE))
    [] s.k = "N"      -> Give(SelfTerm(c, 0), NatTokens)
    [] s.k = "Z"      -> Give(SelfTerm(c, 0), IntTokens)
    [] s.k = "bytes"  -> Give(Consume(c, Rem(c)), Prefixed)
    [] s.k = "string" -> Give(Consume(c, Rem(c)), LAMBDA b : Prefixed(Lossy(b)))
    [] s.k = "opt"    -> Then(TakeTag(c, 1, {<<0>>, <<255>>}), LAMBDA r :
                           IF r.b[1] = 0 THEN Tok(r, <<0>>)
                           ELSE Give(D(s.t, r.c), LAMBDA v : <<1>> \o v))
    [] s.k = "null"   -> IF Rem(c) = 0 THEN Res(c, <<0>>, 0, <<>>)
                         ELSE Give(D(s.t, c), LAMBDA v : <<1>> \o v)
    [] s.k = "seq"    -> DSeq(s.t, c, 0, <<>>)
    [] s.k = "lim"    -> DLim(s, c, 0, <<>>)
    [] s.k = "fixseq" -> DFix(s, c, 0, <<>>)
    [] s.k = "struct" -> DFields(s.f, c, <<>>)
    [] s.k = "enum"   -> Give(TakeTag(c, s.w, ToSet(s.tags)), LAMBDA b :
                           <<(CHOOSE i \in 1..Len(s.tags) : s.tags[i] = b) - 1>>)
    [] s.k = "union"  -> Then(TakeTag(c, s.w, ToSet(s.tags)), LAMBDA r :
                           LET i == CHOOSE i \in 1..Len(s.tags) : s.tags[i] = r.b
                           IN DFields(s.v[i], r.c, <<i - 1>>))
    [] s.k = "dyn"    -> Then(ProcessPrefix(c, s.p), LAMBDA r :
                           Then(D(s.t, r.c), LAMBDA q :
                             Then(CloseWindow(q.c), LAMBDA z : Res(z.c, q.b, 0, <<>>))))
    [] s.k = "pad"    -> Then(D(s.t, c), LAMBDA r :
                           Then(Consume(r.c, s.n), LAMBDA q :
                             IF CheckPad /\ q.b # Zeros(s.n)
                             THEN Fail(q.c, [Err("pad") EXCEPT !.b = q.b], <<>>, FALSE)
                             ELSE Res(q.c, r.b, 0, <<>>)))
    [] s.k = "vpad"   -> IF Rem(c) < s.n THEN Fail(c, EConsume(c, s.n), <<>>, FALSE)
                         ELSE Then(OpenWindow(c, Rem(c) - s.n), LAMBDA r :
                                Then(D(s.t, r.c), LAMBDA q :
                                  Then(CloseWindow(q.c), LAMBDA z : Res(z.c, q.b, 0, <<>>))))
    [] s.k = "box"    -> D(s.t, c)
    [] s.k = "ref"    -> D(Defs[s.n], c)

DFields(fs, c, acc) ==
  IF fs = <<>> THEN Res(c, acc, 0, <<>>)
  ELSE Then(D(Head(fs), c), LAMBDA r : DFields(Tail(fs), r.c, acc \o r.b))

\* as many items as fill the view; an item must occupy some bytes
DSeq(t, c, n, acc) ==
  IF Rem(c) = 0 THEN Res(c, <<n>> \o acc, 0, <<>>)
  ELSE Then(D(t, c), LAMBDA r :
         IF Rem(r.c) = Rem(c) THEN Fail(r.c, Err("generic"), <<>>, FALSE)
         ELSE DSeq(t, r.c, n + 1, acc \o r.b))

DLim(s, c, n, acc) ==
  IF Rem(c) = 0 THEN Res(c, <<n>> \o acc, 0, <<>>)
  ELSE Then(D(s.t, c), LAMBDA r :
         IF n = s.n THEN Fail(r.c, ELong(s.n, s.n + 1), <<>>, FALSE)
         ELSE DLim(s, r.c, n + 1, acc \o r.b))

DFix(s, c, n, acc) ==
  IF n = s.n THEN Res(c, <<n>> \o acc, 0, <<>>)
  ELSE IF Rem(c) = 0 THEN Fail(c, EWrong(s.n, n), <<>>, FALSE)
  ELSE Then(D(s.t, c), LAMBDA r : DFix(s, r.c, n + 1, acc \o r.b))

(* decoding a whole input *)
DAll(s, buf) ==
  LET r == D(s, Ctx(buf)) IN
  IF r.ok /\ Complete /\ Rem(r.c) > 0
  THEN Fail(r.c, [Err("nonempty") EXCEPT !.x = Rem(r.c), !.y = 1, !.b = View(r.c)], <<>>, FALSE)
  ELSE r

---------------------------------------------------------------------------
(* Encoding: [ok, can, b, rest] - whether the value may be encoded, whether  *)
(* it can be built at all, its bytes, the tokens after it                    *)

Enc(ok, can, b, rest) == [ok |-> ok, can |-> can, b |-> b, rest |-> rest]
Plain(b, rest) == Enc(TRUE, TRUE, b, rest)
MaxLen(p) == CASE p = 1 -> 255 [] p = 2 -> 65535 [] p = 4 -> MaxU30
InRange(s, n) == (RangeCheck => Sane(s)) /\ SLeq(s.lo, n) /\ SLeq(n, s.hi)

RECURSIVE E(_, _), EFields(_, _, _), EItems(_, _, _, _)

E(s, v) ==
  CASE s.k = "unit"   -> Plain(<<>>, v)
    [] s.k = "bool"   -> Plain(<<IF v[1] = 1 THEN 255 ELSE 0>>, Tail(v))
    [] s.k = "int"    -> Plain(Take(v, s.w), Drop(v, s.w))
    [] s.k = "fix"    -> Plain(Take(v, s.n), Drop(v, s.n))
    [] s.k = "rint"   -> LET n == Take(v, 8)
                         IN Enc(TRUE, InRange(s, n), Drop(ToRaw(s, n), 8 - s.w), Drop(v, 8))
    [] s.k = "rfloat" -> Enc(TRUE, InFloat(s, Take(v, 8)).ok, Take(v, 8), Drop(v, 8))
    [] s.k = "N"      -> Plain(NatBytes(SubSeq(v, 2, v[1] + 1)), Drop(v, v[1] + 1))
    [] s.k = "Z"      -> Plain(IntBytes(v[1], SubSeq(v, 3, v[2] + 2)), Drop(v, v[2] + 2))
    [] s.k = "bytes"  -> Plain(SubSeq(v, 2, v[1] + 1), Drop(v, v[1] + 1))
    [] s.k = "string" -> LET b == SubSeq(v, 2, v[1] + 1)
                         IN Enc(TRUE, ValidUtf8(b), b, Drop(v, v[1] + 1))
    [] s.k = "opt"    -> IF v[1] = 0 THEN Plain(<<0>>, Tail(v))
                         ELSE LET r == E(s.t, Tail(v)) IN [r EXCEPT !.b = <<255>> \o @]
    [] s.k = "null"   -> IF v[1] = 0 THEN Plain(<<>>, Tail(v)) ELSE E(s.t, Tail(v))
    [] s.k = "seq"    -> EItems(s.t, v[1], Tail(v), Plain(<<>>, <<>>))
    [] s.k = "lim"    -> EItems(s.t, v[1], Tail(v), Enc(v[1] <= s.n, v[1] <= s.n, <<>>, <<>>))
    [] s.k = "fixseq" -> EItems(s.t, v[1], Tail(v), Enc(v[1] = s.n, v[1] <= s.n, <<>>, <<>>))
    [] s.k = "struct" -> EFields(s.f, v, Plain(<<>>, <<>>))
    [] s.k = "enum"   -> Plain(s.tags[v[1] + 1], Tail(v))
    [] s.k = "union"  -> EFields(s.v[v[1] + 1], Tail(v), Plain(s.tags[v[1] + 1], <<>>))
    [] s.k = "dyn"    -> LET r == E(s.t, v) IN
                         Enc(r.ok /\ Len(r.b) <= MaxLen(s.p), r.can, BE(Len(r.b), s.p) \o r.b, r.rest)
    [] s.k = "pad"    -> LET r == E(s.t, v) IN [r EXCEPT !.b = @ \o Zeros(s.n)]
    [] s.k \in {"vpad", "box"} -> E(s.t, v)
    [] s.k = "ref"    -> E(Defs[s.n], v)

EFields(fs, v, acc) ==
  IF fs = <<>> THEN [acc EXCEPT !.rest = v]
  ELSE LET r == E(Head(fs), v)
       IN EFields(Tail(fs), r.rest, Enc(acc.ok /\ r.ok, acc.can /\ r.can, acc.b \o r.b, <<>>))

EItems(t, n, v, acc) ==
  IF n = 0 THEN [acc EXCEPT !.rest = v]
  ELSE LET r == E(t, v)
       IN EItems(t, n - 1, r.rest, Enc(acc.ok /\ r.ok, acc.can /\ r.can, acc.b \o r.b, <<>>))

---------------------------------------------------------------------------
(* Shape of schemas *)

\* how the encoding of a value is delimited: "self" - by itself; "view" - by
\* the end of the view; the latter only last in a product
RECURSIVE Greedy(_, _)
Greedy(s, fuel) ==
  IF fuel = 0 THEN FALSE ELSE
  CASE s.k \in {"bytes", "string", "null", "seq", "lim", "vpad"} -> TRUE
    [] s.k \in {"opt", "pad", "box"} -> Greedy(s.t, fuel - 1)
    [] s.k = "fixseq" -> s.n > 0 /\ Greedy(s.t, fuel - 1)
    [] s.k = "struct" -> \E i \in 1..Len(s.f) : Greedy(s.f[i], fuel - 1)
    [] s.k = "union" -> \E i \in 1..Len(s.v) : \E j \in 1..Len(s.v[i]) : Greedy(s.v[i][j], fuel - 1)
    [] s.k = "ref" -> Greedy(Defs[s.n], fuel - 1)
    [] OTHER -> FALSE

\* a type whose values all have one length, that length; otherwise -1
RECURSIVE FixedLen(_, _), FixedSum(_, _)
FixedLen(s, fuel) ==
  IF fuel = 0 THEN -1 ELSE
  CASE s.k = "unit" -> 0
    [] s.k = "bool" -> 1
    [] s.k \in {"int", "rint"} -> s.w
    [] s.k = "rfloat" -> 8
    [] s.k = "fix" -> s.n
    [] s.k = "enum" -> s.w
    [] s.k = "box" -> FixedLen(s.t, fuel)
    [] s.k = "vpad" -> FixedLen(s.t, fuel)
    [] s.k = "fixseq" -> IF s.n = 0 THEN 0
                         ELSE LET x == FixedLen(s.t, fuel) IN IF x < 0 THEN -1 ELSE s.n * x
    [] s.k = "lim" -> IF s.n = 0 THEN 0 ELSE -1
    [] s.k = "pad" -> LET x == FixedLen(s.t, fuel) IN IF x < 0 THEN -1 ELSE x + s.n
    [] s.k = "dyn" -> LET x == FixedLen(s.t, fuel) IN IF x < 0 THEN -1 ELSE x + s.p
    [] s.k = "struct" -> FixedSum(s.f, fuel)
    [] s.k = "ref" -> FixedLen(Defs[s.n], fuel - 1)
    [] OTHER -> -1
FixedSum(fs, fuel) ==
  IF fs = <<>> THEN 0
  ELSE LET x == FixedLen(Head(fs), fuel)
           y == FixedSum(Tail(fs), fuel)
       IN IF x < 0 \/ y < 0 THEN -1 ELSE x + y

\* does decoding need bytes reserved after it (reserved tails at the end)
RECURSIVE Reserve(_, _)
Reserve(s, fuel) ==
  IF fuel = 0 THEN 0 ELSE
  CASE s.k = "vpad" -> s.n + Reserve(s.t, fuel - 1)
    [] s.k \in {"opt", "pad", "box", "null", "seq", "lim", "fixseq"} -> Reserve(s.t, fuel - 1)
    [] s.k = "struct" -> IF s.f = <<>> THEN 0 ELSE Reserve(Last0(s.f), fuel - 1)
    [] s.k = "ref" -> Reserve(Defs[s.n], fuel - 1)
    [] OTHER -> 0
=============================================================================
