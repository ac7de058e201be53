------------------------------- MODULE Order -------------------------------
(* How values compare: numbers by what they denote, sequences and products   *)
(* lexicographically, nothing before something, alternatives in the order of *)
(* their declaration; wrappers as what they wrap.                            *)
EXTENDS Codec

\* -1, 0, 1, or 2 when the values cannot be compared; and what follows them
Ord(r, a, b) == [r |-> r, a |-> a, b |-> b]
Sign(less, eq) == IF eq THEN 0 ELSE IF less THEN -1 ELSE 1
\* unsigned, of any lengths without leading zeros
MagLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))
Mags2(a, b) == LET x == Strip(a) y == Strip(b) IN Sign(MagLess(x, y), x = y)
\* byte strings: a prefix comes before what it begins
RECURSIVE StrCmp(_, _)
StrCmp(a, b) == IF a = <<>> \/ b = <<>> THEN Sign(Len(a) < Len(b), Len(a) = Len(b))
                ELSE IF Head(a) # Head(b) THEN Sign(Head(a) < Head(b), FALSE)
                ELSE StrCmp(Tail(a), Tail(b))
FCmp(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN 2
              ELSE Sign(~LexLeq(FKey(b), FKey(a)), FKey(a) = FKey(b))
ICmp(s, a, b) == CASE s.o = "u" -> Sign(LexLess(a, b), a = b)
                   [] s.o = "i" -> Sign(LexLess(Flip(a), Flip(b)), a = b)
                   [] s.o = "f" -> FCmp(a, b)
\* sign: 0, 1 positive, 2 negative
ZCmp(sa, ma, sb, mb) ==
  LET k == <<0, 1, -1>> IN
  IF sa # sb THEN Sign(k[sa + 1] < k[sb + 1], FALSE)
  ELSE IF sa = 2 THEN Mags2(mb, ma) ELSE Mags2(ma, mb)

RECURSIVE Cmp(_, _, _), CmpF(_, _, _), CmpI(_, _, _, _, _)
Part(a) == SubSeq(a, 2, a[1] + 1)
Rest(a) == Drop(a, a[1] + 1)
Cmp(s, a, b) ==
  CASE s.k = "unit"   -> Ord(0, a, b)
    [] s.k = "bool"   -> Ord(Sign(a[1] < b[1], a[1] = b[1]), Tail(a), Tail(b))
    [] s.k = "int"    -> Ord(ICmp(s, Take(a, s.w), Take(b, s.w)), Drop(a, s.w), Drop(b, s.w))
    [] s.k = "fix"    -> Ord(StrCmp(Take(a, s.n), Take(b, s.n)), Drop(a, s.n), Drop(b, s.n))
    [] s.k = "rint"   -> LET x == Take(a, 8) y == Take(b, 8) IN Ord(Sign(SLess(x, y), x = y), Drop(a, 8), Drop(b, 8))
    [] s.k = "rfloat" -> Ord(FCmp(Take(a, 8), Take(b, 8)), Drop(a, 8), Drop(b, 8))
    [] s.k = "N"      -> Ord(Mags2(Part(a), Part(b)), Rest(a), Rest(b))
    [] s.k = "Z"      -> Ord(ZCmp(a[1], Part(Tail(a)), b[1], Part(Tail(b))), Rest(Tail(a)), Rest(Tail(b)))
    [] s.k \in {"bytes", "string"} -> Ord(StrCmp(Part(a), Part(b)), Rest(a), Rest(b))
    \* what follows does not matter once the order is settled
    [] s.k \in {"opt", "null"} -> IF a[1] # b[1] THEN Ord(Sign(a[1] < b[1], FALSE), <<>>, <<>>)
                                  ELSE IF a[1] = 0 THEN Ord(0, Tail(a), Tail(b))
                                  ELSE Cmp(s.t, Tail(a), Tail(b))
    [] s.k \in {"seq", "lim", "fixseq"} -> CmpI(s.t, a[1], Tail(a), b[1], Tail(b))
    [] s.k = "struct" -> CmpF(s.f, a, b)
    [] s.k = "enum"   -> LET x == s.tags[a[1] + 1] y == s.tags[b[1] + 1]
                         IN Ord(Sign(LexLess(x, y), x = y), Tail(a), Tail(b))
    [] s.k = "union"  -> IF a[1] # b[1] THEN Ord(Sign(a[1] < b[1], FALSE), <<>>, <<>>)
                         ELSE CmpF(s.v[a[1] + 1], Tail(a), Tail(b))
    [] s.k \in {"dyn", "pad", "vpad", "box"} -> Cmp(s.t, a, b)
    [] s.k = "ref"    -> Cmp(Defs[s.n], a, b)
CmpF(fs, a, b) ==
  IF fs = <<>> THEN Ord(0, a, b)
  ELSE LET r == Cmp(Head(fs), a, b) IN IF r.r # 0 THEN r ELSE CmpF(Tail(fs), r.a, r.b)
CmpI(t, n, a, m, b) ==
  IF n = 0 \/ m = 0 THEN Ord(Sign(n < m, n = m), a, b)
  ELSE LET r == Cmp(t, a, b) IN IF r.r # 0 THEN r ELSE CmpI(t, n - 1, r.a, m - 1, r.b)

Flipped(r) == IF r = 2 THEN 2 ELSE -r
=============================================================================
