----------------------------- MODULE Containers -----------------------------
(* Growable containers, wrappers around one value, fixed-width containers.   *)
EXTENDS Bytes

Sign(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
\* the first place in lo..hi where a and b differ; they do differ there
RECURSIVE Differ(_, _, _, _)
Differ(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF SubSeq(a, lo, m) = SubSeq(b, lo, m) THEN Differ(a, b, m + 1, hi) ELSE Differ(a, b, lo, m)
\* in the order of a dictionary
Cmp(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
  IN IF SubSeq(a, 1, n) = SubSeq(b, 1, n) THEN Sign(Len(a), Len(b))
     ELSE LET i == Differ(a, b, 1, n) IN Sign(a[i], b[i])

ListDo(s, o) ==
  LET R(ok, t, g) == [ok |-> ok, s |-> IF ok THEN t ELSE s, o |-> IF ok THEN g ELSE <<>>]
      n == Len(s)
      Range_(i, j) == IF i <= j /\ j <= n THEN R(TRUE, s, SubSeq(s, i + 1, j)) ELSE R(FALSE, s, <<>>)
  IN CASE o.op = "load" -> R(TRUE, o.b, <<>>)
       [] o.op = "extend" -> R(TRUE, s \o o.b, <<>>)
       [] o.op = "set" -> IF o.i < n THEN R(TRUE, [s EXCEPT ![o.i + 1] = o.b[1]], <<>>) ELSE R(FALSE, s, <<>>)
       [] o.op = "reverse" -> R(TRUE, [k \in 1..n |-> s[n + 1 - k]], <<>>)
       [] o.op = "pop" -> R(TRUE, IF n = 0 THEN s ELSE Front0(s), <<>>)
       [] o.op = "take" -> R(TRUE, <<>>, s)
       [] o.op = "range" ->
            CASE o.v = "index" -> Range_(o.i, o.i + 1)
              [] o.v = "to" -> Range_(0, o.j)
              [] o.v = "from" -> Range_(o.i, n)
              [] o.v = "incl" -> Range_(o.i, o.j + 1)
              [] o.v = "all" -> Range_(0, n)
              [] OTHER -> Range_(o.i, o.j)
       [] o.op = "cmp" -> R(TRUE, s, <<>>)

\* a comparison of equal contents
CmpBad(r, eq, c) == r.eq # eq \/ r.cmp # c \/ r.pcmp # c \/ (eq /\ ~r.hash)

(* A parser's buffer: reading it never changes it, cutting it leaves the rest. *)
BufDo(s, o) ==
  LET n == Len(s)
      R(ok, t, g) == [ok |-> ok, s |-> IF ok THEN t ELSE s, o |-> IF ok THEN g ELSE <<>>]
  IN CASE o.op = "make" -> R(TRUE, o.b, <<>>)
       [] o.op = "cut" -> IF n = 0 THEN R(TRUE, s, <<>>) ELSE R(TRUE, Tail(s), <<Head(s)>>)
       \* a negative size counts down from the largest one
       [] o.op = "split" -> IF o.n < 0 \/ o.n > n THEN R(FALSE, s, <<>>)
                            ELSE IF o.v = "head" THEN R(TRUE, Take(s, o.n), Drop(s, o.n))
                            ELSE R(TRUE, Drop(s, o.n), Take(s, o.n))
       [] o.op = "take" -> IF o.n < 0 \/ o.n > n THEN R(FALSE, s, <<>>) ELSE R(TRUE, Drop(s, o.n), Take(s, o.n))
       [] o.op = "get" -> IF o.n < 0 \/ o.m < 0 \/ o.n > n \/ o.m > n - o.n THEN R(FALSE, s, <<>>)
                          ELSE R(TRUE, s, SubSeq(s, o.n + 1, o.n + o.m))
       [] o.op = "byte" -> IF o.n < 0 \/ o.n >= n THEN R(FALSE, s, <<>>) ELSE R(TRUE, s, <<s[o.n + 1]>>)
       [] o.op \in {"clone", "cmp"} -> R(TRUE, s, <<>>)

\* "[1, 2]"
RECURSIVE Listed(_)
Listed(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o ", " \o Listed(Tail(s))

CellDebug(ty, x) == LET t(w) == "[2" \o w \o " bytes|" \o ToString(x) \o "]"
                    IN CASE ty = "dyn8" -> t("u8") [] ty = "dyn16" -> t("u16") [] ty = "dyn30" -> t("u30") [] OTHER -> ""
CellDo(x, o) == IF o.op \in {"make", "set"} THEN o.x ELSE x
CellSize(ty, x) == CASE ty \in {"dyn8", "dyn16", "dyn30"} -> <<2>>
                     [] ty = "pad" -> <<3, 3, 0>>
                     [] ty = "null" -> <<IF x < 0 THEN 0 ELSE 1>>
                     [] OTHER -> <<0>>
=============================================================================
