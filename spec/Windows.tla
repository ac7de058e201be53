------------------------------ MODULE Windows ------------------------------
(* The parser: a cursor into an immutable buffer and a stack of context      *)
(* windows.  Everything the crate's three parsers do is defined from the     *)
(* primitives of this module.                                                *)
(*                                                                           *)
(* A context c is a record: buf - the bytes; off - how many are consumed;    *)
(* fr - the absolute end positions of the open windows, outermost first.     *)
EXTENDS Bytes

Ctx(buf) == [buf |-> buf, off |-> 0, fr |-> <<>>]

Lim(c) == IF c.fr = <<>> THEN Len(c.buf) ELSE Last0(c.fr)
Rem(c) == Lim(c) - c.off
Depth(c) == Len(c.fr)
Peek(c, n) == SubSeq(c.buf, c.off + 1, c.off + n)
View(c) == SubSeq(c.buf, c.off + 1, Lim(c))
Adv(c, n) == [c EXCEPT !.off = @ + n]
Open(c, n) == [c EXCEPT !.fr = Append(@, c.off + n)]
Close(c) == [c EXCEPT !.fr = Front0(@)]
CanClose(c) == c.fr # <<>> /\ Rem(c) = 0

(* well-formedness: windows are nested and never behind the cursor *)
Nested(c) ==
  /\ c.off \in 0..Len(c.buf)
  /\ \A i \in 1..Len(c.fr) : c.fr[i] >= c.off /\ c.fr[i] <= Len(c.buf)
  /\ \A i \in 1..(Len(c.fr) - 1) : c.fr[i + 1] <= c.fr[i]

---------------------------------------------------------------------------
(* Results.  b - bytes delivered; n - number delivered; e - the error;       *)
(* g - the byte groups taken (their lengths, in order); pf - whether a       *)
(* primitive consume failed.                                                 *)

NoErr == [k |-> "-", x |-> 0, y |-> 0, z |-> 0, b |-> <<>>, s |-> <<>>]
Err(k) == [NoErr EXCEPT !.k = k]

Res(c, b, n, g) == [ok |-> TRUE, c |-> c, b |-> b, n |-> n, e |-> NoErr, g |-> g, pf |-> FALSE]
Fail(c, e, g, pf) == [ok |-> FALSE, c |-> c, b |-> <<>>, n |-> 0, e |-> e, g |-> g, pf |-> pf]

(* the state in which a rejected consume of n bytes was attempted *)
EConsume(c, n) == [NoErr EXCEPT !.k = "consume", !.x = c.off, !.y = n, !.z = Lim(c)]
EOpen(c, n)    == [NoErr EXCEPT !.k = "open", !.x = Rem(c), !.y = n, !.z = Len(c.buf) - c.off]
EResidue(c)    == [NoErr EXCEPT !.k = "residue", !.x = Rem(c)]
ENoWindow      == Err("nowindow")

---------------------------------------------------------------------------
(* Primitives *)

Consume(c, n) == IF n <= Rem(c) THEN Res(Adv(c, n), Peek(c, n), n, <<n>>)
                 ELSE Fail(c, EConsume(c, n), <<>>, TRUE)

Skip(c, n) == LET d == IF n <= Rem(c) THEN n ELSE Rem(c)
              IN Res(Adv(c, d), <<>>, d, <<d>>)

SkipExactly(c, n) == IF n <= Rem(c) THEN Res(Adv(c, n), <<>>, 0, <<n>>)
                     ELSE Fail(c, EConsume(c, n), <<>>, TRUE)

OpenWindow(c, n) == IF n <= Rem(c) THEN Res(Open(c, n), <<>>, 0, <<>>)
                    ELSE Fail(c, EOpen(c, n), <<>>, FALSE)

TestWindow(c) == Res(c, <<>>, IF CanClose(c) THEN 1 ELSE 0, <<>>)

CloseWindow(c) == IF c.fr = <<>> THEN Fail(c, ENoWindow, <<>>, FALSE)
                  ELSE IF Rem(c) # 0 THEN Fail(c, EResidue(c), <<>>, FALSE)
                  ELSE Res(Close(c), <<>>, 0, <<>>)

---------------------------------------------------------------------------
(* Compound operations, defined from the primitives *)

\* r followed by f(r) if r succeeded; groups accumulate
Then(r, f(_)) ==
  IF ~r.ok THEN r
  ELSE LET q == f(r) IN [q EXCEPT !.g = r.g \o q.g]

(* take_bool: one byte, which must be 00 or ff *)
TakeBool(c) ==
  Then(Consume(c, 1), LAMBDA r :
    IF r.b[1] \in {0, 255} THEN Res(r.c, r.b, 0, <<>>)
    ELSE Fail(r.c, [Err("bool") EXCEPT !.x = r.b[1]], <<>>, FALSE))

(* take_tagword over w bytes; tags is a set of big-endian byte sequences *)
TakeTag(c, w, tags) ==
  Then(Consume(c, w), LAMBDA r :
    IF r.b \in tags THEN Res(r.c, r.b, 0, <<>>)
    ELSE IF tags = {} THEN Fail(r.c, Err("notags"), <<>>, FALSE)
    ELSE Fail(r.c, [Err("tag") EXCEPT !.x = w, !.b = r.b, !.s = tags], <<>>, FALSE))

(* terminating bytes of take_self_terminating, by kind of predicate *)
Terminal(kind, byte) ==
  CASE kind = 0 -> byte < 128
    [] kind = 1 -> byte = 0
    [] kind = 2 -> byte % 2 = 1
    [] kind = 3 -> FALSE
    [] OTHER -> TRUE

SelfTerm(c, kind) ==
  LET v == View(c)
      stops == {i \in 1..Len(v) : Terminal(kind, v[i])}
      i0 == IF stops = {} THEN 0 ELSE CHOOSE i \in stops : \A j \in stops : i <= j
      ones(k) == [i \in 1..k |-> 1]
  IN IF i0 = 0
     THEN Fail(Adv(c, Len(v)), [Err("nonterm") EXCEPT !.b = v], ones(Len(v)), TRUE)
     ELSE Res(Adv(c, i0), Take(v, i0), i0, ones(i0))

(* a length prefix of w bytes; w = 4 is the 30-bit unsigned integer *)
MaxU30 == 1073741823
Prefix(c, w) ==
  Then(Consume(c, w), LAMBDA r :
    IF w = 4 /\ ~IsSmall(r.b)
    THEN Fail(r.c, [Err("irange") EXCEPT !.b = r.b], <<>>, FALSE)
    ELSE Res(r.c, <<>>, SmallNat(r.b), <<>>))

ProcessPrefix(c, w) ==
  Then(Prefix(c, w), LAMBDA r :
    Then(OpenWindow(r.c, r.n), LAMBDA q : Res(q.c, <<>>, r.n, <<>>)))

SkipDynamic(c, w) ==
  Then(ProcessPrefix(c, w), LAMBDA r :
    Then(SkipExactly(r.c, r.n), LAMBDA q :
      Then(CloseWindow(q.c), LAMBDA z : Res(z.c, <<>>, r.n, <<>>))))

(* fast_kv_search: entries of m-byte keys and n-byte values *)
RECURSIVE KvSearch(_, _, _, _)
KvSearch(c, key, m, n) ==
  IF Rem(c) = 0 THEN Res(c, <<>>, 0, <<>>)
  ELSE Then(Consume(c, m), LAMBDA r :
    IF r.b = key
    THEN Then(Consume(r.c, n), LAMBDA q : Res(q.c, q.b, 1, <<>>))
    ELSE Then(SkipExactly(r.c, n), LAMBDA q : KvSearch(q.c, key, m, n)))

(* A parser is an iterator over the bytes of its window, with the adaptors   *)
(* any iterator has: reading single bytes, as often as they need.            *)
Singles(k) == [i \in 1..k |-> 1]
Nth(c, n) == IF n < Rem(c) THEN Res(Adv(c, n + 1), SubSeq(c.buf, c.off + n + 1, c.off + n + 1), 1, Singles(n + 1))
             ELSE Fail(Adv(c, Rem(c)), NoErr, Singles(Rem(c)), TRUE)
Gather(c, n) == LET d == IF n <= Rem(c) THEN n ELSE Rem(c) IN Res(Adv(c, d), Peek(c, d), d, Singles(d))

(* what is left over when the parser is discarded: the unread bytes, split   *)
(* at the ends of the open windows, innermost first                          *)
Leftover(c) ==
  LET k == Len(c.fr)
      ends == [i \in 1..k |-> c.fr[k + 1 - i]] \o <<Len(c.buf)>>
      seg(i) == SubSeq(c.buf, (IF i = 1 THEN c.off ELSE ends[i - 1]) + 1, ends[i])
  IN [i \in 1..(k + 1) |-> seg(i)]

---------------------------------------------------------------------------
(* The operations of a parser as one dispatch.  An operation is a record     *)
(* [op, n, m, k, s]: its name, its size or width argument, a second width, a *)
(* key and a set of tags.                                                    *)

Do(o, c) ==
  CASE o.op = "take"     -> Consume(c, o.n)
    [] o.op = "next"     -> Consume(c, 1)
    [] o.op = "nth"      -> Nth(c, o.n)
    [] o.op = "last"     -> IF Rem(c) = 0 THEN Fail(c, NoErr, <<>>, TRUE) ELSE Nth(c, Rem(c) - 1)
    [] o.op = "gather"   -> Gather(c, o.n)
    [] o.op = "count"    -> Res(Adv(c, Rem(c)), <<>>, Rem(c), Singles(Rem(c)))
    [] o.op = "bool"     -> Then(TakeBool(c), LAMBDA r :
                              Res(r.c, <<>>, IF r.b[1] = 255 THEN 1 ELSE 0, <<>>))
    [] o.op = "tag"      -> TakeTag(c, o.n, o.s)
    [] o.op = "selfterm" -> SelfTerm(c, o.n)
    [] o.op = "skip"     -> Skip(c, o.n)
    [] o.op = "skipx"    -> SkipExactly(c, o.n)
    [] o.op = "open"     -> OpenWindow(c, o.n)
    [] o.op = "test"     -> TestWindow(c)
    [] o.op = "close"    -> CloseWindow(c)
    [] o.op = "prefix"   -> ProcessPrefix(c, o.n)
    [] o.op = "skipdyn"  -> SkipDynamic(c, o.n)
    [] o.op = "kv"       -> KvSearch(c, o.k, o.m, o.n)
    [] OTHER             -> Res(c, <<>>, 0, <<>>)      \* dump, info

(* operations that fail without any effect on the state *)
Primitive == {"take", "next", "skip", "skipx", "open", "test", "close", "dump", "info"}
=============================================================================
