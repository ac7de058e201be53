------------------------------ MODULE Segments ------------------------------
(* A segmented byte store: the bytes, the lengths of the closed segments and *)
(* the length of the open one (ac, or -1 when none is open).                 *)
(* An append opens a segment when none is open, even when it appends nothing.*)
EXTENDS Bytes

SNew == [b |-> <<>>, st |-> <<>>, ac |-> -1]
SLoad(b) == [b |-> b, st |-> <<>>, ac |-> Len(b)]
SSplit(s) == IF s.ac < 0 THEN s ELSE [s EXCEPT !.st = Append(@, s.ac), !.ac = -1]
SForce(s) == [s EXCEPT !.st = Append(@, IF s.ac < 0 THEN 0 ELSE s.ac), !.ac = -1]
SCleave(s) == SForce(SSplit(s))
SApp(s, b) == [s EXCEPT !.b = @ \o b, !.ac = (IF @ < 0 THEN 0 ELSE @) + Len(b)]
SConcat(a, o) == [b |-> a.b \o o.b, st |-> SSplit(a).st \o o.st, ac |-> o.ac]
RECURSIVE SExtend(_, _)
SExtend(s, bs) == IF bs = <<>> THEN SSplit(s) ELSE SExtend(SApp(SSplit(s), Head(bs)), Tail(bs))

Spans(s) == s.st \o (IF s.ac < 0 THEN <<>> ELSE <<s.ac>>)
RECURSIVE CutBy(_, _)
CutBy(b, ls) == IF ls = <<>> THEN <<>>
                ELSE <<Take(b, Head(ls))>> \o CutBy(Drop(b, Head(ls)), Tail(ls))
Segs(s) == CutBy(s.b, Spans(s))

\* taken alternately from the front and the back
RECURSIVE Alternate(_, _)
Alternate(g, front) == IF g = <<>> THEN <<>>
                       ELSE IF front THEN <<Head(g)>> \o Alternate(Tail(g), FALSE)
                       ELSE <<Last0(g)>> \o Alternate(Front0(g), TRUE)

(* Two stores, x[1] and x[2]; an operation works on the one at o.w *)
SegDo(x, o) ==
  LET i == o.w + 1
      s == x[i]
      Put(y) == [x EXCEPT ![i] = y]
  IN CASE o.op = "new"     -> Put(SNew)
       [] o.op = "load"    -> Put(SLoad(o.b))
       [] o.op = "split"   -> Put(SSplit(s))
       [] o.op = "force"   -> Put(SForce(s))
       [] o.op = "cleave"  -> Put(SCleave(s))
       [] o.op \in {"push", "ext"} -> Put(SApp(s, o.b))
       [] o.op = "concat"  -> [[x EXCEPT ![i] = SConcat(s, x[3 - i])] EXCEPT ![3 - i] = SNew]
       [] o.op = "extend"  -> Put(SExtend(s, o.bs))
       [] o.op = "collect" -> Put(SExtend(SNew, o.bs))
       [] o.op = "clone"   -> Put(x[3 - i])
       [] o.op = "swap"    -> <<x[2], x[1]>>

(* Two reports of leftovers: nothing, bytes, or bytes by window *)
LNew == [k |-> "empty", s |-> SNew]
LeftDo(x, o) ==
  LET i == o.w + 1
      l == x[i]
      Put(y) == [x EXCEPT ![i] = y]
      Win(s) == [k |-> "windowed", s |-> s]
      Flat(b) == [k |-> "flat", s |-> SLoad(b)]
  IN CASE o.op = "new"      -> Put(LNew)
       [] o.op = "flat"     -> Put(Flat(o.b))
       [] o.op = "windowed" -> Put(Win(SLoad(o.b)))
       [] o.op = "append"   -> Put(IF l.k = "windowed" THEN Win(SApp(l.s, o.b)) ELSE Flat(l.s.b \o o.b))
       [] o.op = "escape"   -> Put(Win(SForce(l.s)))
       [] o.op = "clone"    -> Put(x[3 - i])
       [] o.op = "swap"     -> <<x[2], x[1]>>
LeftSegs(l) == IF l.k = "empty" THEN <<>> ELSE IF l.k = "flat" THEN <<l.s.b>> ELSE Segs(l.s)
\* no bytes and no window: empty or not, the report says the same
LeftSame(a, b) == a = b \/ (a.k # "windowed" /\ b.k # "windowed" /\ a.s.b = <<>> /\ b.s.b = <<>>)

(* The output targets: one history of writes, boundary marks and hints *)
TgtDo(s, o) ==
  CASE o.op = "create" -> SNew
    [] o.op = "load"   -> SLoad(o.b)
    [] o.op = "put"    -> SApp(s, o.b)
    [] o.op = "mark"   -> SSplit(s)
    [] o.op = "hint"   -> s
TgtCount(o) == IF o.op = "put" THEN Len(o.b) ELSE 0
=============================================================================
