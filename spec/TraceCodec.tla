----------------------------- MODULE TraceCodec -----------------------------
(* Validates recorded encodings, decodings and tag queries against Codec.    *)
(* Every line of the log is one record and one step here.                    *)
EXTENDS Layout, Order, Payload, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES i, done
vars == <<i, done>>

R == Trace[i]
\* the schema of a record; frame # 0 puts the type behind a 2-byte prefix
Schema(t) == IF t.frame = 0 THEN Defs[t.t] ELSE [k |-> "dyn", p |-> 2, t |-> Defs[t.t]]

RECURSIVE Joined(_)
Joined(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Joined(Tail(gs))

If(c, w) == IF c THEN {w} ELSE {}

---------------------------------------------------------------------------
(* one decoding, r, by one parser in the context c, when w is expected *)
DecBad(s, c, w, r) ==
  If(r.e.k = "panic" /\ w.e.k # "panic", "panic")
  \cup If(r.ok # w.ok, "ok")
  \cup (IF r.ok /\ w.ok
        THEN If(r.v # w.b, "value")
             \cup LET q == r.p = "slice"
                      off == IF q THEN 0 ELSE w.c.off
                      vl == IF q THEN Rem(w.c) ELSE Lim(w.c)
                  IN If(r.off # off \/ r.rem # Rem(w.c) \/ r.vl # vl, "off")
             \cup If(r.v = w.b /\ r.re # E(s, w.b).b, "re")
             \cup If(\E k \in 1..Len(r.tr) : Joined(r.tr[k]) # Take(c.buf, w.c.off), "trace")
        ELSE {})
  \cup (IF ~r.ok /\ ~w.ok
        THEN If(r.e.k # w.e.k, "kind")
             \cup If(r.e.k = w.e.k /\ ~(ErrPayload(r.p, w.e, r.e) /\ Sourced(r.e)), "payload")
        ELSE {})

(* try_decode and decode *)
TryBad(p, w, r, plain) ==
  If(r.e.k = "panic" /\ w.ok, "panic")
  \cup If(r.e.k = "panic" /\ ~w.ok /\ w.e.k # "panic" /\ ~plain, "panic")
  \cup If(r.ok # w.ok, "try-ok")
  \cup If(r.ok /\ w.ok /\ r.v # w.b, "try-value")
  \cup (IF ~r.ok /\ ~w.ok /\ ~plain
        THEN If(r.e.k # w.e.k, "try-kind")
             \cup If(r.e.k = w.e.k /\ ~(ErrPayload(p, w.e, r.e) /\ Sourced(r.e)), "try-payload")
        ELSE {})

Context(buf, pre, win) ==
  LET c == Adv(Ctx(buf), pre) IN IF win < 0 THEN c ELSE Open(c, win)

ParserOf(k) == <<"byte", "memo", "slice", "byte", "memo">>[k]

DecJudge ==
  LET s == Schema(R)
      c == Context(R.buf, R.pre, R.win)
      w == D(s, c)
      wa == DAll(s, R.buf)
      three == UNION {DecBad(s, c, w, R.p[k]) : k \in 1..3}
      tries == UNION {TryBad(ParserOf(k), wa, R.try[k], k > 3) : k \in 1..Len(R.try)}
      a == R.p[1]
      other == \E k \in 2..3 : LET b == R.p[k] IN
                 \/ a.ok # b.ok \/ a.v # b.v \/ a.e.k # b.e.k \/ a.e.b # b.e.b \/ a.rem # b.rem \/ a.re # b.re
  IN <<three \cup tries \cup If(other, "disagree"), [ok |-> w.ok, v |-> w.b, e |-> w.e, off |-> w.c.off]>>

---------------------------------------------------------------------------
EncJudge ==
  LET s == Schema(R)
      e == E(s, R.v)
      n == Len(e.b)
      OutBad(o) ==
        IF ~e.ok THEN If(o.ok, "refuse")
        ELSE If(~o.ok, "refused")
             \cup If(o.ok /\ o.w # "count"
                     /\ o.b # (IF o.w \in {"append", "to_vec"} THEN <<9, 9>> \o e.b ELSE e.b), "bytes:" \o o.w)
             \cup If(o.ok /\ o.b = e.b /\ o.w \in {"memo", "encmemo"} /\ CutsBad(s, R.v, o.g), "cuts")
             \cup If(o.ok /\ o.n # (IF o.w \in {"append", "to_vec"} THEN 2 + n ELSE n), "count:" \o o.w)
      PrefBad(p) ==
        LET payload == E(s.t, R.v) IN
        If(payload.ok /\ p.ok # (Len(payload.b) <= MaxLen(s.p)), "prefix")
        \cup If(payload.ok /\ p.ok /\ p.b # BE(Len(payload.b), s.p), "prefix")
        \cup If(payload.ok /\ ~p.ok /\ ~(p.e.k = "width" /\ p.e.z = 1 /\ p.e.x = MaxLen(s.p)
                                         /\ p.e.y = Len(payload.b) /\ Says(p.e)), "prefix-payload")
      bad == IF R.built # e.can THEN {"built"}
             ELSE IF ~R.built THEN {}
             ELSE UNION {OutBad(R.outs[k]) : k \in 1..Len(R.outs)}
                  \cup If(e.ok /\ R.len.enc # n, "enc_len")
                  \cup If(e.ok /\ R.len.est # n, "estimate")
                  \cup If(e.ok /\ R.len.unk # n, "unknown")
                  \cup If(e.ok /\ R.len.known # -1 /\ R.len.known # n, "known")
                  \cup If(R.again # R.v, "again")
                  \cup UNION {PrefBad(R.pref[k]) : k \in 1..Len(R.pref)}
  IN <<bad, [ok |-> e.ok, can |-> e.can, b |-> IF n > 60 THEN <<n>> ELSE e.b]>>

---------------------------------------------------------------------------
(* a value encoded by the implementation, with a tail, decoded *)
RtJudge ==
  LET s == Schema(R)
      e == E(s, R.v)
      buf == e.b \o R.tail
      w == D(s, Ctx(buf))
      bad == IF R.some # (e.ok /\ e.can) THEN {"built"}
             ELSE IF ~R.some THEN {}
             ELSE If(R.n # Len(e.b), "length")
                  \cup UNION {DecBad(s, Ctx(buf), w, R.p[k]) : k \in 1..3}
  IN <<bad, [ok |-> w.ok, v |-> w.b, e |-> w.e, off |-> w.c.off]>>

---------------------------------------------------------------------------
TagOf(s, x) == BE(x, s.w)
TagJudge ==
  LET s == Schema(R)
      tags == ToSet(s.tags)
      Q(q) ==
        LET t == TagOf(s, q.x)
            in == t \in tags
            k == CHOOSE j \in 1..Len(s.tags) : s.tags[j] = t
        IN If(q.e.k = "panic", "panic")
           \cup If(q.valid # in, "valid")
           \cup If(q.name # (IF in THEN s.names[k] ELSE "-"), "name")
           \cup (IF q.conv = 0 THEN {}
                 ELSE If(q.ok # in, "convert")
                      \cup If(in /\ q.ok /\ q.b # t, "convert")
                      \cup If(~in /\ ~q.ok /\ ~(q.e.k = "tag" /\ q.e.b = t /\ Set(q.e.s) = tags /\ q.e.y = 1 /\ Says(q.e)),
                              "convert-payload"))
      bad == If([k \in 1..Len(R.tags) |-> TagOf(s, R.tags[k])] # s.tags
                /\ ~(Len(R.tags) = Len(s.tags) /\ {TagOf(s, R.tags[k]) : k \in 1..Len(R.tags)} = tags), "tags")
             \cup UNION {Q(R.q[k]) : k \in 1..Len(R.q)}
             \cup UNION {If(R.vals[k].tag # Nat_(s.tags[R.vals[k].v[1] + 1]), "tagval") : k \in 1..Len(R.vals)}
  IN <<bad, [ok |-> TRUE, tags |-> s.tags]>>

---------------------------------------------------------------------------
\* sizes are recorded up to a thousand million
Cap(n) == IF n > 1000000000 THEN 1000000000 ELSE n
TooLong(e, max, n) == e.k = "width" /\ e.z = 1 /\ e.x = Cap(max) /\ e.y = Cap(n) /\ Says(e)
BigJudge ==
  LET max == MaxLen(R.w)
      fits == R.n <= max
      bad == If(R.r.ok # fits, "refuse")
             \cup (IF fits /\ R.r.ok
                   THEN If(R.r.count # R.n + R.w, "count:big")
                        \cup If(R.r.n # R.n + R.w, "count:big")
                        \cup If(~R.r.zero \/ Take(R.r.head, R.w) # BE(R.n, R.w), "bytes:big")
                   ELSE {})
             \cup If(R.pref.ok # fits, "prefix")
             \cup If(fits /\ R.pref.ok /\ R.pref.b # BE(R.n, R.w), "prefix")
             \cup If(~fits /\ ~R.pref.ok /\ ~TooLong(R.pref.e, max, R.n), "prefix-payload")
  IN <<bad, [ok |-> fits]>>

(* two values, given as such or by bytes that are decoded, compared          *)
Given(s, x) == IF x.k = "v" THEN LET e == E(s, x.v) IN [ok |-> e.can, v |-> x.v]
               ELSE LET w == D(s, Ctx(x.v)) IN [ok |-> w.ok, v |-> w.b]
CmpJudge ==
  LET s == Schema(R)
      a == Given(s, R.a)
      b == Given(s, R.b)
      o == Cmp(s, a.v, b.v).r
      c == R.c
      bad == If(R.some # (a.ok /\ b.ok), "built")
             \cup (IF ~R.some \/ ~(a.ok /\ b.ok) THEN {}
                   ELSE If(c.panic, "panic")
                        \cup If(c.eq # (o = 0) \/ c.ne # (o # 0), "eq")
                        \cup If(c.pc # o \/ c.rev # Flipped(o) \/ c.lt # (o = -1) \/ c.le # (o \in {-1, 0})
                                \/ c.gt # (o = 1) \/ c.ge # (o \in {0, 1}), "order")
                        \cup If(c.cmp # 9 /\ (c.cmp # o \/ c.max # (IF o = 1 THEN a.v ELSE b.v)), "order")
                        \cup If(c.ha # "-" /\ (c.ha # c.ha2 \/ (o = 0 /\ c.ha # c.hb)), "hash")
                        \cup If(c.va # a.v \/ c.vb # b.v, "value")
                        \cup If(c.cl # 9 /\ (c.cl # (IF Cmp(s, a.v, a.v).r = 0 THEN 0 ELSE 2) \/ c.vcl # a.v), "clone"))
  IN <<bad, [ok |-> a.ok /\ b.ok, o |-> IF a.ok /\ b.ok THEN o ELSE 9]>>

(* a pattern many times over, judged by what the specification makes of it a *)
(* few times: everything about a repetition grows evenly                     *)
PumpInput(m) ==
  LET body == Concat([k \in 1..m |-> R.pat])
  IN BE(Len(body) + R.lie, R.w) \o body \o R.tail
PumpCtx(m) ==
  LET c == Ctx(PumpInput(m)) IN IF R.win = 1 THEN Open(c, R.w + m * Len(R.pat)) ELSE c
RECURSIVE Core(_)
Core(s) == IF s.k \in {"box", "vpad", "dyn"} THEN Core(s.t) ELSE IF s.k = "ref" THEN Core(Defs[s.n]) ELSE s
PumpJudge ==
  LET s == Schema(R)
      c0 == PumpCtx(R.m)
      c1 == PumpCtx(R.m + 1)
      w0 == D(s, c0)
      w1 == D(s, c1)
      a0 == DAll(s, c0.buf)
      Grow(x, y) == x + (R.n - R.m) * (y - x)
      counts == Core(s).k \notin {"N", "Z"}
      count == Grow(w0.b[1], w1.b[1])
      len == Len(R.pat) * R.n + R.w + Len(R.tail)
      off == Grow(w0.c.off, w1.c.off)
      lim == IF R.win = 1 THEN len - Len(R.tail) ELSE len
      whole == E(s, w0.b).b = Take(c0.buf, w0.c.off)
      Bad(q, r) ==
        If(r.e.k = "panic", "panic")
        \cup If(r.ok # w0.ok, "ok")
        \cup (IF r.ok /\ w0.ok
              THEN If(counts /\ r.cnt # count, "value")
                   \cup If(r.same # whole, "re")
                   \cup If(r.off # (IF q = 3 THEN 0 ELSE off) \/ r.rem # lim - off \/ r.vl # (IF q = 3 THEN lim - off ELSE lim), "off")
              ELSE {})
        \cup (IF ~r.ok /\ ~w0.ok
              THEN If(r.e.k # w0.e.k, "kind")
                   \cup If(q < 3 /\ r.e.k = w0.e.k /\ r.e.k \in {"consume", "residue", "length"}
                           /\ \E x \in {"x", "y", "z"} : r.e[x] # Grow(w0.e[x], w1.e[x]), "payload")
              ELSE {})
      Try(r, plain) ==
        If(r.k = "panic" /\ (a0.ok \/ ~plain), "panic")
        \cup If(r.ok # a0.ok, "try-ok")
        \cup If(r.ok /\ a0.ok /\ counts /\ r.cnt # count, "try-value")
        \cup If(~r.ok /\ ~a0.ok /\ ~plain /\ r.k # a0.e.k, "try-kind")
      bad == UNION {Bad(k, R.p[k]) : k \in 1..3} \cup UNION {Try(R.try[k], k > 3) : k \in 1..Len(R.try)}
             \cup If(\E k \in 2..3 : R.p[k].ok # R.p[1].ok \/ R.p[k].e.k # R.p[1].e.k \/ R.p[k].rem # R.p[1].rem, "disagree")
  IN <<bad, [ok |-> w0.ok, e |-> w0.e, off |-> off]>>

(* decodings of several types and window operations in turn on one parser;   *)
(* what a parser consumes in a decoding that fails is not prescribed, but    *)
(* the parsers must agree on it                                              *)
Step(t, c) == Do([op |-> t.o, n |-> IF t.o \in {"open", "take", "skip"} THEN t.n ELSE 0, m |-> 0, k |-> <<>>, s |-> {}], c)
StepBad(t, c, w, r) ==
  LET q == r.p = "slice" IN
  If(r.e.k = "panic", "panic")
  \cup If(r.ok # w.ok, "step:ok")
  \cup If(r.ok /\ w.ok /\ (r.n # w.n \/ (t.o = "take" /\ r.re # w.b)), "step:result")
  \cup If(~r.ok /\ ~w.ok /\ r.e.k # w.e.k, "kind")
  \cup If(~r.ok /\ ~w.ok /\ r.e.k = w.e.k /\ ~(ErrPayload(r.p, w.e, r.e) /\ Sourced(r.e)), "payload")
  \cup If(r.rem # Rem(w.c) \/ r.off # (IF q THEN 0 ELSE w.c.off) \/ r.vl # (IF q THEN Rem(w.c) ELSE Lim(w.c)), "step:off")
RECURSIVE MixBad(_, _, _)
MixBad(h, j, c) ==
  IF j > Len(R.steps)
  THEN LeftBad(c, h.left)
       \cup If(h.p = "memo" /\ (Len(h.tr) # 1 \/ Joined(h.tr[1]) # Take(c.buf, c.off)), "trace")
  ELSE LET t == R.steps[j]
           r == h.steps[j]
           w == IF t.o = "dec" THEN D(Defs[t.t], c) ELSE Step(t, c)
           bad == IF t.o = "dec" THEN DecBad(Defs[t.t], c, w, r) ELSE StepBad(t, c, w, r)
       IN IF bad # {} \/ (t.o = "dec" /\ ~w.ok) THEN bad ELSE MixBad(h, j + 1, w.c)
MixJudge ==
  LET one == UNION {MixBad(R.p[k], 1, Ctx(R.buf)) : k \in 1..3}
      a == R.p[1]
      same(b) == /\ Len(a.steps) = Len(b.steps)
                 /\ a.left = b.left
                 /\ \A j \in 1..Len(a.steps) :
                      LET x == a.steps[j] y == b.steps[j] IN
                      x.ok = y.ok /\ x.v = y.v /\ x.re = y.re /\ x.n = y.n /\ x.e.k = y.e.k /\ x.rem = y.rem
  IN <<one \cup If(~same(R.p[2]) \/ ~same(R.p[3]), "disagree"), [ok |-> TRUE]>>

---------------------------------------------------------------------------
Judge == CASE R.op = "dec" -> DecJudge
           [] R.op = "enc" -> EncJudge
           [] R.op = "rt"  -> RtJudge
           [] R.op = "tagq" -> TagJudge
           [] R.op = "big" -> BigJudge
           [] R.op = "mix" -> MixJudge
           [] R.op = "pump" -> PumpJudge
           [] R.op = "cmp" -> CmpJudge

Init == i \in 1..N /\ done = FALSE
Check == /\ ~done
         /\ LET j == Judge IN
            IF j[1] = {} THEN TRUE
            ELSE PrintT("BAD " \o ToJson([sess |-> i, op |-> R.op, fields |-> j[1], want |-> j[2]]))
         /\ done' = TRUE
         /\ UNCHANGED i
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
