------------------------------ MODULE OscTrace -------------------------------
EXTENDS Osc, TLC, Json, IOUtils
LOCAL INSTANCE FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
SameArgs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].g = y[i].g /\ Same(x[i].v, y[i].v)
\* (how a bundle carries an impulse is left free)
SameMsg(x, y, b) == x.a = y.a /\ (SameArgs(x.args, y.args) \/ (b /\ x.a \in DOMAIN snd' /\ snd'[x.a].t = "IMPULSE"))
SamePacket(x, y, b) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameMsg(x[i], y[i], b)
SameSent(x, b) == Len(x) = Len(obs'.sent) /\ \A i \in 1..Len(x) : SamePacket(x[i], obs'.sent[i], b)
\* what each message did, in order; the order among the parameters of one pattern is free
RECURSIVE Count(_), Groups(_, _, _)
Count(gs) == IF gs = <<>> THEN 0 ELSE Cardinality(Head(gs)) + Count(Tail(gs))
In(x, g) == \E y \in g : x.p = y.p /\ Same(x.v, y.v)
Groups(xs, i, gs) ==
  gs = <<>> \/ LET n == Cardinality(Head(gs)) IN
    /\ \A k \in 0..(n - 1) : In(xs[i + k], Head(gs))
    /\ \A k \in 0..(n - 1) : \A m \in 0..(k - 1) : xs[i + k].p # xs[i + m].p
    /\ Groups(xs, i + n, Tail(gs))
SameGroups(xs, gs) == Len(xs) = Count(gs) /\ Groups(xs, 1, gs)
Called == [i \in 1..Len(obs'.got) |-> {x \in obs'.got[i] : x.cb}]
SameUnh == Len(e.unh) = Len(obs'.unh) /\ \A i \in 1..Len(e.unh) : e.unh[i].a = obs'.unh[i].a /\ Same(e.unh[i].v, obs'.unh[i].args[1])
ParsAgree(xs, R, all) ==
  LET live == {i \in 1..Len(xs) : xs[i].live} IN
  /\ \A i \in live : LET n == xs[i].p IN n \in DOMAIN R /\ R[n].live /\ xs[i].t = R[n].t /\ Same(xs[i].v, R[n].v)
  /\ Cardinality(live) = Cardinality({n \in DOMAIN R : R[n].live})
  /\ all => {xs[i].p : i \in 1..Len(xs)} = DOMAIN R /\ Len(xs) = Cardinality(DOMAIN R)
Bundled2 == e.e \in {"bundle", "rawbundle"}
Same0 == /\ SameSent(e.sent, Bundled2) /\ e.back = <<>>
         /\ SameGroups(e.got, obs'.got) /\ SameGroups(e.called, Called) /\ SameUnh
         /\ ParsAgree(e.s, snd', FALSE) /\ ParsAgree(e.r, rcv', TRUE)
         /\ (e.e \in {"push", "pushr", "pushcur"} /\ e.haswr) => SameSent(e.wr, FALSE)
Op ==
  \/ e.e = "new" /\ (IF e.d = "s" THEN NewSnd(e.a, e.t) ELSE NewRcv(e.a, e.t))
  \/ e.e = "node" /\ NewNode(e.a)
  \/ e.e = "attr" /\ (IF e.f = "unit" THEN (IF e.d = "s" THEN AttrS(e.a, "unit", e.x) ELSE AttrR(e.a, "unit", e.x))
                      ELSE IF e.d = "s" THEN AttrS(e.a, e.f, e.x) ELSE AttrR(e.a, e.f, e.x))
  \/ e.e = "listen" /\ Listen(e.a, e.b)
  \/ e.e = "drop" /\ Drop(e.a)
  \/ e.e = "droppar" /\ DropPar(e.a)
  \/ e.e = "rename" /\ Rename(e.a, e.n)
  \/ e.e = "learn" /\ SetLearn(e.b)
  \/ e.e \in {"push", "pushr"} /\ Push(e.a, e.v)
  \/ e.e = "pushcur" /\ PushCurrent(e.a)
  \/ e.e = "raw" /\ Raw(e.a, e.pv, e.v) /\ (e.ok = obs'.ok)
  \/ e.e = "bundle" /\ Bundle(e.as)
  \/ e.e = "rawbundle" /\ RawBundle(e.rs)
  \/ e.e \in {"msg", "msgs", "nested"} /\ Incoming(e.ms)
  \/ e.e = "bad" /\ Malformed
  \/ e.e = "big" /\ e.done /\ e.wok /\ Set([snd EXCEPT ![e.a] = [@ EXCEPT !.v = Zero(@.t), !.prev = V("ANY", 0, "", <<>>)]],
                                          [rcv EXCEPT ![e.a] = [@ EXCEPT !.v = Zero(@.t), !.prev = V("ANY", 0, "", <<>>)]])
TInit == OInit("1.0", FALSE) /\ l = 1
Fresh(v, c) == snd' = <<>> /\ rcv' = <<>> /\ cfg' = [ver |-> v, client |-> c] /\ learn' = FALSE /\ obs' = Quiet
Step ==
  CASE e.e = "Reset" -> Fresh("1.0", FALSE)
    [] e.e = "cfg" -> Fresh(e.ver, e.client)
    [] OTHER -> Op /\ (Same0 = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<ovars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
