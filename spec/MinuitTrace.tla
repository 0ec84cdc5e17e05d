----------------------------- MODULE MinuitTrace -----------------------------
EXTENDS Minuit, Json, IOUtils
LOCAL INSTANCE FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, clean   \* clean: since the mirror began to read the namespace, only values were pushed on the server
e == Trace[l]
SameArgs(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].g = y[i].g /\ Same(x[i].v, y[i].v)
SameMsg(x, y) == x.a = y.a /\ SameArgs(x.args, y.args)
SameList(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameMsg(x[i], y[i])
RECURSIVE Cat(_)
Cat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Cat(Tail(ps))
Left(i) == IF i = 1 THEN Cat(e.toS) ELSE Cat(e.toM)
\* the requests that follow an answer may leave in any order, but the type and the dataspace are asked for first
Text(m) == IF m.args # <<>> /\ m.args[1].g = "s" THEN m.args[1].v.s ELSE ""
IsGet(m) == m.a = "mir?get" \/ m.a = "srv?get"
Before(a, b) == LET k == Find(a, ":", 1)  n == Find(b, ":", 1) IN
  k # 0 /\ n # 0 /\ SubSeq(a, 1, k) = SubSeq(b, 1, n) /\ First(Sub(a, k + 1)) /\ ~First(Sub(b, n + 1))
AnyOrder(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : \E k \in 1..Len(y) : SameMsg(x[i], y[k])
  /\ \A k \in 1..Len(y) : \E i \in 1..Len(x) : SameMsg(x[i], y[k])
  /\ \A i \in 1..Len(x) : \A k \in 1..(i - 1) : IsGet(x[i]) /\ IsGet(x[k]) => ~Before(Text(x[i]), Text(x[k]))
Got(i, r, w) == /\ (AnyOrder(Left(3 - i), r.out) = TRUE)
                /\ (Left(i) = <<>>)
                /\ Take(i, [d |-> r.d, out |-> Left(3 - i)], w)
Arrives(i) == way[i] # <<>> /\ LET r == TLCEval(Handle(i, Dv[i], Head(way[i]))) IN Got(i, r, [way EXCEPT ![i] = Tail(@)])
Raw2(i) == LET r == TLCEval(Handle(i, Dv[i], e.msg)) IN Got(i, r, way)
\* what left in this step is what the queues have gained
Gained(i) == LET n == Len(way'[i]) - Len(way[i]) IN n >= 0 /\ SameList(Left(i), SubSeq(way'[i], Len(way[i]) + 1, Len(way'[i])))
Strict == Gained(1) /\ Gained(2)
Agrees1(x, y) ==
  /\ x.t = y.t /\ Same(x.v, y.v) /\ x.lo = Lim(y, FALSE) /\ x.hi = Lim(y, TRUE) /\ x.bm = y.bm /\ x.acc = y.acc
  /\ x.rep = y.rep /\ x.ds = y.ds /\ x.un = y.un /\ x.prio = Prio(y)
TreeIs(xs, T) ==
  /\ Len(xs) = Cardinality(DOMAIN T)
  /\ \A i \in 1..Len(xs) : xs[i].p \in DOMAIN T /\ xs[i].live = T[xs[i].p].live /\ (xs[i].live => Agrees1(xs[i], T[xs[i].p]))
Seen == /\ TreeIs(e.m, Dv'[2].T) /\ (e.full => TreeIs(e.s, Dv'[1].T))
        /\ {e.wait[i] : i \in 1..Len(e.wait)} = pulled'
\* a parameter that goes away says that it is not listened to any more
Farewell(i, m) == /\ m.a = Name(i) \o "?listen" /\ Len(m.args) = 2 /\ Text(m) \in DOMAIN Dv[i].T /\ Dv[i].T[Text(m)].live
                  /\ Text(m) \notin {a \in DOMAIN Dv'[i].T : Dv'[i].T[a].live} /\ m.args[2].v.s = "disable"
Going(i, d, out) ==
  /\ Left(i) = <<>>
  /\ Do(i, d, Left(3 - i))
  /\ (SameList(SelectSeq(Left(3 - i), LAMBDA m : ~Farewell(i, m)), out) = TRUE)
Op ==
  \/ e.e = "server" /\ Arrives(1)
  \/ e.e = "mirror" /\ Arrives(2)
  \/ e.e = "raw" /\ Raw2(IF e.d = "s" THEN 1 ELSE 2)
  \/ e.e = "flush" /\ (e.up => (e.ok /\ Dv[2].ns = {} /\ Dv[2].gets = {} /\ (clean => Alike)) = TRUE)
       /\ (IF e.up THEN Updated ELSE Do(2, Dv[2], <<>>)) /\ (Strict = TRUE)
  \/ e.e = "drop" /\ Going(1, Without(Dv[1], e.a), <<>>)
  \/ e.e = "update" /\ LET r == Ask(2, Nothing(Cleared(Dv[2])), "namespace", <<"/">>) IN Going(2, r.d, r.out)
  \/ /\ \/ e.e = "new" /\ NewPar(e.a, e.t)
        \/ e.e = "node" /\ NewMNode(e.a)
        \/ e.e = "attr" /\ (IF e.f = "unit" THEN LET k == Find(e.x, ".", 1) IN SetUnit(e.a, SubSeq(e.x, 1, k - 1), Sub(e.x, k + 1)) ELSE SetAttr(e.a, e.f, e.x))
        \/ e.e = "quiet" /\ Quietly(e.a, e.v)
        \/ e.e = "push" /\ PushOn(1, e.a, e.v)
        \/ e.e = "pushm" /\ PushOn(2, e.a, e.v)
        \/ e.e = "pull" /\ Pull(e.a)
        \/ e.e = "request" /\ Request(e.a)
        \/ e.e = "observe" /\ Observe(e.a, e.b)
     /\ (Strict = TRUE)
TInit == MinuitInit /\ l = 1 /\ clean = FALSE
Step ==
  CASE e.e = "Reset" -> Dv' = << Fresh0, Fresh0 >> /\ way' = << <<>>, <<>> >> /\ pulled' = {} /\ Frame /\ clean' = FALSE
    [] OTHER -> /\ Op /\ (Seen = TRUE)
                /\ clean' = (CASE e.e = "update" -> TRUE [] e.e \in {"server", "mirror", "push", "pull", "request", "observe"} -> clean [] OTHER -> FALSE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<mvars, l, clean>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
