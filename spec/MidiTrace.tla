------------------------------ MODULE MidiTrace ------------------------------
EXTENDS Midi, Json, IOUtils
LOCAL INSTANCE FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Mine(x, k) == {j \in 1..Len(e.told) : e.told[j].k = k /\ e.told[j].p = x.p /\ e.told[j].v = x.v}
AgreeTold ==
  LET T == obs'.told IN
  /\ \A j \in 1..Len(e.told) : \E x \in T : e.told[j].p = x.p /\ e.told[j].v = x.v
  /\ \A x \in T : Cardinality(Mine(x, "cb")) = x.n /\ Cardinality(Mine(x, "msg")) = x.m
AgreeTree(d, t) ==
  IF ~full'[d] THEN t.n = Cardinality(nodes'[d]) /\ (t.n <= 300 => {t.l[j] : j \in 1..Len(t.l)} = nodes'[d])
  ELSE (gone'[d] = {} => t.n = 16 * (1 + 5 + 4 * 128) + Cardinality({q \in nodes'[d] : ~Legal(q)}))
Agree == /\ AgreeTold /\ e.sent = obs'.sent /\ e.ok = obs'.ok /\ e.r = obs'.v
         /\ AgreeTree("i", e.i) /\ AgreeTree("o", e.o)
Op ==
  \/ e.e = "mk" /\ Make(e.d, e.p, e.n)
  \/ e.e = "rm" /\ Remove(e.d, e.p)
  \/ e.e = "full" /\ Fill(e.d)
  \/ e.e = "listen" /\ Listen(e.d, e.p)
  \/ e.e = "unlisten" /\ Unlisten(e.d, e.p)
  \/ e.e \in {"push", "pushr"} /\ Push(e.d, e.p, e.v)
  \/ e.e = "pushbad" /\ PushBad(e.d, e.p, e.v)
  \/ e.e = "pushcur" /\ PushCurrent(e.d, e.p)
  \/ e.e = "assign" /\ Assign(e.d, e.p, e.v)
  \/ e.e = "get" /\ Get(e.d, e.p)
  \/ e.e = "pull" /\ Pull(e.d, e.p, e.r)
  \/ e.e = "in" /\ Incoming(e.b)
  \/ e.e = "relay" /\ Relay /\ e.b = Head(wire)
  \/ e.e = "learn" /\ SetLearn(e.b)
  \/ e.e = "register" /\ Register
  \/ e.e = "collect" /\ Collect
  \/ e.e = "log" /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, vals, lis, rx, wire, learn, reg, regq>>)
TInit == DInit /\ l = 1
Step == IF e.e = "Reset"
        THEN /\ nodes' = [d \in Devs |-> {}] /\ full' = [d \in Devs |-> FALSE] /\ gone' = [d \in Devs |-> {}]
             /\ vals' = [d \in Devs |-> Empty] /\ lis' = [d \in Devs |-> Empty] /\ rx' = Empty /\ wire' = <<>>
             /\ learn' = FALSE /\ reg' = FALSE /\ regq' = <<>> /\ obs' = [told |-> {}, sent |-> <<>>, ok |-> TRUE, v |-> <<>>]
        ELSE Op /\ (Agree = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<dvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
