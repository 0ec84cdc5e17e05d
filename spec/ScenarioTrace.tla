--------------------------- MODULE ScenarioTrace ---------------------------
EXTENDS Scenario, TLC, Json, IOUtils
CONSTANT Proj   \* which observations are compared: S01, S02, S03
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
NoG == [es |-> <<>>, src |-> <<>>, dst |-> <<>>, min |-> <<>>, max |-> <<>>, nom |-> <<>>,
        root |-> <<>>, auto |-> <<>>, trig |-> <<>>]
TInit == g = NoG /\ sc = Fresh /\ l = 1
NoTok(x) == [i \in Itv |-> SelectSeq(x[i], LAMBDA t : t[1] # "tok")]
TokO(x) == [i \in Itv |-> SelectSeq(x[i], LAMBDA t : t[1] = "tok")]
Obs ==
  /\ e.st = sc'.st
  /\ Proj = "S01" => /\ e.el = sc'.el /\ NoTok(e.pl) = NoTok(sc'.pl) /\ e.run = sc'.run
  /\ Proj = "S02" => /\ TokO(e.pl) = TokO(sc'.pl) /\ e.date = sc'.date
  /\ Proj = "S03" => /\ e.sl = sc'.sl /\ e.el = sc'.el
Reset == e.e = "Reset" /\ g' = NoG /\ sc' = [st |-> <<>>]
Graph == e.e = "graph" /\ g' = e.g
         /\ sc' = [st |-> [k \in 1..Len(e.g.es) |-> NONE], run |-> [i \in 1..Len(e.g.src) |-> FALSE],
                   date |-> [i \in 1..Len(e.g.src) |-> 0],
                   eval |-> [s \in 1..Len(e.g.root) |-> FALSE], req |-> [s \in 1..Len(e.g.root) |-> FALSE],
                   ext |-> [s \in 1..Len(e.g.root) |-> FALSE], cache |-> [s \in 1..Len(e.g.root) |-> FALSE],
                   obs |-> [s \in 1..Len(e.g.root) |-> "no"], leak |-> [s \in 1..Len(e.g.root) |-> "no"],
                   cond |-> [k \in 1..Len(e.g.es) |-> TRUE], running |-> {}, waiting |-> {}, last |-> -1,
                   el |-> [k \in 1..Len(e.g.es) |-> <<>>], sl |-> [s \in 1..Len(e.g.root) |-> <<>>],
                   pl |-> [i \in 1..Len(e.g.src) |-> <<>>],
                   ends |-> {}, over |-> [s \in 1..Len(e.g.root) |-> -1], maxev |-> {}]
Step ==
  \/ Reset
  \/ Graph
  \/ e.e = "start" /\ Start /\ Obs
  \/ e.e = "stop" /\ StopSc /\ e.st = sc'.st /\ e.run = sc'.run
  \/ e.e = "tick" /\ Tick(e.d, e.off) /\ Obs
  \/ e.e = "cond" /\ SetCond(e.k, e.v)
  \/ e.e = "trig" /\ SetTrig(e.k, e.v)
  \/ e.e = "req" /\ Request(e.k)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<g, sc, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
