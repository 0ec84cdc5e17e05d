----------------------------- MODULE ScenarioMC -----------------------------
EXTENDS Scenario, TLC, Json
CONSTANTS Durs, MaxH, MaxEnv, GraphSet
VARIABLE hist
allvars == <<g, sc, hist>>

T1(n) == [k \in 1..n |-> FALSE]
Root1(n) == [k \in 1..n |-> k = 1]
\* mk(es, intervals as <<src, dst, min, max, nom>>, trig)
Mk(es, itv, ns, trig) ==
  [es |-> es, src |-> [k \in 1..Len(itv) |-> itv[k][1]], dst |-> [k \in 1..Len(itv) |-> itv[k][2]],
   min |-> [k \in 1..Len(itv) |-> itv[k][3]], max |-> [k \in 1..Len(itv) |-> itv[k][4]],
   nom |-> [k \in 1..Len(itv) |-> itv[k][5]], root |-> Root1(ns), auto |-> T1(ns), trig |-> trig]
Graphs == <<
  \* 1. series, rigid then flexible
  Mk(<<1, 2, 3>>, << <<1, 2, 2, 2, 2>>, <<2, 3, 1, 3, 2>> >>, 3, <<0, 0, 0>>),
  \* 2. series of three rigid intervals that fit in one tick
  Mk(<<1, 2, 3, 4>>, << <<1, 2, 1, 1, 1>>, <<2, 3, 2, 2, 2>>, <<3, 4, 4, -1, 4>> >>, 4, <<0, 0, 0, 0>>),
  \* 3. trigger with min and max, then an interval
  Mk(<<1, 2, 3>>, << <<1, 2, 2, 4, 3>>, <<2, 3, 3, 3, 3>> >>, 3, <<0, 1, 0>>),
  \* 4. trigger without max
  Mk(<<1, 2, 3>>, << <<1, 2, 1, -1, 2>>, <<2, 3, 2, 2, 2>> >>, 3, <<0, 1, 0>>),
  \* 5. two branches joining in two events of one sync
  Mk(<<1, 2, 2, 3>>, << <<1, 2, 2, 2, 2>>, <<1, 3, 3, 4, 3>>, <<2, 4, 1, 1, 1>>, <<3, 4, 2, 2, 2>> >>, 3, <<0, 0, 0>>),
  \* 6. conditional branches rejoining: start events on one sync
  Mk(<<1, 1, 2, 2, 3, 3>>, << <<1, 3, 1, 1, 1>>, <<2, 4, 2, 2, 2>>, <<3, 5, 2, 2, 2>>, <<4, 6, 1, 1, 1>> >>, 3, <<0, 0, 0>>),
  \* 7. conditional branches converging on one event, then an interval
  Mk(<<1, 1, 2, 3>>, << <<1, 3, 1, 2, 1>>, <<2, 3, 2, 2, 2>>, <<3, 4, 2, 2, 2>> >>, 3, <<0, 0, 0>>),
  \* 8. two parallel intervals between the same events
  Mk(<<1, 2, 3>>, << <<1, 2, 1, 3, 2>>, <<1, 2, 2, 2, 2>>, <<2, 3, 2, 2, 2>> >>, 3, <<0, 0, 0>>),
  \* 9. triggered start
  Mk(<<1, 2>>, << <<1, 2, 2, 3, 2>> >>, 2, <<1, 0>>),
  \* 10. muted trigger: only the maximum goes through
  Mk(<<1, 2, 3>>, << <<1, 2, 1, 3, 2>>, <<2, 3, 2, -1, 2>> >>, 3, <<0, 2, 0>>),
  \* 11. two roots
  [Mk(<<1, 2, 3, 4>>, << <<1, 2, 1, 3, 2>>, <<3, 4, 2, 2, 2>> >>, 4, <<0, 0, 1, 0>>) EXCEPT !.root = <<TRUE, FALSE, TRUE, FALSE>>],
  \* 12. two roots, the second one restarts at once when triggered
  [Mk(<<1, 2, 3, 2>>, << <<1, 2, 1, 3, 2>>, <<3, 4, 2, 2, 2>> >>, 3, <<0, 0, 1>>)
     EXCEPT !.root = <<TRUE, FALSE, TRUE>>, !.auto = <<FALSE, FALSE, TRUE>>],
  \* 13. intervals without minimum joining in two events of one sync
  Mk(<<1, 2, 3, 3, 4>>, << <<1, 2, 2, 2, 2>>, <<1, 3, 1, 3, 2>>, <<2, 4, 0, 2, 1>>, <<3, 5, 0, -1, 2>>, <<4, 5, 0, 1, 1>> >>, 4, <<0, 0, 1, 0>>)
>>

Do(A, c) == A /\ hist' = Append(hist, c)
Act == hist'[Len(hist')][1]
IsOp(s) == Act = s
Envs == Cardinality({k \in 1..Len(hist) : hist[k][1] \in {"cond", "trig", "req", "stop"}})
MCInit == /\ \E k \in GraphSet : g = Graphs[k]
          /\ sc = Fresh
          /\ hist = << <<"graph", g>> >>
MCNext ==
  /\ Len(hist) < MaxH
  /\ \/ Len(hist) = 1 /\ Do(Start, <<"start">>)
     \/ Len(hist) > 1 /\ sc.last = -1 /\ hist[Len(hist)][1] = "stop" /\ Do(Start, <<"start">>)
     \/ Len(hist) > 1 /\ hist[Len(hist)][1] # "stop" /\ \E d \in Durs : Do(Tick(d, 0), <<"tick", d, 0>>)
     \/ /\ Len(hist) > 1 /\ Envs < MaxEnv /\ hist[Len(hist)][1] # "stop"
        /\ \/ \E e \in Ev : sc.st[e] # DISPOSED /\ sc.st[e] # HAPPENED /\ sc.cond[e] /\ Do(SetCond(e, FALSE), <<"cond", e, FALSE>>)
           \/ \E s \in Syn, v \in BOOLEAN : g.trig[s] = 1 /\ sc.ext[s] # v /\ Do(SetTrig(s, v), <<"trig", s, v>>)
           \/ \E s \in Syn : ~sc.req[s] /\ g.trig[s] # 0 /\ Do(Request(s), <<"req", s>>)
           \/ sc.last # -1 /\ Do(StopSc, <<"stop">>)
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<g, sc.st, sc.run, sc.date, sc.eval, sc.req, sc.ext, sc.cache, sc.obs, sc.leak, sc.cond, sc.waiting, sc.last = -1,
          Envs, Len(hist) = 1, hist[Len(hist)][1] = "stop">>
Emit == PrintT("SCRIPT " \o ToJson(hist'))

Life == [][LifeStep(sc.st)]_allvars
\* S02: on a path of rigid intervals the date is the time given so far
RECURSIVE Rigid(_), DateOfEv(_)
Rigid(e) == \/ Prev(e) = {} /\ g.trig[g.es[e]] = 0
            \/ /\ Cardinality(Prev(e)) = 1 /\ EvOf(g.es[e]) = {e}
               /\ \A i \in Prev(e) : g.min[i] = g.max[i] /\ Rigid(g.src[i])
DateOfEv(e) == IF Prev(e) = {} THEN 0 ELSE LET i == CHOOSE i \in Prev(e) : TRUE IN g.nom[i] + DateOfEv(g.src[i])
Requested == \E k \in 1..Len(hist) : hist[k][1] \in {"req", "stop", "trig"}
Conserved == \A i \in Itv : sc.run[i] /\ Rigid(g.src[i]) /\ ~Requested =>
   LET t == sc.last - DateOfEv(g.src[i]) IN
     sc.date[i] = IF g.max[i] # -1 /\ t > g.max[i] THEN g.max[i] ELSE t
\* in one tick no interval plays more than the tick
NoMore == [][IsOp("tick") => \A i \in Itv : SumTok(sc'.pl[i]) <= hist'[Len(hist')][2]]_allvars
\* S03: at the end of a tick no sync is left that had to happen (one reached
\* by an interval without minimum that starts now, or that only a disposal of
\* this tick made ready, is due in the next tick) ...
JustStarted(s) == \E i \in Itv : EndSync(i) = s /\ \/ sc'.run[i] /\ sc'.date[i] = 0
                                                   \/ DISPOSED \in {sc'.el[g.src[i]][k] : k \in 1..Len(sc'.el[g.src[i]])}
                                                   \/ DISPOSED \in {sc'.el[g.dst[i]][k] : k \in 1..Len(sc'.el[g.dst[i]])}
Due == [][IsOp("tick") => \A s \in Syn :
    (~g.root[s] /\ ~JustStarted(s) /\ Ready(sc', s) /\ Pends(sc', s) # {} /\ \A e \in Pends(sc', s) : sc'.st[e] = PENDING) =>
       g.trig[s] # 0 /\ ~MaxReached(sc', s) /\ ~(g.trig[s] = 1 /\ sc'.ext[s])]_allvars
\* ... and none happened before the minimum of what led to it
NotEarly == [][\A s \in Syn : (\E k \in 1..Len(sc'.sl[s]) : sc'.sl[s][k] = "triggered") =>
    \A i \in Itv : EndSync(i) = s /\ sc.run[i] /\ IsOp("tick") =>
      LET t == Toks(sc'.pl[i]) IN (IF t = <<>> THEN sc.date[i] ELSE t[Len(t)][3]) >= g.min[i]]_allvars
\* the flag of "finished" is the maximum
MaxFlag == [][\A s \in Syn : (\E k \in 1..Len(sc'.sl[s]) : sc'.sl[s][k] = "finished-max") =>
    \E i \in Itv : EndSync(i) = s /\ LET t == Toks(sc'.pl[i]) IN (IF t = <<>> THEN sc.date[i] ELSE t[Len(t)][3]) = g.max[i]]_allvars
=============================================================================
