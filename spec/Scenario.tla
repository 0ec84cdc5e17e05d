------------------------------ MODULE Scenario ------------------------------
(* The execution of a scenario: a graph of time syncs, holding events,       *)
(* linked by intervals (editor/scenario).  One Tick is one call to           *)
(* scenario::state with a token: it is deterministic given the durations,    *)
(* the conditions of the events and the triggers of the syncs, which the     *)
(* environment changes between ticks.                                        *)
(*                                                                           *)
(* g is the graph (fixed during a behaviour):                                *)
(*   g.es[e]    sync of event e         g.src[i], g.dst[i] events of itv i   *)
(*   g.min/max/nom[i] durations (max = -1: infinite)                         *)
(*   g.root[s]  is_start                g.auto[s]  autotrigger               *)
(*   g.trig[s]  0: expression "true", 1: an expression, 2: "false"           *)
(* sc is the state (see Fresh).                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES g, sc

Ev == 1..Len(g.es)
Itv == 1..Len(g.src)
Syn == 1..Len(g.root)

NONE == 0
PENDING == 1
HAPPENED == 2
DISPOSED == 3

Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
EvOf(s) == {e \in Ev : g.es[e] = s}
Prev(e) == {i \in Itv : g.dst[i] = e}
NextI(e) == {i \in Itv : g.src[i] = e}
EndSync(i) == g.es[g.dst[i]]
AtMax(S, i) == g.max[i] # -1 /\ S.date[i] >= g.max[i]

Fresh == [st |-> [e \in Ev |-> NONE], run |-> [i \in Itv |-> FALSE], date |-> [i \in Itv |-> 0],
          eval |-> [s \in Syn |-> FALSE], req |-> [s \in Syn |-> FALSE],
          ext |-> [s \in Syn |-> FALSE],      \* value of the trigger expression
          cache |-> [s \in Syn |-> FALSE],    \* the value the expression has read
          obs |-> [s \in Syn |-> "no"],       \* observation of the expression: no, latch, plain
          leak |-> [s \in Syn |-> "no"],      \* observation left behind by a reset
          cond |-> [e \in Ev |-> TRUE],
          running |-> {}, waiting |-> {}, last |-> -1,
          \* what happened during the last step
          el |-> [e \in Ev |-> <<>>], sl |-> [s \in Syn |-> <<>>], pl |-> [i \in Itv |-> <<>>],
          ends |-> {}, over |-> [s \in Syn |-> -1], maxev |-> {}]

Clean(S) == [S EXCEPT !.el = [e \in Ev |-> <<>>], !.sl = [s \in Syn |-> <<>>], !.pl = [i \in Itv |-> <<>>],
                      !.ends = {}, !.over = [s \in Syn |-> -1], !.maxev = {}]

SLog(S, s, x) == [S EXCEPT !.sl[s] = Append(@, x)]
SetSt(S, e, v) == [S EXCEPT !.st[e] = v, !.el[e] = Append(@, v)]
Tok(S, i, to, off) == [S EXCEPT !.date[i] = to, !.pl[i] = Append(@, <<"tok", S.date[i], to, off, g.nom[i]>>)]

StopI(S, i) == [S EXCEPT !.date[i] = 0, !.run[i] = FALSE, !.running = @ \ {i},
                         !.pl[i] = IF S.run[i] THEN Append(@, <<"stop">>) ELSE @]
StartI(S, i, off) ==
  Tok([S EXCEPT !.date[i] = 0, !.run[i] = TRUE, !.running = @ \cup {i}, !.pl[i] = Append(@, <<"start">>)], i, 0, off)
StopAll(S, I) == FoldLeft(StopI, S, Asc(I))

Happen(S, e, off) ==
  LET S1 == StopAll(S, Prev(e))
      S2 == FoldLeft(LAMBDA T, i : StartI(T, i, off), S1, Asc(NextI(e)))
  IN SetSt(S2, e, HAPPENED)

\* disposing propagates to the events that only disposed events lead to
RECURSIVE Dispose(_, _)
Dispose(S, e) ==
  LET S1 == SetSt(StopAll(S, Prev(e)), e, DISPOSED)
      D(T, i) == LET d == g.dst[i] IN
        IF T.st[d] # DISPOSED /\ \A j \in Prev(d) : T.st[g.src[j]] = DISPOSED THEN Dispose(T, d) ELSE T
  IN FoldLeft(D, S1, Asc(NextI(e)))

(* Which events of sync s may happen now: each interval leading to them that *)
(* may still be played has reached its minimum.                              *)
Reachable(S, e) == Prev(e) = {} \/ \E i \in Prev(e) : S.st[g.src[i]] # DISPOSED
MinReached(S, e) == \A i \in Prev(e) : S.st[g.src[i]] = DISPOSED
                                        \/ (S.st[g.src[i]] = HAPPENED /\ S.date[i] >= g.min[i])
Pends(S, s) == {e \in EvOf(s) : S.st[e] = PENDING \/ (Reachable(S, e) /\ MinReached(S, e))}
Alive(S, s) == {e \in EvOf(s) : S.st[e] = PENDING \/ Reachable(S, e)}
Ready(S, s) == Pends(S, s) = Alive(S, s)
MaxReached(S, s) == \E e \in Pends(S, s), i \in Itv : g.dst[i] = e /\ AtMax(S, i)

MarkPending(S, s) ==
  FoldLeft(LAMBDA T, e : IF T.st[e] = PENDING THEN T ELSE SetSt(T, e, PENDING), S, Asc(Pends(S, s)))

Observe(S, s, how) == IF g.trig[s] = 1 /\ S.obs[s] = "no"
                      THEN [S EXCEPT !.obs[s] = how,
                                     \* reading it for the first time refreshes a root's expression
                                     !.cache[s] = IF g.root[s] /\ S.leak[s] = "no" THEN S.ext[s] ELSE @]
                      ELSE S

Finish(S, s, maxr, off) ==
  LET P == Asc({e \in EvOf(s) : S.st[e] = PENDING})
      Play(T, e) == IF T.cond[e] THEN [Happen(T, e, off) EXCEPT !.maxev = IF maxr THEN @ \cup {e} ELSE @]
                    ELSE Dispose(T, e)
      S1 == FoldLeft(Play, [S EXCEPT !.req[s] = FALSE], P)
  IN [S1 EXCEPT !.obs[s] = "no", !.eval[s] = FALSE, !.req[s] = FALSE,
                !.sl[s] = @ \o <<"triggered", IF maxr THEN "finished-max" ELSE "finished">>]

ProcessSync(S, s, off) ==
  LET S0 == MarkPending(S, s)
      maxr == MaxReached(S, s) IN
  IF ~Ready(S, s)
  THEN [done |-> FALSE,
        s |-> IF S0.eval[s] THEN SLog([S0 EXCEPT !.eval[s] = FALSE, !.req[s] = FALSE], s, "left") ELSE S0]
  ELSE LET S1 == IF S0.eval[s] THEN S0 ELSE SLog([S0 EXCEPT !.eval[s] = TRUE, !.req[s] = FALSE], s, "entered") IN
       IF g.trig[s] = 0 \/ maxr THEN [done |-> TRUE, s |-> Finish(S1, s, maxr, off)]
       ELSE LET S2 == IF S1.obs[s] = "no" THEN [S1 EXCEPT !.cache[s] = S1.ext[s]] ELSE S1
                S3 == Observe(S2, s, "plain") IN
            IF S3.req[s] \/ (g.trig[s] = 1 /\ S3.cache[s])
            THEN [done |-> TRUE, s |-> Finish(SLog(S3, s, "triggering"), s, FALSE, off)]
            ELSE [done |-> FALSE, s |-> S3]

RunItv(S, i, tick, off, all) ==
  LET s == EndSync(i)
      mt == g.max[i] - S.date[i]
      diff == tick - mt
      S1 == IF g.max[i] = -1 THEN Tok(S, i, S.date[i] + tick, off)
            ELSE IF diff <= 0 THEN (IF tick # 0 THEN Tok(S, i, S.date[i] + tick, off) ELSE S)
            ELSE LET T == IF mt # 0 THEN Tok(S, i, g.max[i], off) ELSE S
                 IN [T EXCEPT !.over[s] = IF diff > @ THEN diff ELSE @]
  IN IF S1.date[i] >= g.min[i] THEN [S1 EXCEPT !.ends = @ \cup {s}] ELSE S1

\* Intervals that follow the events which happened at a maximum are given
\* what remains of the tick; then the syncs reached are processed.  The order
\* of the syncs within a round is not specified (the code goes by address); it
\* only matters when one of them disposes events or starts intervals without a
\* minimum that lead to another one, hence the set.
Perms(X) == {p \in [1..Cardinality(X) -> X] : \A i, j \in 1..Cardinality(X) : i # j => p[i] # p[j]}
RECURSIVE Rounds(_, _, _)
Rounds(S, d, off) ==
  LET Cont(T, e) == LET s == g.es[e] IN
        IF T.over[s] = -1 THEN T
        ELSE FoldLeft(LAMBDA U, i : RunItv(U, i, T.over[s], off + d - T.over[s], d), T, Asc({i \in NextI(e) : T.run[i]}))
      S1 == [FoldLeft(Cont, S, Asc(S.maxev)) EXCEPT !.maxev = {}]
      S0 == [S1 EXCEPT !.ends = {}]
      Proc(T, s) == ProcessSync(T, s, IF T.over[s] = -1 THEN off ELSE off + d - T.over[s]).s
      In(order) == FoldLeft(Proc, S0, order)
      asc == In(Asc(S1.ends))
      cross == \/ \E e \in Ev : S1.st[e] # DISPOSED /\ asc.st[e] = DISPOSED
               \/ \E i \in Itv : g.min[i] = 0 /\ EndSync(i) \in S1.ends /\ S1.st[g.src[i]] # HAPPENED
                                  /\ asc.st[g.src[i]] = HAPPENED
      res == IF cross THEN {In(p) : p \in Perms(S1.ends)} ELSE {asc}
  IN UNION {IF r.maxev = {} THEN {r} ELSE Rounds(r, d, off) : r \in res}

RECURSIVE Comp(_)
Comp(X) ==
  LET Y == X \cup {s \in Syn : \E i \in Itv : LET a == g.es[g.src[i]] b == EndSync(i) IN
                                                (a \in X /\ b = s) \/ (b \in X /\ a = s)}
  IN IF Y = X THEN X ELSE Comp(Y)

ResetSync(S, s) ==
  LET S1 == FoldLeft(LAMBDA T, e : IF T.st[e] = NONE THEN T ELSE SetSt(T, e, NONE), S, Asc(EvOf(s)))
  IN [S1 EXCEPT !.eval[s] = FALSE, !.obs[s] = "no",
                !.leak[s] = IF S.obs[s] = "latch" \/ @ = "latch" THEN "latch"
                            ELSE IF S.obs[s] = "no" THEN @ ELSE "plain"]
ResetComp(S, s) ==
  LET C == Comp({s})
      S1 == FoldLeft(ResetSync, S, Asc(C))
  IN StopAll(S1, {i \in Itv : EndSync(i) \in C})

Roots(S) ==
  LET F(T, s) ==
        LET T1 == Observe(T, s, "latch") IN
        IF ~T1.req[s] \/ s \in T1.waiting THEN T1
        ELSE LET T2 == IF \E e \in EvOf(s) : T1.st[e] \in {HAPPENED, DISPOSED} THEN ResetComp(T1, s) ELSE T1
             IN [T2 EXCEPT !.eval[s] = IF g.auto[s] THEN TRUE ELSE @, !.waiting = @ \cup {s}]
  IN FoldLeft(F, S, Asc({s \in Syn : g.root[s]}))

TicksOf(S, d, off) ==
  LET S1 == Roots(Clean(S))
      W(T, s) == LET r == ProcessSync(T, s, off) IN
                 IF r.done THEN [r.s EXCEPT !.waiting = @ \ {s}] ELSE r.s
      S2 == FoldLeft(W, S1, Asc(S1.waiting))
      S3 == FoldLeft(LAMBDA T, i : RunItv(T, i, d, off, d), [S2 EXCEPT !.maxev = {}], Asc(S2.running))
  IN {[S4 EXCEPT !.last = (IF @ = -1 THEN 0 ELSE @) + d] : S4 \in Rounds(S3, d, off)}

(* ------------------------------- actions -------------------------------- *)
Start == sc' = [Clean(sc) EXCEPT !.waiting = {s \in Syn : g.root[s]}] /\ UNCHANGED g
StopSc ==
  /\ sc' = LET S1 == StopAll(Clean(sc), Itv)
               S2 == FoldLeft(ResetSync, S1, Asc(Syn))
           IN [S2 EXCEPT !.waiting = {}, !.last = -1, !.running = {}]
  /\ UNCHANGED g
Tick(d, off) == sc' \in TicksOf(sc, d, off) /\ UNCHANGED g
SetCond(e, v) == sc' = [Clean(sc) EXCEPT !.cond[e] = v] /\ UNCHANGED g
SetTrig(s, v) ==
  /\ g.trig[s] = 1
  /\ sc' = LET o == sc.obs[s] # "no" \/ sc.leak[s] # "no" IN
           [Clean(sc) EXCEPT !.ext[s] = v, !.cache[s] = IF o THEN v ELSE @,
                             !.req[s] = @ \/ (v /\ (sc.obs[s] = "latch" \/ sc.leak[s] = "latch"))]
  /\ UNCHANGED g
Request(s) == sc' = [Clean(sc) EXCEPT !.req[s] = TRUE] /\ UNCHANGED g

(* ------------------------------ properties ------------------------------ *)
\* S01.  The statuses of an event follow NONE, PENDING, HAPPENED or DISPOSED
\* (an unreachable event goes to DISPOSED directly); "0" is a reset
Follows(a, b) == \/ a = NONE /\ b \in {PENDING, DISPOSED}
                 \/ a = PENDING /\ b \in {HAPPENED, DISPOSED}
                 \/ b = NONE
\* given the statuses before (p) the step
LifeStep(p) == \A e \in Ev : LET h == <<p[e]>> \o sc'.el[e] IN
                 /\ h[Len(h)] = sc'.st[e]
                 /\ \A k \in 1..(Len(h) - 1) : Follows(h[k], h[k + 1])
\* running intervals are those whose start happened and whose end did not
RunOK == \A i \in Itv : /\ sc.run[i] <=> i \in sc.running
                        /\ sc.run[i] <=> (sc.st[g.src[i]] = HAPPENED /\ sc.st[g.dst[i]] \in {NONE, PENDING})
\* disposal is closed: an event that only disposed events lead to is disposed
DisposeClosed == \A e \in Ev : Prev(e) # {} /\ (\A i \in Prev(e) : sc.st[g.src[i]] = DISPOSED) => sc.st[e] = DISPOSED
\* S02.  Dates are within the maximum and idle intervals are at zero
DateOK == \A i \in Itv : /\ sc.date[i] >= 0
                         /\ g.max[i] # -1 => sc.date[i] <= g.max[i]
                         /\ ~sc.run[i] => sc.date[i] = 0
\* tokens are contiguous and account for the date
Toks(l) == SelectSeq(l, LAMBDA x : x[1] = "tok")
SumTok(l) == FoldLeft(LAMBDA a, x : a + x[3] - x[2], 0, Toks(l))
TokOK == \A i \in Itv : \A k \in 1..Len(Toks(sc.pl[i])) :
            LET t == Toks(sc.pl[i])[k] IN t[3] >= t[2] /\ (k > 1 => (t[2] = Toks(sc.pl[i])[k - 1][3] \/ t[2] = 0))
\* S03.  Callback order
SyncLog == \A s \in Syn : LET l == sc.sl[s] IN
  \A k \in 1..Len(l) : /\ l[k] = "triggered" => k < Len(l) /\ l[k + 1] \in {"finished", "finished-max"}
                       /\ l[k] \in {"finished", "finished-max"} => k > 1 /\ l[k - 1] = "triggered"
                       /\ l[k] = "triggering" => k < Len(l) /\ l[k + 1] = "triggered"
=============================================================================
