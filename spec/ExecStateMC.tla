---------------------------- MODULE ExecStateMC -----------------------------
EXTENDS ExecState, TLC, Json
CONSTANTS MaxLen, MaxTs, Regs
VARIABLES hist, c, due, dueq
mvars == <<evars, hist, c, due, dueq>>
MDev(p) == IF p = 3 THEN 2 ELSE 1
H(x) == hist' = Append(hist, x)
N == c' = c + 1
Done == {"-"}
\* every order in which a commit may send: parameters one after the other
Perm(S) == {f \in [1..Cardinality(S) -> S] : \A i, k \in DOMAIN f : i # k => f[i] # f[k]}
Blocks(pol, f) == LET F[k \in 0..Len(f)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o [x \in 1..Len(Sent(pol, f[k])) |-> [p |-> f[k], v |-> Sent(pol, f[k])[x]]] IN F[Len(f)]
MCInit == /\ EInit /\ hist = <<>> /\ c = 1 /\ due = [p \in Params |-> <<>>] /\ dueq = [p \in Params |-> <<>>]
Live == {p \in Params : pend[p] # <<>>}
Commits(pol) == \E f \in Perm(Live) : LET o == Blocks(pol, f) IN Commit(pol, o) /\ due' = [p \in Params |-> <<>>]
                                          /\ dueq' = [p \in Params |-> IF regs[p] > 0 THEN dueq[p] \o Only(o, p) ELSE dueq[p]]
E1 == /\ ~Regs /\ Len(hist) < MaxLen
      /\ \/ \E p \in Params, t \in 0..MaxTs : Insert(p, <<c>>, 0, t) /\ H(<<"tv", p, c, 0, t, c % 2>>) /\ N /\ due' = [due EXCEPT ![p] = Append(@, <<c>>)] /\ UNCHANGED dueq
         \/ \E p \in Params, t, u \in 0..MaxTs, r \in BOOLEAN : InsertPort({p}, <<[v |-> <<c>>, t |-> t], [v |-> <<c + 1>>, t |-> u]>>, 0, r)
                    /\ H(<<"port", p, ToString(c) \o ":" \o ToString(t) \o "," \o ToString(c + 1) \o ":" \o ToString(u), 0, r, c % 2>>) /\ c' = c + 2
                    /\ due' = [due EXCEPT ![p] = Vals(pend'[p])] /\ UNCHANGED dueq
         \/ \E p \in Params : Priority(p, 10 - p) /\ prio[p] = 0 /\ H(<<"prio", p, 10 - p>>) /\ UNCHANGED <<c, due, dueq>>
         \/ \E pol \in {"plain", "merged", "ordered", "priorized"} : Commits(pol) /\ H(<<"commit", pol>>) /\ UNCHANGED c
         \/ BeginTick /\ H(<<"begin">>) /\ msg # 0 /\ UNCHANGED <<c, due, dueq>>
E2 == /\ Regs /\ Len(hist) < MaxLen
      /\ \/ \E i \in Inlets : Register(i) /\ (\E p \in Params : regs'[p] < 3 /\ regs'[p] > regs[p]) /\ H(<<"reg", i>>) /\ UNCHANGED <<c, due, dueq>>
         \/ \E i \in Inlets : Unregister(i) /\ (\E p \in inl[i].t : regs[p] > 0) /\ H(<<"unreg", i>>) /\ UNCHANGED <<c, due, dueq>>
         \/ \E p \in Params : Comes(p, <<c>>) /\ H(<<"in", p, c>>) /\ N /\ UNCHANGED due /\ dueq' = IF regs[p] > 0 THEN [dueq EXCEPT ![p] = Append(@, <<c>>)] ELSE dueq
         \/ BeginTick /\ H(<<"begin">>) /\ (queue # [d \in Devs |-> <<>>] \/ devq # <<>>) /\ UNCHANGED <<c, due>>
               /\ dueq' = [p \in Params |-> <<>>]
         \/ \E d \in Devs : (\A k \in 1..Len(devq) : devq[k].d # d) /\ DevAsk(d, d \notin devs) /\ H(<<"dev", d, d \notin devs>>) /\ UNCHANGED <<c, due, dueq>>
         \/ \E p \in Params : Insert(p, <<c>>, 0, 0) /\ pend[p] = <<>> /\ H(<<"tv", p, c, 0, 0, 0>>) /\ N /\ due' = [due EXCEPT ![p] = Append(@, <<c>>)] /\ UNCHANGED dueq
         \/ Live # {} /\ Commits("plain") /\ H(<<"commit", "plain">>) /\ UNCHANGED c
MCInit2 == /\ MCInit /\ Regs = FALSE
MCInitR == /\ cur = [p \in Params |-> Zero(p)] /\ pend = [p \in Params |-> <<>>] /\ msg = 0
           /\ prio = [p \in Params |-> 0] /\ apend = [a \in AParams |-> <<>>] /\ acur = [a \in AParams |-> Silence]
           /\ devs = {1} /\ devq = <<>>
           /\ inl = [i \in Inlets |-> [t |-> IF i = 1 THEN {1} ELSE {1, 3}, path |-> i # 1, loc |-> TRUE, glob |-> TRUE, ev |-> TRUE]]
           /\ regs = [p \in Params |-> 0] /\ queue = [d \in Devs |-> <<>>] /\ recv = [p \in Params |-> <<>>]
           /\ hist = <<>> /\ c = 1 /\ due = [p \in Params |-> <<>>] /\ dueq = [p \in Params |-> <<>>]
MCNext == E1 \/ E2
MCSpec == (IF Regs THEN MCInitR ELSE MCInit) /\ [][MCNext]_mvars
View == <<[p \in Params |-> [k \in 1..Len(pend[p]) |-> <<pend[p][k].t, pend[p][k].n>>]], msg, prio, devs, devq, regs, [d \in Devs |-> [k \in 1..Len(queue[d]) |-> queue[d][k].p]], Len(hist)>>
Emit == hist' = hist \/ PrintT("SCRIPT " \o ToJson(hist'))
\* nothing inserted is forgotten before it is sent, in the order in which it came
Kept == \A p \in Params : Vals(pend[p]) = due[p]
SentOk == \A p \in Params : /\ \A pol \in {"plain", "ordered", "priorized"} : Sent(pol, p) = due[p]
                             /\ Sent("merged", p) = IF due[p] = <<>> THEN <<>> ELSE <<due[p][Len(due[p])]>>
\* what a registered parameter received waits for the next tick
Heard == \A p \in Params : Only(queue[DevOf(p)], p) = dueq[p]
NoReg == \A p \in Params : regs[p] > 0 => DevOf(p) \in devs
=============================================================================
