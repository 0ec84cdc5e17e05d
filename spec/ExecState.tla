----------------------------- MODULE ExecState ------------------------------
(* The execution state of a tick (ossia/dataflow/execution_state): what the   *)
(* nodes of a tick insert for each parameter until it is committed, what they *)
(* read meanwhile, and the queues of values received by the parameters that   *)
(* event inlets registered.                                                   *)
(*                                                                            *)
(* A value is a sequence of numbers: one for INT parameters, three for the    *)
(* vector; a message with an index sets one component.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Params, Vecs, Devs, DevOf(_), Inlets, AParams, Frames
VARIABLES
  cur,    \* parameter -> its value
  pend,   \* parameter -> sequence of [v, i, t, n, m]: value, index (0: none), timestamp, position in the tick
          \* (between n and m: the order of the parameters of a path is free)
  msg,    \* messages of the tick so far
  prio,   \* parameter -> priority
  apend,  \* audio parameter -> channels waiting to be sent (<<>>: none)
  acur,   \* audio parameter -> channels of its buffer
  devs,   \* devices known to the tick
  devq,   \* devices to be added or removed when the next tick begins
  inl,    \* inlet -> [t: parameters, path, loc, glob, ev]
  regs,   \* parameter -> how many registered inlets it has
  queue,  \* device -> values received since the last tick
  recv    \* parameter -> values received before this tick
evars == <<cur, pend, msg, prio, apend, acur, devs, devq, inl, regs, queue, recv>>

Zero(p) == IF p \in Vecs THEN <<0, 0, 0>> ELSE <<0>>
Silence == [c \in {1, 2} |-> [f \in 1..Frames |-> 0]]
NoInlet == [t |-> {}, path |-> FALSE, loc |-> FALSE, glob |-> FALSE, ev |-> FALSE]
EInit == /\ cur = [p \in Params |-> Zero(p)] /\ pend = [p \in Params |-> <<>>] /\ msg = 0
         /\ prio = [p \in Params |-> 0] /\ apend = [a \in AParams |-> <<>>] /\ acur = [a \in AParams |-> Silence]
         /\ devs = {} /\ devq = <<>> /\ inl = [i \in Inlets |-> NoInlet]
         /\ regs = [p \in Params |-> 0] /\ queue = [d \in Devs |-> <<>>] /\ recv = [p \in Params |-> <<>>]

Big(S) == CHOOSE x \in S : \A y \in S : y <= x
\* what parameter p holds once it is given message m
After(c, m) == IF m.i = 0 THEN m.v ELSE [c EXCEPT ![m.i] = m.v[1]]
Outs(c, ms) == LET F[k \in 0..Len(ms)] == IF k = 0 THEN <<c>> ELSE Append(F[k - 1], After(F[k - 1][k], ms[k])) IN Tail(F[Len(ms)])
Received(q, p, v) == IF regs[p] > 0 THEN [q EXCEPT ![DevOf(p)] = Append(@, [p |-> p, v |-> v])] ELSE q

\* ---------------------------------------------------------------- inserting
Place(ps, m, replace) ==
  LET S == {k \in 1..Len(ps) : ps[k].t = m.t} IN
  IF replace /\ S # {} THEN LET k == CHOOSE x \in S : \A y \in S : x <= y IN [ps EXCEPT ![k] = [m EXCEPT !.n = ps[k].n, !.m = ps[k].m]]
  ELSE Append(ps, m)
Places(ps, ms, replace) == LET F[k \in 0..Len(ms)] == IF k = 0 THEN ps ELSE Place(F[k - 1], ms[k], replace) IN F[Len(ms)]
Message(v, i, t, n, m) == [v |-> v, i |-> i, t |-> t, n |-> n, m |-> m]
\* the values of a port, [v, t] each
PortData(vs, replace) == Places(<<>>, [k \in 1..Len(vs) |-> Message(vs[k].v, 0, vs[k].t, k, k)], replace)
InsertPort(T, vs, i, replace) ==
  LET d == PortData(vs, replace) IN
  /\ pend' = [p \in Params |-> IF p \in T THEN Places(pend[p], [k \in 1..Len(d) |-> Message(d[k].v, i, d[k].t, msg + k - 1, msg + k - 1 + (Cardinality(T) - 1) * Len(d))], replace) ELSE pend[p]]
  /\ msg' = msg + Cardinality(T) * Len(d)
  /\ UNCHANGED <<cur, prio, apend, acur, devs, devq, inl, regs, queue, recv>>
Insert(p, v, i, t) == /\ pend' = [pend EXCEPT ![p] = Append(@, Message(v, i, t, msg, msg))] /\ msg' = msg + 1
                      /\ UNCHANGED <<cur, prio, apend, acur, devs, devq, inl, regs, queue, recv>>
\* ms: sequence of [p, v, i]
InsertState(ms) == LET F[k \in 0..Len(ms)] == IF k = 0 THEN pend ELSE [F[k - 1] EXCEPT ![ms[k].p] = Append(@, Message(ms[k].v, ms[k].i, 0, msg + k - 1, msg + k - 1))] IN
                   /\ pend' = F[Len(ms)] /\ msg' = msg + Len(ms)
                   /\ UNCHANGED <<cur, prio, apend, acur, devs, devq, inl, regs, queue, recv>>
Mix(a, b) == [c \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |->
               LET x == IF c <= Len(a) THEN a[c] ELSE <<>>  y == IF c <= Len(b) THEN b[c] ELSE <<>> IN
               [f \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) |->
                  (IF f <= Len(x) THEN x[f] ELSE 0) + (IF f <= Len(y) THEN y[f] ELSE 0)]]
InsertAudio(a, s) == /\ apend' = [apend EXCEPT ![a] = Mix(@, s)]
                     /\ UNCHANGED <<cur, pend, msg, prio, acur, devs, devq, inl, regs, queue, recv>>
SetAudio(a, s) == /\ acur' = [acur EXCEPT ![a] = s]
                  /\ UNCHANGED <<cur, pend, msg, prio, apend, devs, devq, inl, regs, queue, recv>>
Priority(p, x) == prio' = [prio EXCEPT ![p] = x] /\ UNCHANGED <<cur, pend, msg, apend, acur, devs, devq, inl, regs, queue, recv>>

\* ---------------------------------------------------------------- sending
\* the values out (sequence of [p, v]) reach the parameters one after the other
Reach(out) ==
  LET Q[k \in 0..Len(out)] == IF k = 0 THEN queue ELSE Received(Q[k - 1], out[k].p, out[k].v) IN
  /\ queue' = Q[Len(out)]
  /\ cur' = [p \in Params |-> LET S == {k \in 1..Len(out) : out[k].p = p} IN IF S = {} THEN cur[p] ELSE out[Big(S)].v]
\* what parameter p is sent
Sent(pol, p) == LET o == Outs(cur[p], pend[p]) IN
                IF o = <<>> THEN <<>> ELSE IF pol = "merged" THEN <<o[Len(o)]>> ELSE o
Only(out, p) == LET s == SelectSeq(out, LAMBDA x : x.p = p) IN [k \in 1..Len(s) |-> s[k].v]
Late(p) == Big({0} \cup {pend[p][k].t : k \in 1..Len(pend[p])})
First(p) == Big({0} \cup {pend[p][k].n : k \in 1..Len(pend[p])})
Last(p) == Big({0} \cup {pend[p][k].m : k \in 1..Len(pend[p])})
\* p is sent before q
Before(pol, p, q) ==
  LET tn == Late(p) < Late(q) \/ (Late(p) = Late(q) /\ Last(p) < First(q)) IN
  CASE pol = "ordered" -> tn
    [] pol = "priorized" -> prio[p] < prio[q] \/ (prio[p] = prio[q] /\ tn)
    [] OTHER -> FALSE
Commit(pol, out) ==
  /\ \A k \in 1..Len(out) : out[k].p \in Params
  /\ \A p \in Params : Only(out, p) = Sent(pol, p)
  /\ \A j \in 1..Len(out) : \A k \in 1..Len(out) : j < k /\ out[j].p # out[k].p => ~Before(pol, out[k].p, out[j].p)
  /\ Reach(out)
  /\ pend' = [p \in Params |-> <<>>]
  /\ acur' = [a \in AParams |-> [c \in {1, 2} |-> [f \in 1..Frames |-> acur[a][c][f]
                 + (IF c <= Len(apend[a]) THEN IF f <= Len(apend[a][c]) THEN apend[a][c][f] ELSE 0 ELSE 0)]]]
  /\ apend' = [a \in AParams |-> <<>>]
  /\ UNCHANGED <<msg, prio, devs, devq, inl, regs, recv>>
\* an outlet that only writes to the device sends at once
Direct(T, vs, out) ==
  /\ \A p \in Params : Only(out, p) = (IF p \in T THEN [k \in 1..Len(vs) |-> vs[k].v] ELSE <<>>)
  /\ \A k \in 1..Len(out) : out[k].p \in T
  /\ Reach(out) /\ UNCHANGED <<pend, msg, prio, apend, acur, devs, devq, inl, regs, recv>>
\* a value comes from outside
Comes(p, v) == /\ cur' = [cur EXCEPT ![p] = v] /\ queue' = Received(queue, p, v)
               /\ UNCHANGED <<pend, msg, prio, apend, acur, devs, devq, inl, regs, recv>>

\* ---------------------------------------------------------------- receiving
DevAsk(d, add) == /\ devq' = Append(devq, [d |-> d, add |-> add])
                  /\ UNCHANGED <<cur, pend, msg, prio, apend, acur, devs, inl, regs, queue, recv>>
Make(i, x) == inl' = [inl EXCEPT ![i] = x] /\ UNCHANGED <<cur, pend, msg, prio, apend, acur, devs, devq, regs, queue, recv>>
\* the parameters an inlet stands for
Targets(x) == IF x.path THEN {p \in x.t : DevOf(p) \in devs} ELSE x.t
Register(i) == /\ regs' = [p \in Params |-> IF inl[i].ev /\ p \in Targets(inl[i]) /\ DevOf(p) \in devs THEN regs[p] + 1 ELSE regs[p]]
               /\ UNCHANGED <<cur, pend, msg, prio, apend, acur, devs, devq, inl, queue, recv>>
Unregister(i) == /\ regs' = [p \in Params |-> IF inl[i].ev /\ p \in Targets(inl[i]) /\ regs[p] > 0 THEN regs[p] - 1 ELSE regs[p]]
                 /\ UNCHANGED <<cur, pend, msg, prio, apend, acur, devs, devq, inl, queue, recv>>
\* the tick begins: what was received is handed out, then the devices change
BeginTick ==
  LET D[k \in 0..Len(devq)] == IF k = 0 THEN devs ELSE IF devq[k].add THEN D[k - 1] \cup {devq[k].d} ELSE D[k - 1] \ {devq[k].d}
      gone == {devq[k].d : k \in {j \in 1..Len(devq) : ~devq[j].add}} IN
  /\ msg' = 0
  /\ recv' = [p \in Params |-> Only(queue[DevOf(p)], p)]
  /\ queue' = [d \in Devs |-> <<>>]
  /\ devs' = D[Len(devq)] /\ devq' = <<>>
  /\ regs' = [p \in Params |-> IF DevOf(p) \in gone THEN 0 ELSE regs[p]]
  /\ UNCHANGED <<cur, pend, prio, apend, acur, inl>>

\* ---------------------------------------------------------------- reading
Vals(ps) == [k \in 1..Len(ps) |-> ps[k].v]
Content(x, p) == IF x.loc /\ pend[p] # <<>> THEN Vals(pend[p])
                 ELSE IF ~x.glob THEN <<>>
                 ELSE IF x.ev THEN recv[p] ELSE <<cur[p]>>
RECURSIVE MadeOf(_, _)
MadeOf(v, S) == IF S = {} THEN v = <<>>
                ELSE \E s \in S : /\ Len(s.c) <= Len(v) /\ SubSeq(v, 1, Len(s.c)) = s.c
                                  /\ MadeOf(SubSeq(v, Len(s.c) + 1, Len(v)), S \ {s})
Reads(i, v) == LET x == inl[i] IN MadeOf(v, {[p |-> p, c |-> Content(x, p)] : p \in Targets(x)})
\* an inlet that reads audio gets what was inserted, else the buffer
\* (channels without anything at the end do not count)
Trim(s) == SubSeq(s, 1, Big({0} \cup {c \in 1..Len(s) : s[c] # <<>>}))
ReadsAudio(a, loc, glob, s) == Trim(s) = Trim(IF loc /\ \E c \in 1..Len(apend[a]) : apend[a][c] # <<>> THEN apend[a]
                                   ELSE IF glob THEN acur[a] ELSE <<>>)
InScope(p) == pend[p] # <<>>
=============================================================================
