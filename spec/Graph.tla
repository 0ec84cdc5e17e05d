------------------------------- MODULE Graph --------------------------------
(* A dataflow graph (ossia/dataflow/graph): nodes with value ports, edges     *)
(* between them, and the ticks in which the nodes that were requested run.    *)
(*                                                                            *)
(* Edge kinds: G   immediate glutton (falls back on the environment when the  *)
(*                 other side is not running)                                 *)
(*             S   immediate strict, both sides required                      *)
(*             SI  strict, the writer requires the reader to run              *)
(*             SO  strict, the reader requires the writer to run              *)
(*             DG  delayed glutton,  DS  delayed strict: a queue of what the  *)
(*                 writer wrote in each tick                                  *)
(*             P   pure dependency, without ports                             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Nodes, Params
VARIABLES
  nd,     \* node -> [live, t, ing, mute, sd, ed, ia, oa, req]  (t: kind of its ports, v value, m MIDI, a audio; ia, oa: address of each inlet, outlet; 0: none)
  eds,    \* sequence of edges, in the order of their connection
  pv,     \* parameter -> value
  ordered,\* the graph also orders nodes through the addresses they use
  tk      \* the tick under way
gvars == <<nd, eds, pv, ordered, tk>>

NoNode == [live |-> FALSE, t |-> "v", ing |-> FALSE, mute |-> FALSE, sd |-> FALSE, ed |-> FALSE, ia |-> <<>>, oa |-> <<>>, req |-> <<>>]
Idle == [on |-> FALSE, todo |-> {}, now |-> <<>>, done |-> {}, outs |-> <<>>, loc |-> <<>>, out |-> {}]
GInit(o) == /\ nd = [n \in Nodes |-> NoNode] /\ eds = <<>> /\ pv = [p \in Params |-> 0]
            /\ ordered = o /\ tk = Idle

Ids == {eds[i].id : i \in 1..Len(eds)}
Edge(id, k, o, op, i, ip) == [id |-> id, k |-> k, o |-> o, op |-> op, i |-> i, ip |-> ip, buf |-> <<>>, pos |-> 0]
Flat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o s[i] IN F[Len(s)]

\* ---------------------------------------------------------------- editing
Create(n, t, ia, oa) == /\ ~tk.on /\ ~nd[n].live
                     /\ nd' = [nd EXCEPT ![n] = [NoNode EXCEPT !.live = TRUE, !.t = t, !.ing = TRUE, !.ia = ia, !.oa = oa]]
                     /\ UNCHANGED <<eds, pv, ordered, tk>>
Without(n) == SelectSeq(eds, LAMBDA x : x.o # n /\ x.i # n)
Take(n) == /\ ~tk.on /\ nd[n].live
           /\ nd' = [nd EXCEPT ![n].ing = FALSE] /\ eds' = Without(n) /\ UNCHANGED <<pv, ordered, tk>>
Put(n) == /\ ~tk.on /\ nd[n].live
          /\ nd' = [nd EXCEPT ![n].ing = TRUE] /\ UNCHANGED <<eds, pv, ordered, tk>>
Destroy(n) == /\ ~tk.on /\ nd[n].live
              /\ nd' = [nd EXCEPT ![n] = NoNode] /\ eds' = Without(n) /\ UNCHANGED <<pv, ordered, tk>>
\* connecting puts both nodes in the graph
Connect(x) == /\ ~tk.on /\ x.id \notin Ids /\ nd[x.o].live /\ nd[x.i].live
              /\ nd' = [n \in Nodes |-> IF n \in {x.o, x.i} THEN [nd[n] EXCEPT !.ing = TRUE] ELSE nd[n]]
              /\ eds' = Append(eds, x) /\ UNCHANGED <<pv, ordered, tk>>
Disconnect(id) == /\ ~tk.on /\ eds' = SelectSeq(eds, LAMBDA x : x.id # id) /\ UNCHANGED <<nd, pv, ordered, tk>>
Clear == /\ ~tk.on /\ eds' = <<>>
         /\ nd' = [n \in Nodes |-> IF nd[n].ing THEN NoNode ELSE nd[n]] /\ UNCHANGED <<pv, ordered, tk>>
Request(n, t) == /\ ~tk.on /\ nd[n].live /\ nd' = [nd EXCEPT ![n].req = Append(@, t)] /\ UNCHANGED <<eds, pv, ordered, tk>>
Mute(n, b) == /\ ~tk.on /\ nd[n].live /\ nd' = [nd EXCEPT ![n].mute = b] /\ UNCHANGED <<eds, pv, ordered, tk>>
Discontinuous(n, s, x) == /\ ~tk.on /\ nd[n].live
                          /\ nd' = [nd EXCEPT ![n].sd = s, ![n].ed = x] /\ UNCHANGED <<eds, pv, ordered, tk>>
SetParam(p, v) == /\ ~tk.on /\ pv' = [pv EXCEPT ![p] = v] /\ UNCHANGED <<nd, eds, ordered, tk>>

\* ---------------------------------------------------------------- who runs
\* n cannot run if the nodes in A are the ones that may
Barred(A, n) ==
  \/ nd[n].mute
  \/ \E i \in 1..Len(eds) : LET x == eds[i] IN
        \/ x.i = n /\ x.k \in {"S", "SO"} /\ x.o \notin A
        \/ x.o = n /\ x.k \in {"S", "SI"} /\ x.i \notin A
        \/ x.i = n /\ x.k = "DS" /\ x.pos >= Len(x.buf)
RECURSIVE Closure(_)
Closure(A) == LET B == {n \in A : ~Barred(A, n)} IN IF B = A THEN A ELSE Closure(B)
Runs == Closure({n \in Nodes : nd[n].ing /\ nd[n].req # <<>>})

\* ---------------------------------------------------------------- order
Writes(n) == {nd[n].oa[j] : j \in 1..Len(nd[n].oa)} \ {0}
Reads(n) == {nd[n].ia[j] : j \in 1..Len(nd[n].ia)} \ {0}
EdgeRel == {<<eds[i].o, eds[i].i>> : i \in 1..Len(eds)}
AddrRel == {r \in Nodes \X Nodes : r[1] # r[2] /\ nd[r[1]].ing /\ nd[r[2]].ing /\ Writes(r[1]) \cap Reads(r[2]) # {}}
RECURSIVE Cyclic(_, _)
Cyclic(R, N) == LET L == {n \in N : \A r \in R : ~(r[2] = n /\ r[1] \in N)} IN
                IF N = {} THEN FALSE ELSE IF L = {} THEN TRUE ELSE Cyclic(R, N \ L)
Acyclic == ~Cyclic(EdgeRel, Nodes)
\* addresses order the nodes when they can without contradiction
Rel == IF ordered /\ ~Cyclic(EdgeRel \cup AddrRel, Nodes) THEN EdgeRel \cup AddrRel ELSE EdgeRel

\* ---------------------------------------------------------------- a tick
Running == DOMAIN tk.now
TickStart == /\ ~tk.on /\ Acyclic
             /\ tk' = [on |-> TRUE, todo |-> Runs, now |-> <<>>, done |-> {}, outs |-> [n \in Nodes |-> <<>>],
                       loc |-> [p \in Params |-> <<>>], out |-> Runs]
             /\ UNCHANGED <<nd, eds, pv, ordered>>

\* what inlet j of n holds when n begins: one part per source
InEdges(n, j) == SelectSeq(eds, LAMBDA x : x.i = n /\ x.ip = j /\ x.k # "P")
OutEdges(n, j) == SelectSeq(eds, LAMBDA x : x.o = n /\ x.op = j /\ x.k # "P")
FromEnv(n, j) == LET s == InEdges(n, j) IN s = <<>> \/ \E i \in 1..Len(s) : s[i].k = "G" /\ s[i].o \notin tk.out
Env(p) == IF p = 0 THEN <<>> ELSE IF tk.loc[p] # <<>> THEN tk.loc[p] ELSE <<pv[p]>>
Given(x) == CASE nd[x.o].t # nd[x.i].t -> <<>>
              [] x.k \in {"G", "S", "SI", "SO"} -> IF x.o \in tk.out /\ tk.outs[x.o] # <<>> THEN tk.outs[x.o][x.op] ELSE <<>>
              [] x.k \in {"DG", "DS"} -> IF x.pos < Len(x.buf) THEN x.buf[x.pos + 1] ELSE <<>>
InParts(n, j) == LET s == InEdges(n, j) IN
                 <<IF FromEnv(n, j) THEN Env(nd[n].ia[j]) ELSE <<>> >> \o [i \in 1..Len(s) |-> Given(s[i])]
\* v is made of every part, each in its order, and nothing more; audio is summed
RECURSIVE MadeOf(_, _)
Drop(s, i) == [k \in 1..Len(s) - 1 |-> IF k < i THEN s[k] ELSE s[k + 1]]
MadeOf(v, parts) ==
  IF parts = <<>> THEN v = <<>>
  ELSE \E i \in 1..Len(parts) : /\ Len(parts[i]) <= Len(v) /\ SubSeq(v, 1, Len(parts[i])) = parts[i]
                               /\ MadeOf(SubSeq(v, Len(parts[i]) + 1, Len(v)), Drop(parts, i))
RECURSIVE Sum(_, _)
Sum(parts, k) == IF parts = <<>> THEN 0 ELSE (IF k <= Len(parts[1]) THEN parts[1][k] ELSE 0) + Sum(Tail(parts), k)
Longest(parts) == LET L == {Len(parts[i]) : i \in 1..Len(parts)} IN CHOOSE m \in L : \A x \in L : x <= m
Holds(v, parts, t) ==
  IF t = "a" THEN Len(v) = Longest(parts) /\ \A k \in 1..Len(v) : v[k] = Sum(parts, k)
  ELSE MadeOf(v, SelectSeq(parts, LAMBDA x : x # <<>>))

MayBegin(n) == n \in tk.todo /\ \A r \in Rel : r[2] = n => r[1] \notin tk.todo \cup Running
\* n begins its k-th request of the tick
Begin(n, t, ins, sd, ed) ==
  /\ tk.on
  /\ IF n \in tk.todo
     THEN /\ MayBegin(n) /\ t = nd[n].req[1]
          /\ sd = nd[n].sd /\ ed = nd[n].ed
          /\ Len(ins) = Len(nd[n].ia) /\ \A j \in 1..Len(ins) : (Holds(ins[j], InParts(n, j), nd[n].t) = TRUE)
          /\ tk' = [tk EXCEPT !.todo = @ \ {n}, !.now = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN [k |-> 1, in |-> ins, busy |-> TRUE] ELSE @[m]],
                              !.outs[n] = [j \in 1..Len(nd[n].oa) |-> <<>>]]
          /\ nd' = [nd EXCEPT ![n].sd = FALSE, ![n].ed = FALSE]
          /\ eds' = [i \in 1..Len(eds) |-> IF eds[i].i = n /\ eds[i].pos < Len(eds[i].buf) THEN [eds[i] EXCEPT !.pos = @ + 1] ELSE eds[i]]
     ELSE /\ n \in Running /\ ~tk.now[n].busy /\ tk.now[n].k < Len(nd[n].req)
          /\ t = nd[n].req[tk.now[n].k + 1] /\ ~sd /\ ~ed
          /\ ins = tk.now[n].in
          /\ tk' = [tk EXCEPT !.now[n].k = @ + 1, !.now[n].busy = TRUE]
          /\ UNCHANGED <<nd, eds>>
  /\ UNCHANGED <<pv, ordered>>

\* the values that leave outlet j of n for the environment
ToEnv(n, j) == LET s == OutEdges(n, j) IN s = <<>> \/ \E i \in 1..Len(s) : s[i].k = "G" /\ s[i].i \notin tk.out
RECURSIVE EnvAfter(_, _, _, _)
EnvAfter(loc, n, outs, j) ==
  IF j > Len(outs) THEN loc
  ELSE LET p == nd[n].oa[j] IN
       EnvAfter(IF p # 0 /\ ToEnv(n, j) THEN [loc EXCEPT ![p] = @ \o outs[j]] ELSE loc, n, outs, j + 1)
\* n finishes a request, during which it wrote w[j] on its outlet j
End(n, w) ==
  /\ tk.on /\ n \in Running /\ tk.now[n].busy /\ Len(w) = Len(nd[n].oa)
  /\ LET outs == [j \in 1..Len(w) |-> tk.outs[n][j] \o w[j]]
         last == tk.now[n].k = Len(nd[n].req) IN
     IF last
     THEN /\ tk' = [tk EXCEPT !.outs[n] = outs, !.now = [m \in DOMAIN @ \ {n} |-> @[m]], !.done = @ \cup {n}, !.loc = EnvAfter(@, n, outs, 1)]
          /\ eds' = [i \in 1..Len(eds) |-> IF eds[i].o = n /\ eds[i].k \in {"DG", "DS"} THEN [eds[i] EXCEPT !.buf = Append(@, outs[eds[i].op])] ELSE eds[i]]
     ELSE /\ tk' = [tk EXCEPT !.outs[n] = outs, !.now[n].busy = FALSE] /\ UNCHANGED eds
  /\ UNCHANGED <<nd, pv, ordered>>

\* every node that could run did; what is left in the environment is sent
\* and all requests are gone
TickEnd == /\ tk.on /\ tk.todo = {} /\ Running = {}
           /\ nd' = [n \in Nodes |-> IF nd[n].ing THEN [nd[n] EXCEPT !.req = <<>>] ELSE nd[n]]
           /\ pv' = [p \in Params |-> IF tk.loc[p] = <<>> THEN pv[p] ELSE tk.loc[p][Len(tk.loc[p])]]
           /\ tk' = Idle /\ UNCHANGED <<eds, ordered>>

\* ---------------------------------------------------------------- checked
OneState == tk.on => tk.todo \cap Running = {} /\ tk.todo \cap tk.done = {} /\ Running \cap tk.done = {}
\* a node with something left to read never overtakes the node it reads from
Ordered == tk.on => \A r \in EdgeRel : (r[2] \in Running \cup tk.done) => r[1] \notin tk.todo \cup Running
\* no node waits forever: some node can go on as long as one is left
Live == (tk.on /\ tk.todo # {} /\ Running = {}) => \E n \in tk.todo : MayBegin(n)
Delays == \A i \in 1..Len(eds) : eds[i].pos <= Len(eds[i].buf)
=============================================================================
