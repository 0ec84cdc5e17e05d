------------------------------ MODULE GraphMC -------------------------------
EXTENDS Graph, TLC, Json
CONSTANTS MaxLen, MaxEdges, MaxTicks, Kinds
VARIABLES hist, c
H(x) == hist' = Append(hist, x) /\ UNCHANGED c
\* node 1 writes parameter 1, node 3 reads it
Ia(n) == IF n = 3 THEN <<1>> ELSE <<0>>
Oa(n) == IF n = 1 THEN <<1>> ELSE <<0>>
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}
MCInit == /\ nd = [n \in Nodes |-> [NoNode EXCEPT !.live = TRUE, !.ing = TRUE, !.ia = Ia(n), !.oa = Oa(n)]]
          /\ eds = <<>> /\ pv = [p \in Params |-> 0] /\ ordered = TRUE /\ tk = Idle
          /\ hist = <<>> /\ c = 1
NTicks == Len(SelectSeq(hist, LAMBDA x : x[1] = "tick"))
NEdges == Len(SelectSeq(hist, LAMBDA x : x[1] = "edge"))
Ins(n) == [j \in 1..Len(nd[n].ia) |-> Flat(InParts(n, j))]
ReqAll(S) == /\ nd' = [n \in Nodes |-> IF n \in S THEN [nd[n] EXCEPT !.req = IF n = 2 THEN <<1, 2>> ELSE <<1>>] ELSE nd[n]]
             /\ UNCHANGED <<eds, pv, ordered, tk>>
SeqOf(S) == [i \in 1..Cardinality(S) |-> CHOOSE n \in S : Cardinality({m \in S : m < n}) = i - 1]
MCNext ==
  \/ /\ ~tk.on /\ Len(hist) < MaxLen
     /\ \A n \in Nodes : nd[n].req = <<>>
     /\ \/ /\ NEdges < MaxEdges
           /\ \E k \in Kinds, p \in Pairs :
                 LET id == NEdges + 1 IN Connect(Edge(id, k, p[1], 1, p[2], 1)) /\ Acyclic'
                                         /\ H(<<"edge", id, k, p[1], 1, p[2], 1>>)
        \/ \E i \in 1..Len(eds) : NTicks > 0 /\ Disconnect(eds[i].id) /\ H(<<"del", eds[i].id>>)
        \/ \E n \in {2} : NTicks > 0 /\ nd[n].ing /\ Take(n) /\ H(<<"rm", n>>)
        \/ \E n \in {2} : ~nd[n].ing /\ Put(n) /\ H(<<"add", n>>)
        \/ \E n \in Nodes : ~nd[n].mute /\ Mute(n, TRUE) /\ H(<<"mute", n, TRUE>>)
        \/ NTicks < MaxTicks /\ \E S \in SUBSET {m \in Nodes : nd[m].ing} : S # {} /\ ReqAll(S) /\ H(<<"tick", SeqOf(S) \o (IF 2 \in S THEN <<2>> ELSE <<>>)>>)
  \/ ~tk.on /\ (\E n \in Nodes : nd[n].req # <<>>) /\ TickStart /\ UNCHANGED <<hist, c>>
  \/ \E n \in tk.todo : Begin(n, nd[n].req[1], Ins(n), nd[n].sd, nd[n].ed) /\ UNCHANGED <<hist, c>>
  \/ \E n \in Running : tk.now[n].k < Len(nd[n].req) /\ Begin(n, nd[n].req[tk.now[n].k + 1], tk.now[n].in, FALSE, FALSE) /\ UNCHANGED <<hist, c>>
  \/ \E n \in Running : End(n, <<<<c>>>>) /\ c' = c + 1 /\ UNCHANGED hist
  \/ TickEnd /\ UNCHANGED <<hist, c>>
View == <<gvars, NTicks, NEdges, Len(hist)>>
MCSpec == MCInit /\ [][MCNext]_<<gvars, hist, c>>
Emit == hist' = hist \/ PrintT("SCRIPT " \o ToJson(hist'))
\* an inlet is given a value once, unless it has several edges
Twice == \E a, b \in 1..Len(eds) : a # b /\ eds[a].k # "P" /\ eds[b].k # "P" /\ eds[a].i = eds[b].i
ReadOnce == Twice \/ \A n \in Running : \A j \in 1..Len(tk.now[n].in) : LET v == tk.now[n].in[j] IN
              \A a, b \in 1..Len(v) : a # b => v[a] # v[b]
=============================================================================
