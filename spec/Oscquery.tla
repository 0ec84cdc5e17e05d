------------------------------ MODULE Oscquery ------------------------------
(* An OSCQuery server, its clients, and the device each client keeps as a    *)
(* mirror of the server's.                                                   *)
(*                                                                           *)
(* A path is the sequence of the names on the way from the root.  A tree is  *)
(* a function from paths to nodes [t, v, at]: the type of the parameter      *)
(* ("NONE" without one), its value, the attributes that are set.             *)
(*                                                                           *)
(* What the server tells about its tree goes through one ordered channel per *)
(* client: nodes added, removed, renamed, attributes changed.  Values go     *)
(* either the same way (critical parameters) or by datagrams, so that both   *)
(* kinds overtake each other: `pend' holds the first, `due' the second and   *)
(* the critical values.  A value that arrives for a node which is not there  *)
(* (any more, or yet) is lost: that is a race of the protocol, and the       *)
(* stamps tell such values apart.  A stamp identifies one change of one      *)
(* parameter of the server; a mirror's stamp says which of them it shows.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  srv,     \* the server's tree
  mir,     \* client |-> its mirror's tree
  synced,  \* clients whose mirror has to become the image of the server
  heard,   \* clients that the server knows
  pend,    \* client |-> what it is still to be told about the tree
  due,     \* values on their way: [to, from, p, v, tr, must, s]
  echo,    \* does the server pass on the values it receives
  stamp,   \* path |-> stamp of the server's value
  shown,   \* client |-> (path |-> stamp of the mirror's value)
  clock
qvars == <<srv, mir, synced, heard, pend, due, echo, stamp, shown, clock>>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Subtree(T, p) == {q \in DOMAIN T : Prefix(p, q)}
Moved(q, p, n) == IF Prefix(p, q) THEN n \o SubSeq(q, Len(p) + 1, Len(q)) ELSE q
Back(q, p, n) == IF Prefix(n, q) THEN p \o SubSeq(q, Len(n) + 1, Len(q)) ELSE q
Kids(T, p) == {q[Len(q)] : q \in {r \in DOMAIN T : Len(r) = Len(p) + 1 /\ Prefix(p, r)}}
Restricted(f, S) == [x \in S |-> f[x]]
Without(T, p) == Restricted(T, DOMAIN T \ Subtree(T, p))
\* the nodes below p are called after n from now on
Renamed(T, p, n) == [q \in {Moved(r, p, n) : r \in DOMAIN T} |-> T[Back(q, p, n)]]
NoV == [t |-> "NONE", q |-> 0, s |-> "", l |-> <<>>]
Bare == [t |-> "NONE", v |-> NoV, at |-> {}]
Root == (<<>> :> Bare)
At(T, p, k) == LET S == {a \in T[p].at : a.k = k} IN IF S = {} THEN "" ELSE (CHOOSE a \in S : TRUE).x
WithAt(N, k, x) == [N EXCEPT !.at = {a \in @ : a.k # k} \cup (IF x = "" THEN {} ELSE {[k |-> k, x |-> x]})]
\* nothing but the parameter's own type decides what becomes of a value
Plain(T, p) == /\ At(T, p, "acc") = "" /\ At(T, p, "dis") = "" /\ At(T, p, "rep") = ""
               /\ (At(T, p, "bnd") = "" \/ At(T, p, "dom") = "") /\ At(T, p, "unit") = "" /\ At(T, p, "ext") = ""
               /\ T[p].t \notin {"IMPULSE", "NONE"}
HasPar(T, p) == p \in DOMAIN T /\ T[p].t # "NONE"
Way(T, p) == IF At(T, p, "crit") = "" THEN "udp" ELSE "ws"
Tell(m) == [c \in DOMAIN pend |-> IF c \in heard THEN Append(pend[c], m) ELSE pend[c]]
TellAll(ms) == [c \in DOMAIN pend |-> IF c \in heard THEN pend[c] \o ms ELSE pend[c]]
Note(k, p, q) == [k |-> k, p |-> p, q |-> q, n |-> Bare]
\* the attribute a of p changed, p is N since
Change(a, p, N) == [k |-> "ATTR", p |-> p, q |-> <<a>>, n |-> N]
Clients == DOMAIN mir
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
QInit == /\ srv = Root /\ mir = <<>> /\ synced = {} /\ heard = {} /\ pend = <<>> /\ due = <<>> /\ echo = FALSE
         /\ stamp = (<<>> :> 0) /\ shown = <<>> /\ clock = 1
\* (how often an attribute is told is nobody's business, what it is in the end is)
Quiet == (\A c \in heard : \A i \in 1..Len(pend[c]) : pend[c][i].k = "ATTR") /\ {i \in 1..Len(due) : due[i].must} = {}
-----------------------------------------------------------------------------
(* clients *)
Join(m) ==
  /\ m \notin Clients /\ Quiet
  /\ mir' = mir @@ (m :> Root) /\ pend' = pend @@ (m :> <<>>) /\ shown' = shown @@ (m :> (<<>> :> 0))
  /\ heard' = heard \cup {m}
  /\ synced' = IF DOMAIN srv = {<<>>} /\ srv[<<>>].at = {} THEN synced \cup {m} ELSE synced
  /\ due' = <<>> /\ UNCHANGED <<srv, echo, stamp, clock>>
Leave(m) ==
  /\ m \in Clients /\ Quiet
  /\ mir' = Restricted(mir, Clients \ {m}) /\ pend' = Restricted(pend, Clients \ {m}) /\ shown' = Restricted(shown, Clients \ {m})
  /\ heard' = heard \ {m} /\ synced' = synced \ {m} /\ due' = <<>>
  /\ UNCHANGED <<srv, echo, stamp, clock>>
SetEcho(b) == echo' = b /\ UNCHANGED <<srv, mir, synced, heard, pend, due, stamp, shown, clock>>
-----------------------------------------------------------------------------
(* what happens to the server's tree *)
NewNodes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)} \ DOMAIN srv
RECURSIVE Added(_, _)
Added(p, i) == IF i > Len(p) THEN <<>> ELSE
  (IF SubSeq(p, 1, i) \in DOMAIN srv THEN <<>> ELSE <<Note("PATH_ADDED", SubSeq(p, 1, i), <<>>)>>) \o Added(p, i + 1)
Node(p) ==
  /\ srv' = [q \in NewNodes(p) |-> Bare] @@ srv
  /\ stamp' = [q \in NewNodes(p) |-> 0] @@ stamp
  /\ pend' = TellAll(Added(p, 1))
  /\ UNCHANGED <<mir, synced, heard, due, echo, shown, clock>>
\* a new parameter of type t, that shows something and may have an extended type by itself: it makes N of p
Param(p, t, N) ==
  /\ ~ HasPar(srv, p)
  /\ N.t = t /\ N.v.t = t
  /\ LET S == [q \in NewNodes(p) |-> Bare] @@ srv IN /\ {a \in N.at : a.k # "ext"} = {a \in S[p].at : a.k # "ext"}
                                                   /\ srv' = [S EXCEPT ![p] = N]
  /\ stamp' = (p :> clock) @@ ([q \in NewNodes(p) |-> 0] @@ stamp) /\ clock' = clock + 1
  /\ pend' = TellAll(Added(p, 1) \o <<Change("type", p, srv'[p])>>)
  /\ UNCHANGED <<mir, synced, heard, due, echo, shown>>
Remove(p) ==
  /\ p \in DOMAIN srv /\ p # <<>>
  /\ srv' = Without(srv, p) /\ stamp' = Without(stamp, p)
  /\ pend' = Tell(Note("PATH_REMOVED", p, <<>>))
  /\ UNCHANGED <<mir, synced, heard, due, echo, shown, clock>>
Rename(p, s) ==
  LET n == Parent(p) \o <<s>> IN
  /\ p \in DOMAIN srv /\ p # <<>> /\ n \notin DOMAIN srv
  /\ srv' = Renamed(srv, p, n) /\ stamp' = Renamed(stamp, p, n)
  /\ pend' = Tell(Note("PATH_RENAMED", p, n))
  /\ UNCHANGED <<mir, synced, heard, due, echo, shown, clock>>
\* attributes that say how to read a value: the rest of the node follows, N tells what it became
Shaping == {"type", "unit", "dom", "def", "ext"}
Attr(p, k, x, N) ==
  /\ p \in DOMAIN srv
  /\ IF k \in Shaping
     THEN /\ {a \in N.at : a.k \notin Shaping} = {a \in srv[p].at : a.k \notin Shaping}
          /\ k \in {"dom", "def", "ext"} => N.t = srv[p].t /\ N.v = srv[p].v
          /\ k = "type" => N.t = x
          /\ k \notin {"type", "unit"} => At([q \in {p} |-> N], p, k) = x
          /\ k = "unit" => (At([q \in {p} |-> N], p, k) = "" <=> x = "")
          /\ srv' = [srv EXCEPT ![p] = N]
          /\ IF N.v # srv[p].v THEN stamp' = [stamp EXCEPT ![p] = clock] /\ clock' = clock + 1 ELSE UNCHANGED <<stamp, clock>>
     ELSE srv' = [srv EXCEPT ![p] = WithAt(@, k, x)] /\ UNCHANGED <<stamp, clock>>
  /\ pend' = Tell(Change(k, p, srv'[p]))
  /\ UNCHANGED <<mir, synced, heard, due, echo, shown>>
-----------------------------------------------------------------------------
(* values *)
Packet(to, from, p, v, tr, must, s) == [to |-> to, from |-> from, p |-> p, v |-> v, tr |-> tr, must |-> must, s |-> s]
ToClients(S, p, v, must, s) == [i \in 1..Cardinality(S) |-> Packet(SeqOf(S)[i], 0, p, v, Way(srv, p), must, s)]
\* the owner of the server sets a value; w is what the parameter makes of it
SetServer(p, v, w) ==
  /\ HasPar(srv, p)
  /\ Plain(srv, p) /\ v.t = srv[p].t => w = v
  /\ srv' = [srv EXCEPT ![p].v = w]
  /\ stamp' = [stamp EXCEPT ![p] = clock] /\ clock' = clock + 1
  /\ due' = due \o ToClients(heard, p, w, Plain(srv, p), clock)
  /\ UNCHANGED <<mir, synced, heard, pend, echo, shown>>
\* a client sets a value on its mirror
SetMirror(m, p, v, w) ==
  LET T == mir[m] must == Plain(T, p) IN
  /\ m \in Clients /\ HasPar(T, p)
  /\ must /\ v.t = T[p].t => w = v
  /\ mir' = [mir EXCEPT ![m][p].v = w]
  /\ shown' = [shown EXCEPT ![m] = (p :> clock) @@ @] /\ clock' = clock + 1
  /\ due' = Append(due, Packet(0, m, p, w, Way(T, p), must, clock))
  /\ UNCHANGED <<srv, synced, heard, pend, echo, stamp>>
\* the i-th value on its way arrives; packets that did not have to be sent may turn out not to have been
Ours(to, from, p, tr) == {i \in 1..Len(due) : due[i].to = to /\ due[i].p = p /\ due[i].tr = tr /\ (to = 0 /\ tr = "ws" => due[i].from = from)}
\* (the first one; what follows one that may not have been sent is no longer known for sure)
Next1(to, from, p, tr) == {i \in Ours(to, from, p, tr) : \A j \in Ours(to, from, p, tr) : i <= j}
Drop(i) == [j \in 1..(Len(due) - 1) |->
             LET k == IF j < i THEN j ELSE j + 1 IN
             IF ~ due[i].must /\ due[k].to = due[i].to /\ due[k].p = due[i].p /\ due[k].tr = due[i].tr
             THEN [due[k] EXCEPT !.must = FALSE] ELSE due[k]]
ValueAtMirror(m, p, tr, i, w) ==
  LET T == mir[m] d == due[i] IN
  /\ m \in heard /\ i \in Next1(m, 0, p, tr)
  /\ IF HasPar(T, p)
     THEN LET exact == d.must /\ d.v.t = T[p].t /\ Plain(T, p) IN
          /\ exact => w = d.v
          /\ mir' = [mir EXCEPT ![m][p].v = w] /\ shown' = [shown EXCEPT ![m] = (p :> IF exact THEN d.s ELSE 0) @@ @]
     ELSE UNCHANGED <<mir, shown>>
  /\ due' = Drop(i)
  /\ UNCHANGED <<srv, synced, heard, pend, echo, stamp, clock>>
\* the server keeps the value and, if it echoes, passes it on to everybody but the sender
ValueAtServer(p, from, tr, i, w) ==
  LET d == due[i]
      exact == d.must /\ HasPar(srv, p) /\ d.v.t = srv[p].t /\ Plain(srv, p) IN
  /\ i \in Next1(0, from, p, tr)
  /\ IF HasPar(srv, p)
     THEN /\ exact => w = d.v
          /\ srv' = [srv EXCEPT ![p].v = w]
          /\ stamp' = [stamp EXCEPT ![p] = clock] /\ clock' = clock + 1
          /\ shown' = IF d.from \in Clients /\ p \in DOMAIN shown[d.from] /\ shown[d.from][p] = d.s
                      THEN [shown EXCEPT ![d.from][p] = IF exact THEN clock ELSE 0] ELSE shown
          /\ due' = Drop(i) \o (IF echo THEN ToClients(IF d.must THEN heard \ {d.from} ELSE heard, p, w, exact, clock) ELSE <<>>)
     ELSE UNCHANGED <<srv, stamp, clock, shown>> /\ due' = Drop(i)
  /\ UNCHANGED <<mir, synced, heard, pend, echo>>
-----------------------------------------------------------------------------
(* the mirror m learns what happened to the tree: T is what it becomes *)
Frame(m, T, S) == \A q \in (DOMAIN T \cup DOMAIN mir[m]) \ S : q \in DOMAIN T /\ q \in DOMAIN mir[m] /\ T[q] = mir[m][q]
Expect(m, k, p, q) ==
  LET I == {i \in 1..Len(pend[m]) : pend[m][i].k # "ATTR"} IN
  /\ I # {}
  /\ LET i == CHOOSE i \in I : \A j \in I : i <= j IN
     /\ pend[m][i] = Note(k, p, q)
     /\ pend' = [pend EXCEPT ![m] = SubSeq(@, i + 1, Len(@))]
Ancestors(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
ToldAdded(m, p, T) ==
  /\ Expect(m, "PATH_ADDED", p, <<>>)
  /\ IF p \in DOMAIN mir[m] \/ Parent(p) \in DOMAIN mir[m]
     THEN T = [q \in {p} |-> Bare] @@ mir[m] \/ (p \in DOMAIN mir[m] /\ T = mir[m])
     ELSE Frame(m, T, Ancestors(p))
  /\ mir' = [mir EXCEPT ![m] = T]
  /\ shown' = [shown EXCEPT ![m] = @ @@ [q \in Ancestors(p) |-> 0]]
  /\ UNCHANGED <<srv, synced, heard, due, echo, stamp, clock>>
\* (what is below a removed node may be told to be removed first)
ToldRemoved(m, p) ==
  /\ \/ Expect(m, "PATH_REMOVED", p, <<>>)
     \/ /\ \E i \in 1..Len(pend[m]) : /\ pend[m][i].k = "PATH_REMOVED" /\ Prefix(pend[m][i].p, p) /\ pend[m][i].p # p
                                      /\ \A j \in 1..(i - 1) : pend[m][j].k = "ATTR"
        /\ UNCHANGED pend
  /\ mir' = [mir EXCEPT ![m] = Without(@, p)] /\ shown' = [shown EXCEPT ![m] = Without(@, p)]
  /\ UNCHANGED <<srv, synced, heard, due, echo, stamp, clock>>
ToldRenamed(m, p, n) ==
  /\ Expect(m, "PATH_RENAMED", p, n)
  /\ mir' = [mir EXCEPT ![m] = IF p \in DOMAIN @ /\ n \notin DOMAIN @ THEN Renamed(@, p, n) ELSE @]
  /\ p \in DOMAIN mir[m] => n \notin DOMAIN mir[m]
  /\ shown' = [shown EXCEPT ![m] = Renamed(@, p, n)]
  /\ UNCHANGED <<srv, synced, heard, due, echo, stamp, clock>>
\* An attribute of p as it was when the message was sent: only p changes, and nothing but that
\* attribute unless it shapes the value; the value is asked for again then, and answered at once.
ToldAttr(m, p, k, T) ==
  /\ IF p \notin DOMAIN mir[m] THEN T = mir[m]
     ELSE /\ Frame(m, T, {p}) /\ p \in DOMAIN T
          /\ LET a == mir[m][p].at b == T[p].at IN
             IF k \in {"TYPE", "UNIT", "EXTENDED_TYPE", "RANGE"}
             THEN {x \in a : x.k \notin Shaping} = {x \in b : x.k \notin Shaping}
             ELSE T[p].t = mir[m][p].t /\ T[p].v = mir[m][p].v /\ Cardinality((a \ b) \cup (b \ a)) <= 2
                  /\ \A x, y \in (a \ b) \cup (b \ a) : x.k = y.k
  /\ mir' = [mir EXCEPT ![m] = T]
  /\ shown' = IF p \in DOMAIN T /\ (p \notin DOMAIN mir[m] \/ T[p] # mir[m][p]) /\ k \in {"TYPE", "UNIT", "EXTENDED_TYPE"}
              THEN [shown EXCEPT ![m] = (p :> IF HasPar(srv, p) /\ T[p].t = srv[p].t /\ T[p].v = srv[p].v THEN stamp[p] ELSE 0) @@ @] ELSE shown
  /\ UNCHANGED <<srv, synced, heard, pend, due, echo, stamp, clock>>
-----------------------------------------------------------------------------
(* questions *)
\* the whole of p: what the mirror has of it becomes what the server has of it
Update(m, p, T) ==
  /\ m \in Clients /\ p \in DOMAIN mir[m]
  /\ IF p \in DOMAIN srv
     THEN T = Restricted(srv, Subtree(srv, p)) @@ mir[m]
     ELSE T = mir[m]
  /\ mir' = [mir EXCEPT ![m] = T]
  /\ shown' = [shown EXCEPT ![m] = (IF p \in DOMAIN srv THEN Restricted(stamp, Subtree(stamp, p)) ELSE <<>>) @@ @]
  /\ synced' = IF p = <<>> /\ DOMAIN T = DOMAIN srv THEN synced \cup {m} ELSE synced
  /\ UNCHANGED <<srv, heard, pend, due, echo, stamp, clock>>
\* the value of p
Pull(m, p, ok, w) ==
  /\ m \in Clients /\ HasPar(mir[m], p)
  /\ ok = HasPar(srv, p)
  /\ IF ok
     THEN /\ (mir[m][p].t = srv[p].t /\ Plain(mir[m], p) /\ Plain(srv, p)) => w = srv[p].v
          /\ mir' = [mir EXCEPT ![m][p].v = w]
          /\ shown' = [shown EXCEPT ![m] = (p :> IF w = srv[p].v THEN stamp[p] ELSE 0) @@ @]
     ELSE UNCHANGED <<mir, shown>>
  /\ UNCHANGED <<srv, synced, heard, pend, due, echo, stamp, clock>>
\* a client asks the owner of the server to change its tree (and the owner here does as asked)
AskAdd(p, s) == p \in DOMAIN srv /\ p \o <<s>> \notin DOMAIN srv /\ Node(p \o <<s>>)
AskRemove(p) == Remove(p)
AskRename(p, s) == Rename(p, s)
\* what an HTTP answer says of p, and of its attribute k alone
Answer(p, k, n, n2, full, kids, keys, whole, alone) ==
  IF p \in DOMAIN srv
  THEN /\ n = 200 /\ full = p /\ {kids[i] : i \in 1..Len(kids)} = Kids(srv, p) /\ Len(kids) = Cardinality(Kids(srv, p))
       /\ k # "" => /\ \A i \in 1..Len(keys) : keys[i] = k
                    /\ IF whole \notin {"", "null"} THEN n2 = 200 /\ keys = <<k>> /\ alone = whole ELSE TRUE
  ELSE n # 200 /\ n2 # 200 /\ keys = <<>>
-----------------------------------------------------------------------------
(* What it is all for: when everything was delivered, a mirror that follows  *)
(* its server shows the same nodes with the same types and attributes, and   *)
(* the same value wherever the last one that reached it is the server's.     *)
Image(m) ==
  /\ DOMAIN mir[m] = DOMAIN srv
  /\ \A p \in DOMAIN srv : /\ mir[m][p].t = srv[p].t /\ mir[m][p].at = srv[p].at
                           /\ shown[m][p] = stamp[p] => mir[m][p].v = srv[p].v
Converged == Quiet => \A m \in synced : Image(m)
=============================================================================
