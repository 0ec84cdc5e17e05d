------------------------------- MODULE Preset -------------------------------
(* A device's tree of parameters and the presets that are taken from it and put
   back: in memory, as text, as JSON by node, and as a JSON document. *)
EXTENDS Value
CONSTANTS Nodes  \* the nodes there may be: [n |-> name, up |-> index of the parent (0: root)],
                 \* parents first, children in the order of their names
VARIABLES tree,  \* index -> [t, v, acc, safe, pr] of those that exist (t = "NONE": no parameter)
          slot,  \* presets: slot -> sequence of [k |-> key, v |-> value]
          js,    \* JSON by node: slot -> [ents, bef: what comes before what]
          obs    \* what the last operation returned and wrote
pvars == <<tree, slot, js, obs>>

N == Len(Nodes)
Bare == [t |-> "NONE", v |-> NoVal, acc |-> "BI", safe |-> FALSE, pr |-> -1000] \* (no priority: after all others)
In(i) == i \in DOMAIN tree
RECURSIVE Below(_, _), Key(_, _)
Below(n, i) == i # 0 /\ i # n /\ (Nodes[i].up = n \/ Below(n, Nodes[i].up))
Key(n, i) == IF i = n THEN "" ELSE Key(n, Nodes[i].up) \o "/" \o Nodes[i].n
Full(i) == Key(0, i)
Kids(n) == {i \in DOMAIN tree : Nodes[i].up = n}
RECURSIVE Sorted(_), Pre(_), Concat(_, _)
\* higher priorities first, then by name
Sorted(s) == IF s = {} THEN <<>> ELSE
  LET f == CHOOSE i \in s : \A j \in s : tree[i].pr > tree[j].pr \/ (tree[i].pr = tree[j].pr /\ i <= j) IN <<f>> \o Sorted(s \ {f})
Concat(s, i) == IF i > Len(s) THEN <<>> ELSE <<s[i]>> \o Pre(s[i]) \o Concat(s, i + 1)
Pre(n) == Concat(Sorted(Kids(n)), 1)

Saved(i) == tree[i].t \notin {"NONE", "IMPULSE"} /\ tree[i].acc = "BI"
Entries(n) == LET p == SelectSeq(Pre(n), Saved) IN [k \in 1..Len(p) |-> [k |-> Key(n, p[k]), v |-> tree[p[k]].v]]
\* of two nodes below n, the one that comes first because it is above the other
\* one or has a higher priority (of two that are equal any may come first)
RECURSIVE Chain(_, _)
Chain(n, i) == IF i = n THEN <<>> ELSE Append(Chain(n, Nodes[i].up), i)
Before(n, i, j) ==
  LET a == Chain(n, i) b == Chain(n, j)
      d == {k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k]}
  IN IF d = {} THEN Len(a) < Len(b) ELSE LET k == CHOOSE k \in d : \A m \in d : k <= m IN tree[a[k]].pr > tree[b[k]].pr

\* what JSON makes of a value
RECURSIVE Image(_), Alike(_, _)
Image(v) == CASE v.t = "CHAR" /\ v.q \in 128..504 -> Str(CharStr(v.q \div 4))
              [] IsVec(v) -> List(v.l)
              [] v.t = "LIST" -> List([i \in 1..Len(v.l) |-> Image(v.l[i])])
              [] OTHER -> v
Odd(v, w) == v.t = "CHAR" /\ v.q \notin 128..504 /\ w.t = "STRING"
Alike(v, w) == Same(Image(v), Image(w)) \/ Odd(v, w) \/ Odd(w, v)
\* pushing what was read: a list keeps what its elements became
AsVec(v) == [t |-> CASE Len(v.l) = 2 -> "VEC2F" [] Len(v.l) = 3 -> "VEC3F" [] OTHER -> "VEC4F", q |-> 0, s |-> "", l |-> v.l]
\* what a value that was read may become (lists of two to four decimals are
\* vectors, the components they do not have stay)
Written(v, i) ==
  LET t == tree[i].t c == tree[i].v IN
  IF v.t = "CHAR" /\ t = "CHAR" THEN {v}
  ELSE IF t \in VecTypes /\ IsVec(v) THEN {Conv(v, t, c)}
  ELSE {Conv(Image(v), t, c)} \cup (IF t \in VecTypes /\ v.t = "LIST" /\ Len(v.l) \in 2..4 /\ (\A x \in 1..Len(v.l) : v.l[x].t = "FLOAT") THEN {Conv(AsVec(v), t, c)} ELSE {})
Find(n, key) == {i \in DOMAIN tree : Below(n, i) /\ Key(n, i) = key}
Set(ws) == [i \in DOMAIN tree |-> LET k == {x \in 1..Len(ws) : ws[x].i = i} IN
            IF k = {} THEN tree[i] ELSE [tree[i] EXCEPT !.v = ws[CHOOSE x \in k : \A y \in k : y <= x].v]]
Out(ok, w, c) == [ok |-> ok, w |-> w, c |-> c]
Quiet == obs' = Out(TRUE, <<>>, <<>>)
Wr(i, v) == [i |-> i, v |-> v]

PInit == tree = <<>> /\ slot = <<>> /\ js = <<>> /\ obs = Out(TRUE, <<>>, <<>>)
RECURSIVE Ups(_)
Ups(i) == IF i = 0 THEN {} ELSE {i} \cup Ups(Nodes[i].up)
With(is) == [i \in DOMAIN tree \cup is |-> IF In(i) THEN tree[i] ELSE Bare]
New(i, t) == /\ tree' = [With(Ups(i)) EXCEPT ![i].t = t, ![i].v = IF In(i) /\ tree[i].t # "NONE" THEN Convert(tree[i].v, t) ELSE Zero(t)]
             /\ UNCHANGED <<slot, js>> /\ Quiet
Drop(i) == In(i) /\ tree' = [x \in {y \in DOMAIN tree : y # i /\ ~Below(i, y)} |-> tree[x]] /\ UNCHANGED <<slot, js>> /\ Quiet
Has(i) == In(i) /\ tree[i].t # "NONE"
SetVal(i, v) == Has(i) /\ tree' = [tree EXCEPT ![i].v = Conv(v, tree[i].t, tree[i].v)] /\ UNCHANGED <<slot, js>> /\ Quiet
SetAcc(i, a) == Has(i) /\ tree' = [tree EXCEPT ![i].acc = a] /\ UNCHANGED <<slot, js>> /\ Quiet
SetSafe(i, b) == In(i) /\ tree' = [tree EXCEPT ![i].safe = b] /\ UNCHANGED <<slot, js>> /\ Quiet
SetPrio(i, p) == In(i) /\ tree' = [tree EXCEPT ![i].pr = p] /\ UNCHANGED <<slot, js>> /\ Quiet

Bind(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Make(k, n) == slot' = Bind(slot, k, Entries(n)) /\ UNCHANGED <<tree, js>> /\ Quiet
\* to text and back
Text(k) == k \in DOMAIN slot /\ UNCHANGED <<tree, slot, js>> /\ Quiet
\* to a JSON document and back; res is what was read
Document(k, res) ==
  /\ k \in DOMAIN slot /\ Len(res) = Len(slot[k]) /\ (\A i \in 1..Len(res) : res[i].k = slot[k][i].k /\ Alike(res[i].v, slot[k][i].v))
  /\ slot' = Bind(slot, k, res) /\ UNCHANGED <<tree, js>> /\ Quiet
\* put back below n: what is there and not protected
TextWrites(k, n) ==
  LET s == SelectSeq(slot[k], LAMBDA e : \E i \in Find(n, e.k) : tree[i].t # "NONE" /\ ~tree[i].safe)
  IN [x \in 1..Len(s) |-> LET i == CHOOSE i \in Find(n, s[x].k) : TRUE IN Wr(i, Conv(s[x].v, tree[i].t, tree[i].v))]
\* w: what was written
ApplyTextAs(k, n, w) ==
  /\ k \in DOMAIN slot /\ UNCHANGED <<slot, js>>
  /\ LET want == TextWrites(k, n) IN
     /\ Len(w) = Len(want)
     /\ \A x \in 1..Len(w) : w[x].i = want[x].i /\ Same(w[x].v, want[x].v)
  /\ tree' = Set(w) /\ obs' = Out(TRUE, w, [x \in 1..Len(w) |-> w[x].i])
ApplyText(k, n) == k \in DOMAIN slot /\ ApplyTextAs(k, n, TextWrites(k, n))

\* JSON by node
MakeJson(k, n) ==
  /\ js' = Bind(js, k, [ents |-> Entries(n), bef |-> {<<Key(n, i), Key(n, j)>> : <<i, j>> \in {<<i, j>> \in (DOMAIN tree) \X (DOMAIN tree) :
        i # j /\ Below(n, i) /\ Below(n, j) /\ Saved(i) /\ Saved(j) /\ Before(n, i, j)}}])
  /\ UNCHANGED <<tree, slot>> /\ Quiet
Shielded(n, i) == \E x \in Ups(i) : (x = i \/ Below(x, i)) /\ Below(n, x) /\ tree[x].safe
JsonWrites(k, n) ==
  {e \in {js[k].ents[x] : x \in 1..Len(js[k].ents)} : \E i \in Find(n, e.k) : tree[i].t # "NONE" /\ ~Shielded(n, i)}
\* w: what was written, in any order that respects the priorities
ApplyJson(k, n, w) ==
  /\ k \in DOMAIN js /\ UNCHANGED <<slot, js>>
  /\ LET es == JsonWrites(k, n) IN
     /\ \A x, y \in 1..Len(w) : x # y => w[x].i # w[y].i
     /\ {w[x].i : x \in 1..Len(w)} = UNION {Find(n, e.k) : e \in es}
     /\ \A x \in 1..Len(w) : \E e \in es : w[x].i \in Find(n, e.k) /\ w[x].v.t = tree[w[x].i].t
          /\ (IF w[x].v.t = "LIST" THEN Alike(w[x].v, Convert(e.v, "LIST")) ELSE \E y \in Written(e.v, w[x].i) : Same(y, w[x].v))
     /\ \A x, y \in 1..Len(w) : x < y => <<Key(n, w[y].i), Key(n, w[x].i)>> \notin js[k].bef
     /\ tree' = Set(w) /\ obs' = Out(TRUE, w, [x \in 1..Len(w) |-> w[x].i])
\* something that is not JSON
BadJson == UNCHANGED <<tree, slot, js>> /\ obs' = Out(FALSE, <<>>, <<>>)

\* In memory, from the root, one after the other.  make: nodes that do not exist
\* are created; without it, or below a node with children when only leaves are
\* allowed (leaf), it stops with an error.
RECURSIVE Put(_, _, _, _), Target(_, _, _)
IndexOf(n, name) == {i \in 1..N : Nodes[i].up = n /\ Nodes[i].n = name}
Addr(key) == {i \in 1..N : Full(i) = key}
\* st: [tree, ok, w, c]
Target(tr, i, j) == \* the node that stands for j: x.0 may be x
  IF j = 0 THEN 0 ELSE
  LET u == Target(tr, i, Nodes[j].up)
      e == {x \in IndexOf(u, Nodes[j].n) : x \in DOMAIN tr}
      z == {x \in 1..N : Nodes[x].up = u /\ Nodes[j].n = Nodes[x].n \o ".0" /\ x \in DOMAIN tr}
  IN IF e # {} THEN CHOOSE x \in e : TRUE ELSE IF z # {} THEN CHOOSE x \in z : TRUE
     ELSE IF IndexOf(u, Nodes[j].n) = {} THEN j ELSE CHOOSE x \in IndexOf(u, Nodes[j].n) : TRUE
RECURSIVE NewOnes(_, _)
NewOnes(tr, j) == IF j = 0 \/ j \in DOMAIN tr THEN <<>> ELSE Append(NewOnes(tr, Nodes[j].up), j)
Put(es, st, make, leaf) ==
  IF es = <<>> \/ ~st.ok THEN st ELSE
  LET e == es[1] j0 == CHOOSE j \in Addr(e.k) : TRUE  j == Target(st.tree, j0, j0) new == NewOnes(st.tree, j)
  IN Put(Tail(es),
       IF ~make /\ (j \notin DOMAIN st.tree \/ st.tree[j].t = "NONE") /\ ~(leaf /\ j \in DOMAIN st.tree /\ \E x \in DOMAIN st.tree : Nodes[x].up = j)
       THEN [st EXCEPT !.ok = FALSE]
       ELSE IF leaf /\ (\E x \in DOMAIN st.tree : Nodes[x].up = j)
       THEN [st EXCEPT !.ok = FALSE]
       ELSE LET tr == [x \in DOMAIN st.tree \cup {new[y] : y \in 1..Len(new)} |-> IF x \in DOMAIN st.tree THEN st.tree[x] ELSE Bare]
                t == IF tr[j].t = "NONE" THEN e.v.t ELSE tr[j].t
                v == Conv(e.v, t, IF tr[j].t = "NONE" THEN Zero(t) ELSE tr[j].v)
            IN [tree |-> [tr EXCEPT ![j].t = t, ![j].v = v], ok |-> TRUE, w |-> Append(st.w, Wr(j, v)), c |-> st.c \o new],
       make, leaf)
ApplyMemory(k, make, leaf) ==
  /\ k \in DOMAIN slot /\ UNCHANGED <<slot, js>>
  /\ LET r == Put(slot[k], [tree |-> tree, ok |-> TRUE, w |-> <<>>, c |-> <<>>], make, leaf)
     IN tree' = r.tree /\ obs' = Out(r.ok, r.w, IF r.ok THEN r.c ELSE <<>>)
=============================================================================
