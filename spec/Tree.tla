-------------------------------- MODULE Tree --------------------------------
(* The device tree: names, addresses, parameters and the notifications a    *)
(* device sends about them.  A node is identified by its path, the sequence *)
(* of the names from below the root (<<>> is the root): sibling names being *)
(* unique, paths identify nodes.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES
  tree,    \* set of existing paths, <<>> included
  par,     \* subset of tree: the nodes that have a parameter
  dev,     \* name of the device
  log      \* notifications sent by the last operation
tvars == <<tree, par, dev, log>>

\* ---- names ---------------------------------------------------------------
Ch(s, i) == SubSeq(s, i, i)
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Legal == DigitSet \cup
  {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w",
   "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T",
   "U", "V", "W", "X", "Y", "Z", ".", "~", "_", "(", ")", "-", ":", " ", "="}
RECURSIVE Clean(_)
Clean(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Legal THEN Ch(s, 1) ELSE "_") \o Clean(SubSeq(s, 2, Len(s)))
ValidName(s) == Clean(s) = s

D10 == [v \in 0..9 |-> <<"0","1","2","3","4","5","6","7","8","9">>[v + 1]]
DigitVal(c) == CHOOSE v \in 0..9 : D10[v] = c
RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip0(SubSeq(s, 2, Len(s))) ELSE s
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
MaxInt == "2147483647"
\* s <= t for digit strings of the same length
RECURSIVE LexLe(_, _)
LexLe(s, t) == s = "" \/ (LET a == DigitVal(Ch(s, 1)) b == DigitVal(Ch(t, 1)) IN
                           a < b \/ (a = b /\ LexLe(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t)))))
RECURSIVE Val(_)
Val(s) == IF s = "" THEN 0 ELSE Val(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(Ch(s, Len(s)))
\* a 32 bit decimal number, with an optional sign; <<>> when s is not one
Parse(s) ==
  LET neg == s # "" /\ Ch(s, 1) = "-"
      sgn == s # "" /\ Ch(s, 1) \in {"-", "+"}
      d == IF sgn THEN SubSeq(s, 2, Len(s)) ELSE s
  IN IF ~AllDigits(d) THEN <<>>
     ELSE LET z == Strip0(d) IN
          IF Len(z) < 10 \/ (Len(z) = 10 /\ LexLe(z, MaxInt)) THEN << IF neg THEN 0 - Val(z) ELSE Val(z) >>
          ELSE IF neg /\ z = "2147483648" THEN << (0 - 2147483647) - 1 >> ELSE <<>>
LastDot(s) == LET D == {i \in 1..Len(s) : Ch(s, i) = "."} IN
              IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : j <= i
\* "a.12" is an instance of "a"
Root(s) == LET d == LastDot(s) IN
           IF d > 0 /\ Parse(SubSeq(s, d + 1, Len(s))) # <<>> THEN SubSeq(s, 1, d - 1) ELSE s
\* the instance numbers of a root among names
Instances(root, B) ==
  UNION {LET p == IF Len(b) > Len(root) /\ SubSeq(b, 1, Len(root) + 1) = root \o "." THEN Parse(SubSeq(b, Len(root) + 2, Len(b)))
                  ELSE <<>> IN {p[i] : i \in 1..Len(p)} : b \in B}
RECURSIVE Str(_)
Str(n) == IF n < 10 THEN D10[n] ELSE Str(n \div 10) \o D10[n % 10]
\* the name a node gets when `name` is requested among brothers called B
Fresh(name, B) ==
  LET c == Clean(name) IN
  IF c \notin B THEN c
  ELSE LET r == Root(c)
           I == Instances(r, B)
           m == IF I = {} THEN 0 ELSE CHOOSE x \in I : \A y \in I : y <= x
           N == IF m = 2147483647 THEN CHOOSE x \in 1..(Cardinality(I) + 1) : x \notin I /\ \A y \in 1..(x - 1) : y \in I
                ELSE m + 1
       IN r \o "." \o (IF N < 0 THEN "-" \o Str(0 - N) ELSE Str(N))

\* ---- the tree ------------------------------------------------------------
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
Names(T, p) == {Name(q) : q \in {x \in T : Len(x) = Len(p) + 1 /\ Prefix(p, x)}}
Below(p) == {q \in tree : Prefix(p, q) /\ q # p}
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE "/" \o p[1] \o Join(Tail(p))
Address(p) == IF p = <<>> THEN "/" ELSE Join(p)
FullAddress(p) == dev \o ":" \o Address(p)
\* number of occurrences
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
Before(x, y, s) == \A i, j \in DOMAIN s : s[i] = x /\ s[j] = y => i < j

\* ---- operations: each says how the tree changes and which notifications
\*      are due (nc/nr node created/removing, pc/pr parameter created/removing, rn renamed)
Keep == UNCHANGED dev
NoChange == /\ UNCHANGED <<tree, par>> /\ Keep /\ log' = <<>>
CreateChild(p, name) ==
  LET q == Append(p, Fresh(name, Names(tree, p))) IN
  /\ tree' = tree \cup {q} /\ log' = << <<"nc", q>> >> /\ UNCHANGED par /\ Keep
\* add_child: only a legal, free name is accepted
Addable(p, name) == ValidName(name) /\ name \notin Names(tree, p)
AddChild(p, name) == IF Addable(p, name) THEN CreateChild(p, name) ELSE NoChange
\* nodes of a requested path: the existing ones are walked through, the rest
\* is created; the last one is always new (create_node) or only when missing
RECURSIVE Walk(_, _, _, _)
Walk(T, p, rest, always) ==
  IF rest = <<>> THEN [node |-> p, made |-> <<>>]
  ELSE LET B == Names(T, p)
           last == Len(rest) = 1
           stay == rest[1] \in B /\ ~(last /\ always)
           q == Append(p, IF stay THEN rest[1] ELSE Fresh(rest[1], B))
           r == Walk(T \cup {q}, q, Tail(rest), always)
       IN IF stay THEN r ELSE [r EXCEPT !.made = <<q>> \o @]
Create(p, rest, always) ==
  LET w == Walk(tree, p, rest, always) IN
  /\ tree' = tree \cup ToSet(w.made)
  /\ log' = [i \in DOMAIN w.made |-> <<"nc", w.made[i]>>]
  /\ UNCHANGED par /\ Keep
\* removal: everything below goes too, children first
RemovedLog(D, lg) ==
  LET due == {<<"nr", q>> : q \in D} \cup {<<"pr", q>> : q \in D \cap par} IN
  /\ Len(lg) = Cardinality(due) /\ ToSet(lg) = due
  /\ \A q, r \in D : Prefix(q, r) /\ q # r => Before(<<"nr", r>>, <<"nr", q>>, lg) /\ Before(<<"pr", r>>, <<"nr", q>>, lg)
RemoveSet(D) ==
  /\ tree' = tree \ D /\ par' = par \ D /\ Keep
Doomed(p, name) == LET q == Append(p, Clean(name)) IN IF q \in tree THEN {q} \cup Below(q) ELSE {}
\* lg: the order actually chosen
RemoveChild(p, name, lg) == RemoveSet(Doomed(p, name)) /\ (RemovedLog(Doomed(p, name), lg) = TRUE) /\ log' = lg
Clear(p, lg) == RemoveSet(Below(p)) /\ (RemovedLog(Below(p), lg) = TRUE) /\ log' = lg
Rename(p, name) ==
  IF p = <<>> THEN /\ dev' = Clean(name) /\ log' = << <<"rn", <<>>, dev>> >> /\ UNCHANGED <<tree, par>>
  ELSE LET up == Parent(p)
           q == Append(up, Fresh(name, Names(tree, up) \ {Name(p)}))
           mv(S) == {IF Prefix(p, x) THEN q \o SubSeq(x, Len(p) + 1, Len(x)) ELSE x : x \in S}
       IN /\ tree' = mv(tree) /\ par' = mv(par) /\ Keep
          /\ log' = << <<"rn", q, Name(p)>> >>
CreateParam(p) ==
  /\ par' = par \cup {p} /\ UNCHANGED tree /\ Keep
  /\ log' = IF p \in par THEN <<>> ELSE << <<"pc", p>> >>
RemoveParam(p) ==
  /\ par' = par \ {p} /\ UNCHANGED tree /\ Keep
  /\ log' = IF p \in par THEN << <<"pr", p>> >> ELSE <<>>
SetParam(p, some) ==
  /\ par' = IF some THEN par \cup {p} ELSE par \ {p}
  /\ UNCHANGED tree /\ Keep
  /\ log' = (IF p \in par THEN << <<"pr", p>> >> ELSE <<>>) \o (IF some THEN << <<"pc", p>> >> ELSE <<>>)
TreeInit(d) == tree = {<<>>} /\ par = {} /\ dev = d /\ log = <<>>

\* ---- queries ---------------------------------------------------------------
\* a child is the root instance when a brother is called "child.something"
RootInstance(p) ==
  \E b \in Names(tree, Parent(p)) : Len(b) > Len(Name(p)) + 1 /\ SubSeq(b, 1, Len(Name(p)) + 1) = Name(p) \o "."

\* ---- properties ----------------------------------------------------------
TreeOK == /\ <<>> \in tree /\ par \subseteq tree
          /\ \A p \in tree : p # <<>> => Parent(p) \in tree /\ ValidName(Name(p))
          /\ ValidName(dev)
\* an observer that only listens rebuilds the tree
RECURSIVE Replay(_, _, _)
Replay(T, P, lg) ==
  IF lg = <<>> THEN <<T, P>>
  ELSE LET x == Head(lg) q == x[2] IN
       IF x[1] = "nc" THEN Replay(T \cup {q}, P, Tail(lg))
       ELSE IF x[1] = "nr" THEN Replay(T \ {q}, P \ {q}, Tail(lg))
       ELSE IF x[1] = "pc" THEN Replay(T, P \cup {q}, Tail(lg))
       ELSE IF x[1] = "pr" THEN Replay(T, P \ {q}, Tail(lg))
       ELSE IF q = <<>> THEN Replay(T, P, Tail(lg))
       ELSE LET o == Append(Parent(q), x[3])
                mv(S) == {IF Prefix(o, y) THEN q \o SubSeq(y, Len(o) + 1, Len(y)) ELSE y : y \in S}
            IN Replay(mv(T), mv(P), Tail(lg))
=============================================================================
