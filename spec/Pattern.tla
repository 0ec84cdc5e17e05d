------------------------------ MODULE Pattern -------------------------------
(* Address patterns over the device tree.  A pattern is                     *)
(*   [dev: tokens of the device part (<<>>: none), deep: starts with //,    *)
(*    abs: starts with /, parts: sequence of parts]                         *)
(* a part is <<up>> (..) or a sequence of tokens                            *)
(*   c x        the character x          any   ?  at most one character     *)
(*   cls x      one character of x       star  *  any characters            *)
(*   alt o      one of the alternatives  inst  !  an optional instance      *)
(*   rng lo hi by   a number between lo and hi, in steps of by              *)
EXTENDS Tree
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
IsUp(part) == Len(part) = 1 /\ part[1].t = "up"
\* the instance number has no dot and no equal sign of its own
InstChars == Legal \ {"."}
Num(n) == IF n < 0 THEN "-" \o Str(0 - n) ELSE Str(n)
Lo(k) == IF k.lo <= k.hi THEN k.lo ELSE k.hi
Hi(k) == IF k.lo <= k.hi THEN k.hi ELSE k.lo
\* the numbers of a range, in order (downwards when the step is negative)
RngSeq(k) ==
  IF k.by > 0 THEN [i \in 1..((Hi(k) - Lo(k)) \div k.by + 1) |-> Num(Lo(k) + (i - 1) * k.by)]
  ELSE [i \in 1..((Hi(k) - Lo(k)) \div (0 - k.by) + 1) |-> Num(Hi(k) + (i - 1) * k.by)]
Toks(s) == [i \in 1..Len(s) |-> [t |-> "c", x |-> Ch(s, i)]]

RECURSIVE M(_, _)
M(p, s) ==
  IF p = <<>> THEN s = ""
  ELSE LET k == Head(p)
           r == Tail(p)
           s1 == IF s = "" THEN "" ELSE SubSeq(s, 2, Len(s))
       IN CASE k.t = "c" -> s # "" /\ Ch(s, 1) = k.x /\ M(r, s1)
            [] k.t = "any" -> M(r, s) \/ (s # "" /\ M(r, s1))
            [] k.t = "cls" -> s # "" /\ (\E i \in 1..Len(k.x) : Ch(k.x, i) = Ch(s, 1)) /\ M(r, s1)
            [] k.t = "star" -> \E i \in 0..Len(s) : M(r, SubSeq(s, i + 1, Len(s)))
            [] k.t = "inst" -> M(r, s) \/ (s # "" /\ Ch(s, 1) = "." /\
                                 \E i \in 2..Len(s) : (\A j \in 2..i : Ch(s, j) \in InstChars) /\ M(r, SubSeq(s, i + 1, Len(s))))
            [] k.t = "alt" -> \E i \in DOMAIN k.o : M(k.o[i] \o r, s)
            [] k.t = "rng" -> \E i \in DOMAIN RngSeq(k) : M(Toks(RngSeq(k)[i]) \o r, s)

Down(S, part) == {q \in tree : q # <<>> /\ Parent(q) \in S /\ M(part, Name(q))}
Step(S, part) == IF IsUp(part) THEN {Parent(q) : q \in S \ {<<>>}} ELSE Down(S, part)
RECURSIVE Steps(_, _)
Steps(S, parts) == IF parts = <<>> THEN S ELSE Steps(Step(S, Head(parts)), Tail(parts))
\* the nodes a pattern selects from a node
Select(base, p) ==
  LET S0 == IF p.dev = <<>> \/ M(p.dev, dev) THEN {base} ELSE {}
      S1 == IF p.deep THEN {q \in tree : \E b \in S0 : Prefix(b, q)} ELSE S0
  IN Steps(S1, p.parts)

\* ---- how a pattern is written -------------------------------------------
RECURSIVE RToks(_)
RECURSIVE ROpts(_)
RTok(k) ==
  CASE k.t = "c" -> k.x
    [] k.t = "any" -> "?"
    [] k.t = "cls" -> "[" \o k.w \o "]"           \* w: as written, x: the characters it stands for
    [] k.t = "star" -> "*"
    [] k.t = "inst" -> "!"
    [] k.t = "up" -> ".."
    [] k.t = "alt" -> "{" \o ROpts(k.o) \o "}"
    [] k.t = "rng" -> "{" \o Num(k.lo) \o ".." \o Num(k.hi) \o (IF k.by = 1 THEN "" ELSE ".." \o Num(k.by)) \o "}"
RToks(p) == IF p = <<>> THEN "" ELSE RTok(Head(p)) \o RToks(Tail(p))
ROpts(o) == IF Len(o) = 1 THEN RToks(o[1]) ELSE RToks(o[1]) \o "," \o ROpts(Tail(o))
RECURSIVE RParts(_)
RParts(ps) == IF ps = <<>> THEN "" ELSE IF Len(ps) = 1 THEN RToks(ps[1]) ELSE RToks(ps[1]) \o "/" \o RParts(Tail(ps))
Render(p) == (IF p.dev = <<>> THEN "" ELSE RToks(p.dev) \o ":")
             \o (IF p.deep THEN "//" ELSE IF p.abs THEN "/" ELSE "") \o RParts(p.parts)

\* ---- expansion (create_nodes) ---------------------------------------------
Prod(A, B) == FlattenSeq([i \in DOMAIN A |-> [j \in DOMAIN B |-> A[i] \o B[j]]])
RECURSIVE XToks(_)
XTok(k) ==
  CASE k.t = "c" -> <<k.x>>
    [] k.t = "cls" -> Chars(k.x)
    [] k.t = "alt" -> FlattenSeq([i \in DOMAIN k.o |-> XToks(k.o[i])])
    [] k.t = "rng" -> RngSeq(k)
XToks(p) == IF p = <<>> THEN <<"">> ELSE Prod(XTok(Head(p)), XToks(Tail(p)))
RECURSIVE XParts(_)
XParts(ps) == IF ps = <<>> THEN << <<>> >>
              ELSE LET a == XToks(Head(ps)) IN Prod([i \in DOMAIN a |-> <<a[i]>>], XParts(Tail(ps)))
\* creates one node per expansion, in order; the paths made and the answers
RECURSIVE Make(_, _, _)
Make(T, base, X) ==
  IF X = <<>> THEN [tree |-> T, ret |-> <<>>]
  ELSE LET w == Walk(T, base, Head(X), TRUE)
           r == Make(T \cup ToSet(w.made), base, Tail(X))
       IN [r EXCEPT !.ret = <<w.made[Len(w.made)]>> \o @]
CreateNodes(base, parts) ==
  /\ tree' = Make(tree, base, XParts(parts)).tree
  /\ UNCHANGED <<par, dev>>
=============================================================================
