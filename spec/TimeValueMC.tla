---------------------------- MODULE TimeValueMC -----------------------------
EXTENDS TimeValue, TLC, Json
CONSTANTS Deep
VARIABLES x, y, hist
Base == {Zero, Small(1), Small(2), Small(3), Small(5), Small(705600), <<0, 1, 0>>, <<1, 0, 7>>, <<524288, 3, 1>>,
         Sub(InfMin, Small(1)), Sub(InfMin, Small(3)), InfMin, Add(InfMin, Small(5)), Infinity}
Vals == Base \cup {Neg(v) : v \in {w \in Base : ~Inf(w)}}
Ops == {"add", "addeq", "addi", "addd", "addieq", "addu", "sub", "subeq", "subi", "subd", "subieq", "subu",
        "neg", "abs", "norm"}
Small53(v) == Lt(v, <<8192, 0, 0>>) /\ Lt(<<-8192, 0, 0>>, v)
Can(op, a, b) ==
  /\ op \in {"addi", "addd", "addieq", "subi", "subd", "subieq"} => ~Inf(b)
  /\ op \in {"addd", "subd"} => Small53(b)
  /\ op \in {"addu", "subu"} => ~Inf(b) /\ Le(Zero, b)
  /\ op \in {"neg", "abs"} => b = Zero
  /\ Inf(a) \/ Inf(b) \/ op \in {"neg", "abs"} \/ ~Le(Res(op, a, b), Neg(InfMin))
MCInit == x \in Vals /\ y = Zero /\ hist = << <<"set", x>> >>
MCNext == \E v \in Vals : y' = v /\
  \/ /\ Len(hist) = 1 /\ x' = x /\ hist' = Append(hist, <<"cmp", v>>)
  \/ \E op \in Ops : /\ (Len(hist) = 1 \/ (Deep /\ Len(hist) = 2 /\ hist[2][1] # "cmp")) /\ Can(op, x, v)
                     /\ x' = Res(op, x, v) /\ hist' = Append(hist, <<op, v>>)
MCSpec == MCInit /\ [][MCNext]_<<x, y, hist>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Laws == Trichotomy(x, y) /\ Absorb(x, y) /\ Exact(x, y)
\* the order is total: transitive on all the values
Transitive == \A w \in Vals : Cmp(x, y)[4] /\ Cmp(y, w)[4] => Cmp(x, w)[4]
=============================================================================
