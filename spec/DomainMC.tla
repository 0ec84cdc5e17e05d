------------------------------ MODULE DomainMC ------------------------------
EXTENDS Domain, TLC, Json
CONSTANTS Deep
VARIABLES d, b, v, hist
F(q) == Float4(q)
IBounds == {NoVal, IntV(-3), IntV(0), IntV(2)}
FBounds == {NoVal, F(-6), F(0), F(3)}
CBounds == {NoVal, CharV(48), CharV(50)}
IVals == {IntV(n) : n \in -12..10}
FVals == {F(q) : q \in -20..14}
Pairs(S) == {p \in S \X S : Ordered(p[1], p[2])}
Scal == {D("INT", p[1], p[2], Nil) : p \in Pairs(IBounds)} \cup {D("FLOAT", p[1], p[2], Nil) : p \in Pairs(FBounds)}
        \cup {D("CHAR", p[1], p[2], Nil) : p \in Pairs(CBounds)}
        \cup {D("INT", NoVal, NoVal, List(<<IntV(1), IntV(3)>>)), D("FLOAT", F(0), F(4), List(<<F(2), F(4)>>)),
              D("CHAR", NoVal, NoVal, List(<<CharV(49)>>)), D("STRING", NoVal, NoVal, List(<<Str("ab"), Str("b")>>)),
              Init("STRING"), Init("BOOL"), Init("IMPULSE"), NoDom}
Vecs == {D("VEC2F", List(<<F(0), F(-4)>>), List(<<F(6), F(4)>>), Empties(2)), D("VEC2F", List(<<NoVal, F(-4)>>), List(<<F(6), NoVal>>), Empties(2)),
         D("VEC2F", NoneL(2), List(<<F(6), NoVal>>), List(<<Nil, List(<<F(2), F(3)>>)>>)),
         D("VEC3F", List(<<F(0), F(0), F(2)>>), List(<<F(4), NoVal, F(2)>>), Empties(3))}
Lists == {D("LIST", List(<<IntV(0), F(-4)>>), List(<<IntV(2), F(4)>>), Nil), D("LIST", List(<<NoVal, F(0)>>), List(<<IntV(2)>>), Nil),
          D("LIST", List(<<IntV(0), IntV(0)>>), Nil, List(<<List(<<IntV(1), IntV(2)>>), Nil>>)), Init("LIST")}
Anys == {D("ANY", IntV(0), IntV(2), Nil), D("ANY", F(0), F(3), Nil), D("ANY", IntV(0), NoVal, Nil), D("ANY", NoVal, F(3), Nil),
         D("ANY", IntV(0), F(3), Nil), D("ANY", NoVal, NoVal, List(<<IntV(1), F(3), Str("ab")>>)), D("ANY", Vec(<<0, 0>>), Vec(<<4, 8>>), Nil)}
Others == {IntV(-7), IntV(2), IntV(3), F(-5), F(2), F(7), BoolV(FALSE), BoolV(TRUE), CharV(47), CharV(49), CharV(52), Str("ab"), Str("c"), Impulse, NoVal,
           Vec(<<4, -8>>), Vec(<<8, 2>>), Vec(<<-3, 6>>), Vec(<<2, -10, 12>>), Vec(<<1, 2, 30, 4>>), Nil, List(<<IntV(5), F(9)>>), List(<<IntV(-1), Str("ab"), F(2)>>),
           List(<<IntV(2), IntV(9), IntV(1)>>), List(<<BoolV(TRUE), CharV(53), NoVal>>)}
Cand == {<<x, y>> \in {x \in Scal : x.k = "INT"} \X IVals : TRUE} \cup {<<x, y>> \in {x \in Scal : x.k = "FLOAT"} \X FVals : TRUE}
        \cup ((Scal \cup Vecs \cup Lists \cup Anys) \X Others)
SetCmd(x) == <<"dom", x.k, x.mn, x.mx, x.vs>>
MCInit == d = NoDom /\ b = "FREE" /\ v = NoVal /\ hist = <<>>
MakeArgs == {NoVal, IntV(1), IntV(4), F(2), BoolV(TRUE), CharV(49), Str("ab"), Impulse, Vec(<<0, 4>>), Vec(<<8, 9>>), Vec(<<1, 2, 3>>), List(<<IntV(0), IntV(1)>>), Nil}
SetsOf == {<<>>, <<IntV(3), IntV(1), Str("x")>>, <<F(1), F(5)>>, <<Str("b")>>, <<List(<<IntV(1)>>)>>}
MCNext == /\ hist = <<>>
  /\ \/ \E c \in Cand : \E m \in Modes : d' = c[1] /\ v' = c[2] /\ b' = m /\ hist' = <<SetCmd(c[1]), <<"apply", m, c[2]>> >>
     \/ \E x \in Scal \cup Vecs \cup Lists \cup Anys : UNCHANGED <<b, v>> /\
        \/ \E w \in MakeArgs : (x.k # "ANY" \/ w.t # "LIST") /\ d' = SetMax(SetMin(x, w), w) /\ hist' = <<SetCmd(x), <<"setmin", w>>, <<"setmax", w>> >>
        \/ \E w \in MakeArgs : d' = SetMin(x, w) /\ (x.k # "ANY" \/ w.t # "LIST") /\ hist' = <<SetCmd(x), <<"setmin", w>> >>
        \/ \E l \in SetsOf : (x.k # "LIST" \/ \A i \in 1..Len(l) : l[i].t = l[1].t) /\ d' = SetValues(x, l) /\ hist' = <<SetCmd(x), <<"setvals", List(l)>> >>
        \/ \E t \in Types : d' = ConvDom(x, t) /\ hist' = <<SetCmd(x), <<"convd", t>> >>
     \/ \E x, y \in MakeArgs, l \in SetsOf : d' = Make(x, y, l) /\ hist' = << <<"make", x, y, List(l)>> >> /\ UNCHANGED <<b, v>>
     \/ \E t \in Types \cup {"NONE"} : d' = Init(t) /\ hist' = << <<"init", t>> >> /\ UNCHANGED <<b, v>>
MCSpec == MCInit /\ [][MCNext]_<<d, b, v, hist>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Laws == ScalarLaws(d, b, v) /\ CompLaws(d, b, v) /\ Untouched(d, b, v) /\ Idempotent(d, b, v)
=============================================================================
