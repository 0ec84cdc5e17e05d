------------------------------ MODULE ValueMC -------------------------------
EXTENDS Value, TLC, Json
CONSTANTS Deep
VARIABLES x, y, hist
Scal == {IntV(n) : n \in {-7, -1, 0, 1, 3, 65, 12345}} \cup {Float4(q) : q \in {-30, -4, -3, 0, 1, 2, 4, 7, 260, 8000000}}
        \cup {BoolV(FALSE), BoolV(TRUE)} \cup {CharV(c) : c \in {48, 49, 65, 98}}
        \cup {Str(s) : s \in {"", "0", "1", "3", "-7", "2.5", "2.75x", "12ab", "ab", "b", "true", "false", "+4", "-", ".5"}}
Vecs == {Vec(q) : q \in {<<0, 0>>, <<4, 10>>, <<6, 5>>, <<4, 8, 12>>, <<-4, 0, 2>>, <<4, 8, 12, 16>>, <<1, 0, 0, 0>>}}
Lists == {List(l) : l \in {<<>>, <<IntV(3)>>, <<Float4(2)>>, <<Impulse>>, <<Str("ab")>>, <<IntV(1), IntV(2)>>, <<IntV(2), IntV(3)>>,
             <<IntV(1), IntV(5), IntV(0)>>, <<Float4(4), Float4(10)>>, <<Str("a"), BoolV(TRUE), CharV(65)>>, <<NoVal>>, <<List(<<IntV(3)>>)>>,
             <<List(<<>>)>>, <<List(<<>>), IntV(1)>>, <<IntV(1), Float4(2), BoolV(TRUE), Str("5"), IntV(9)>>, <<Vec(<<4, 8>>), IntV(1)>>}}
Vals == Scal \cup Vecs \cup Lists \cup {Impulse, NoVal}
MCInit == x \in Vals /\ y = NoVal /\ hist = << >>
MCNext ==
  /\ hist = <<>> /\ x' = x
  /\ \/ \E t \in Types \cup {"NONE"} : y' = Convert(x, t) /\ hist' = << <<"conv", x, t>> >>
     \/ \E c \in Vals : y' = c /\ hist' = << <<"cconv", x, c>>, <<"cmp", x, c>>, <<"copy", x, c>> >>
MCSpec == MCInit /\ [][MCNext]_<<x, y, hist>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Laws == /\ Identity(x)
        /\ \A t \in Types : RoundTrip(x, t) /\ Agrees(x, t)
        /\ Consistent(x, y)
\* the order of numbers and of texts is transitive
Transitive == (IsNum(x) /\ IsNum(y)) \/ (x.t = "STRING" /\ y.t = "STRING") =>
  \A w \in Scal : Cmp("le", x, y) /\ Cmp("le", y, w) => Cmp("le", x, w)
=============================================================================
