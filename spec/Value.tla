------------------------------- MODULE Value --------------------------------
(* Values: conversions (convert<T>, convert(value, type), convert(value, cur))
   and comparisons.  A value is a record of uniform shape
     t : type,  q : four times the number (INT FLOAT BOOL CHAR),
     s : the text (STRING),  l : the elements (LIST; for VECnF, of FLOATs). *)
EXTENDS Naturals, Integers, Sequences
LOCAL INSTANCE FiniteSets

V(t, q, s, l) == [t |-> t, q |-> q, s |-> s, l |-> l]
NoVal == V("NONE", 0, "", <<>>)
Impulse == V("IMPULSE", 0, "", <<>>)
IntV(n) == V("INT", 4 * n, "", <<>>)
Float4(q) == V("FLOAT", q, "", <<>>)
BoolV(b) == V("BOOL", IF b THEN 4 ELSE 0, "", <<>>)
CharV(c) == V("CHAR", 4 * c, "", <<>>)
Str(s) == V("STRING", 0, s, <<>>)
List(l) == V("LIST", 0, "", l)
Vec(qs) == V(IF Len(qs) = 2 THEN "VEC2F" ELSE IF Len(qs) = 3 THEN "VEC3F" ELSE "VEC4F", 0, "",
             [i \in 1..Len(qs) |-> Float4(qs[i])])
\* the result is not specified (a narrowing that does not fit)
Unspec == V("ANY", 0, "", <<>>)

NumTypes == {"INT", "FLOAT", "BOOL", "CHAR"}
VecTypes == {"VEC2F", "VEC3F", "VEC4F"}
Types == NumTypes \cup VecTypes \cup {"IMPULSE", "STRING", "LIST"}
Size(t) == CASE t = "VEC2F" -> 2 [] t = "VEC3F" -> 3 [] t = "VEC4F" -> 4
IsNum(v) == v.t \in NumTypes
IsVec(v) == v.t \in VecTypes

Trunc4(q) == IF q >= 0 THEN q - (q % 4) ELSE -((-q) - ((-q) % 4))

-----------------------------------------------------------------------------
\* texts
Digit(s, i) == CASE SubSeq(s, i, i) = "0" -> 0 [] SubSeq(s, i, i) = "1" -> 1 [] SubSeq(s, i, i) = "2" -> 2
                 [] SubSeq(s, i, i) = "3" -> 3 [] SubSeq(s, i, i) = "4" -> 4 [] SubSeq(s, i, i) = "5" -> 5
                 [] SubSeq(s, i, i) = "6" -> 6 [] SubSeq(s, i, i) = "7" -> 7 [] SubSeq(s, i, i) = "8" -> 8
                 [] SubSeq(s, i, i) = "9" -> 9 [] OTHER -> -1
IsDigit(s, i) == i <= Len(s) /\ Digit(s, i) >= 0
RECURSIVE DigitsFrom(_, _), NumFrom(_, _, _)
DigitsFrom(s, i) == IF IsDigit(s, i) THEN 1 + DigitsFrom(s, i + 1) ELSE 0
NumFrom(s, i, acc) == IF IsDigit(s, i) THEN NumFrom(s, i + 1, 10 * acc + Digit(s, i)) ELSE acc
Signed(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) \in {"+", "-"}
Negative(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "-"
Start(s) == IF Signed(s) THEN 2 ELSE 1
\* the longest prefix that is an integer; 0 if there is none
ParseInt4(s) == LET n == NumFrom(s, Start(s), 0) IN IF Negative(s) THEN -(4 * n) ELSE 4 * n
\* same for decimal numbers; fractions: only multiples of a quarter
Frac4(s, i) == LET d == SubSeq(s, i, i + DigitsFrom(s, i) - 1) IN
  CASE d \in {"", "0", "00"} -> 0 [] d \in {"25"} -> 1 [] d \in {"5", "50"} -> 2 [] d = "75" -> 3
ParseFloat4(s) ==
  LET i == Start(s)  n == DigitsFrom(s, i)
      dot == i + n <= Len(s) /\ SubSeq(s, i + n, i + n) = "." /\ (n > 0 \/ IsDigit(s, i + n + 1))
      a == 4 * NumFrom(s, i, 0) + IF dot THEN Frac4(s, i + n + 1) ELSE 0
  IN IF Negative(s) THEN -a ELSE a

DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN DigitStr[n + 1] ELSE NatStr(n \div 10) \o DigitStr[(n % 10) + 1]
IntStr(n) == IF n < 0 THEN "-" \o NatStr(-n) ELSE NatStr(n)
FloatStr(q) ==
  LET a == IF q < 0 THEN -q ELSE q IN
  (IF q < 0 THEN "-" ELSE "") \o NatStr(a \div 4) \o
  CASE a % 4 = 0 -> "" [] a % 4 = 1 -> ".25" [] a % 4 = 2 -> ".5" [] a % 4 = 3 -> ".75"
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharStr(c) == SubSeq(Printable, c - 31, c - 31)
CharCode(s) == CHOOSE c \in 32..126 : CharStr(c) = s

RECURSIVE ToStr(_), Join(_)
Join(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN ToStr(l[1]) ELSE ToStr(l[1]) \o ", " \o Join(Tail(l))
ToStr(v) ==
  CASE v.t = "NONE" -> ""
    [] v.t = "IMPULSE" -> "impulse"
    [] v.t = "INT" -> IntStr(v.q \div 4)
    [] v.t = "FLOAT" -> FloatStr(v.q)
    [] v.t = "BOOL" -> IF v.q = 0 THEN "false" ELSE "true"
    [] v.t = "CHAR" -> CharStr(v.q \div 4)
    [] v.t = "STRING" -> v.s
    [] OTHER -> "[" \o Join(v.l) \o "]"

-----------------------------------------------------------------------------
\* a number as a value of the numeric type t; t = "FLOAT" is exact
AsNum(t, q) ==
  CASE t = "INT" -> V("INT", Trunc4(q), "", <<>>)
    [] t = "FLOAT" -> Float4(q)
    [] t = "BOOL" -> BoolV(q # 0)
    [] t = "CHAR" -> IF Trunc4(q) \in -512..508 THEN V("CHAR", Trunc4(q), "", <<>>) ELSE Unspec
Zero(t) ==
  CASE t \in NumTypes -> AsNum(t, 0)
    [] t = "IMPULSE" -> Impulse
    [] t = "STRING" -> Str("")
    [] t = "LIST" -> List(<<>>)
    [] t \in VecTypes -> Vec([i \in 1..Size(t) |-> 0])

RECURSIVE ConvNum(_, _)
ConvNum(v, t) ==
  CASE v.t \in {"NONE", "IMPULSE"} -> Zero(t)
    [] v.t \in NumTypes -> AsNum(t, v.q)
    [] v.t \in VecTypes -> AsNum(t, v.l[1].q)
    [] v.t = "LIST" -> IF v.l = <<>> THEN Zero(t) ELSE ConvNum(v.l[1], t)
    [] v.t = "STRING" ->
       CASE t = "INT" -> AsNum(t, ParseInt4(v.s))
         [] t = "FLOAT" -> AsNum(t, ParseFloat4(v.s))
         [] t = "BOOL" -> BoolV(v.s \in {"1", "true"})
         [] t = "CHAR" -> IF Len(v.s) = 1 THEN CharV(CharCode(v.s)) ELSE Zero(t)

\* conversion to the type t; cur supplies the components that v does not have
Conv(v, t, cur) ==
  CASE t = "IMPULSE" -> Impulse
    [] t \in NumTypes -> ConvNum(v, t)
    [] t = "STRING" -> Str(ToStr(v))
    [] t = "LIST" -> IF v.t = "NONE" THEN Zero(t) ELSE IF v.t = "LIST" THEN v ELSE IF IsVec(v) THEN List(v.l) ELSE List(<<v>>)
    [] t \in VecTypes ->
      (CASE v.t \in {"NONE", "IMPULSE", "STRING"} -> Zero(t)
         [] IsNum(v) -> Vec([i \in 1..Size(t) |-> v.q])
         [] IsVec(v) -> Vec([i \in 1..Size(t) |-> IF i <= Len(v.l) THEN v.l[i].q ELSE cur.l[i].q])
         [] v.t = "LIST" -> Vec([i \in 1..Size(t) |-> IF i <= Len(v.l) THEN ConvNum(v.l[i], "FLOAT").q ELSE 0]))
    [] t = "NONE" -> NoVal
Convert(v, t) == Conv(v, t, IF t = "NONE" THEN NoVal ELSE Zero(t))

RECURSIVE Same(_, _)
Same(v, w) == \/ w.t = "ANY"
              \/ /\ v.t = w.t /\ v.q = w.q /\ v.s = w.s /\ Len(v.l) = Len(w.l)
                 /\ \A i \in 1..Len(v.l) : Same(v.l[i], w.l[i])

-----------------------------------------------------------------------------
\* comparisons: op is one of "eq" "lt" "le" "gt" "ge"
CmpInt(op, a, b) == CASE op = "eq" -> a = b [] op = "lt" -> a < b [] op = "le" -> a <= b
                      [] op = "gt" -> a > b [] op = "ge" -> a >= b
Rank(s) == CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = s
RECURSIVE StrCmp(_, _)
StrCmp(a, b) == IF a = b THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
                ELSE IF SubSeq(a, 1, 1) = SubSeq(b, 1, 1) THEN StrCmp(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                ELSE IF Rank(SubSeq(a, 1, 1)) < Rank(SubSeq(b, 1, 1)) THEN -1 ELSE 1
RECURSIVE Cmp(_, _, _)
Cmp(op, a, b) ==
  LET eqlike == op \in {"eq", "le", "ge"} IN
  CASE a.t = "NONE" \/ b.t = "NONE" -> a.t = b.t /\ eqlike
    \* an impulse is equal to everything but vectors
    [] (a.t = "IMPULSE" /\ IsVec(b)) \/ (b.t = "IMPULSE" /\ IsVec(a)) -> FALSE
    [] a.t = "IMPULSE" \/ b.t = "IMPULSE" -> eqlike
    [] a.t = "LIST" /\ b.t = "LIST" ->
         IF a.l = <<>> /\ b.l = <<>> THEN eqlike
         ELSE Len(a.l) = Len(b.l) /\ \A i \in 1..Len(a.l) :
                a.l[i].t # "NONE" /\ b.l[i].t # "NONE" /\ Cmp(op, a.l[i], b.l[i])
    \* a list of one element is compared through its element
    [] a.t = "LIST" -> ~IsVec(b) /\ Len(a.l) = 1 /\ a.l[1].t # "NONE" /\ Cmp(op, a.l[1], b)
    [] b.t = "LIST" -> ~IsVec(a) /\ Len(b.l) = 1 /\ b.l[1].t # "NONE" /\ Cmp(op, a, b.l[1])
    [] a.t = "STRING" /\ b.t = "STRING" -> CmpInt(op, StrCmp(a.s, b.s), 0)
    [] IsNum(a) /\ IsNum(b) -> CmpInt(op, a.q, b.q)
    [] IsVec(a) /\ a.t = b.t -> \A i \in 1..Len(a.l) : CmpInt(op, a.l[i].q, b.l[i].q)
    [] OTHER -> FALSE
AllCmp(a, b) == <<Cmp("eq", a, b), ~Cmp("eq", a, b), Cmp("lt", a, b), Cmp("le", a, b), Cmp("gt", a, b), Cmp("ge", a, b)>>

-----------------------------------------------------------------------------
\* what V03 says
RECURSIVE CanHold(_, _)
\* the type t can represent v
CanHold(v, t) ==
  \/ v.t = t
  \/ IsNum(v) /\ \/ t \in {"FLOAT", "STRING", "LIST"} \cup VecTypes
                 \/ t = "INT" /\ v.q % 4 = 0
                 \/ t = "BOOL" /\ v.q \in {0, 4}
                 \/ t = "CHAR" /\ v.q % 4 = 0 /\ v.q \in -512..508
  \/ IsVec(v) /\ \/ t = "LIST" \/ (t \in VecTypes /\ Size(t) >= Len(v.l))
  \/ v.t = "LIST" /\ t \in VecTypes /\ Size(t) = Len(v.l) /\ \A i \in 1..Len(v.l) : v.l[i].t = "FLOAT"
Identity(v) == v.t # "NONE" => Convert(v, v.t) = v
RoundTrip(v, t) == CanHold(v, t) => Convert(Convert(v, t), v.t) = v
Agrees(v, t) == CanHold(v, t) /\ IsNum(v) /\ t \in NumTypes \cup {"LIST"} => Cmp("eq", v, Convert(v, t)) /\ Cmp("eq", Convert(v, t), v)
Consistent(a, b) ==
  /\ ~(Cmp("lt", a, b) /\ Cmp("gt", a, b))
  /\ Cmp("eq", a, b) = Cmp("eq", b, a)
  /\ Cmp("lt", a, b) = Cmp("gt", b, a) /\ Cmp("le", a, b) = Cmp("ge", b, a)
  /\ Cmp("eq", a, b) => Cmp("le", a, b) /\ Cmp("ge", a, b) /\ ~Cmp("lt", a, b)
  /\ Cmp("lt", a, b) => Cmp("le", a, b)
=============================================================================
