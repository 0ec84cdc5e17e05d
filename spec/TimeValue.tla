----------------------------- MODULE TimeValue ------------------------------
(* ossia::time_value (editor/scenario/time_value.hpp): 64-bit amounts of     *)
(* time with an infinity.  TLC's integers have 32 bits, so a number is       *)
(* <<h, m, l>> = h * 2^40 + m * 2^20 + l with 0 <= m, l < 2^20: the          *)
(* arithmetic below is exact on the real constants.                          *)
EXTENDS Integers, Sequences
B == 1048576
Norm(h, m, l) == LET m2 == m + l \div B IN <<h + m2 \div B, m2 % B, l % B>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Neg(a) == Norm(-a[1], -a[2], -a[3])
Sub(a, b) == Add(a, Neg(b))
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Le(a, b) == a = b \/ Lt(a, b)
Zero == <<0, 0, 0>>
Small(n) == Norm(0, 0, n)
InfMin == <<B - 1, B - 1, B - 1>>        \* 2^60 - 1
Infinity == <<4194304 - 1, B - 1, B - 1>>  \* 2^62 - 1
Inf(a) == Le(InfMin, a)
\* a * n for a small n
Mul(a, n) == Norm(a[1] * n, a[2] * n, a[3] * n)
Abs(a) == IF Lt(a, Zero) THEN Neg(a) ELSE a

\* the finite range: what the operators are asked to be exact on
InRange(a) == Lt(Neg(InfMin), a) /\ Lt(a, InfMin)
Fin(r) == IF Inf(r) THEN Infinity ELSE r

\* The value of an operation; "any" below the range, which is not specified
Res(op, x, y) ==
  CASE op \in {"add", "addeq", "addi", "addd", "addieq", "addu"} -> IF Inf(x) \/ Inf(y) THEN Infinity ELSE Fin(Add(x, y))
    [] op \in {"sub", "subeq", "subi", "subd", "subieq", "subu"} -> IF Inf(x) \/ Inf(y) THEN Infinity ELSE Fin(Sub(x, y))
    [] op = "neg" -> IF Inf(x) THEN Infinity ELSE Neg(x)
    [] op = "abs" -> IF Inf(x) THEN Infinity ELSE Abs(x)
    [] op = "norm" -> IF Inf(x) \/ Inf(y) THEN Infinity ELSE Fin(Abs(Sub(x, y)))
Same(a, b) == (Inf(a) /\ Inf(b)) \/ a = b

\* the six comparisons ==, !=, <, <=, >, >=
Cmp(x, y) ==
  LET eq == Same(x, y)
      lt == ~eq /\ Lt(x, y)
      gt == ~eq /\ Lt(y, x)
  IN <<eq, ~eq, lt, lt \/ eq, gt, gt \/ eq>>

(* ------------------------------ properties ------------------------------ *)
\* exactly one of <, ==, > holds, and the other three follow
Trichotomy(x, y) == LET c == Cmp(x, y) IN
  /\ (IF c[1] THEN 1 ELSE 0) + (IF c[3] THEN 1 ELSE 0) + (IF c[5] THEN 1 ELSE 0) = 1
  /\ c[2] = ~c[1] /\ c[4] = ~c[5] /\ c[6] = ~c[3]
Absorb(x, y) == /\ Inf(x) \/ Inf(y) => Inf(Res("add", x, y)) /\ Inf(Res("sub", x, y))
                /\ Inf(x) /\ ~Inf(y) => Cmp(x, y)[5]
Exact(x, y) == ~Inf(x) /\ ~Inf(y) /\ InRange(Add(x, y)) =>
                  /\ Same(Res("sub", Res("add", x, y), y), x)
                  /\ Same(Res("add", x, y), Res("add", y, x))
                  /\ Same(Res("sub", x, Neg(y)), Res("add", x, y))
=============================================================================
