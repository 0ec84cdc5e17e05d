------------------------------- MODULE Token --------------------------------
(* token_request (dataflow/token_request.hpp): cutting the tick [from, to)   *)
(* of a looping process into sub-requests, and finding the first musical     *)
(* division in a tick.                                                       *)
EXTENDS Integers, Sequences
CONSTANTS Units  \* musical positions are in 1/Units of a quarter note

(* ------- loop(start, len): one sub-request <<from, to, offset>> per step --- *)
VARIABLES left,   \* what remains of the tick
          pos,    \* position in the loop, 0..len-1
          off,    \* offset of the next sub-request in the tick
          subs,   \* the sub-requests so far, <<"t", start>> when the loop goes back
          par     \* [from, to, off, start, len]
lvars == <<left, pos, off, subs, par>>
LoopInit(p) == par = p /\ left = (IF p.to > p.from THEN p.to - p.from ELSE 0) /\ pos = p.from % p.len
               /\ off = p.off /\ subs = <<>>
LoopStep ==
  /\ left > 0
  /\ LET room == par.len - pos
         n == IF left < room THEN left ELSE room
         r == <<par.start + pos, par.start + pos + n, off>> IN
     /\ left' = left - n
     /\ pos' = (pos + n) % par.len
     /\ off' = off + n
     /\ subs' = IF n = room THEN subs \o <<r, <<par.start>> >> ELSE Append(subs, r)
  /\ UNCHANGED par
LoopDone == left = 0

RECURSIVE LoopFrom(_, _, _, _)
LoopFrom(p, l, c, o) ==
  IF l <= 0 THEN <<>>
  ELSE LET room == p.len - c
           n == IF l < room THEN l ELSE room
           r == <<p.start + c, p.start + c + n, o>> IN
       (IF n = room THEN <<r, <<p.start>> >> ELSE <<r>>) \o LoopFrom(p, l - n, (c + n) % p.len, o + n)
Loop(p) == LoopFrom(p, p.to - p.from, p.from % p.len, p.off)

Reqs(s) == SelectSeq(s, LAMBDA r : Len(r) = 3)
RECURSIVE SumLen(_)
SumLen(s) == IF s = <<>> THEN 0 ELSE (s[1][2] - s[1][1]) + SumLen(Tail(s))
\* each sub-request stays in one loop period, they are contiguous in the tick
\* and together cover exactly the tick
InPeriod == \A k \in 1..Len(Reqs(subs)) : LET r == Reqs(subs)[k] IN
              par.start <= r[1] /\ r[1] < r[2] /\ r[2] <= par.start + par.len
Contiguous == \A k \in 1..(Len(Reqs(subs)) - 1) : LET a == Reqs(subs)[k] b == Reqs(subs)[k + 1] IN
              b[3] = a[3] + a[2] - a[1] /\ (b[1] = a[2] \/ (a[2] = par.start + par.len /\ b[1] = par.start))
Covers == SumLen(Reqs(subs)) + left = IF par.to > par.from THEN par.to - par.from ELSE 0

(* ---- the first multiple of a division in the tick (start, end] ---------- *)
\* m: [from, to (dates), start, end (positions), bar0, bar1 (last bar at start
\* and at end), sig (position of the last signature change)], rate = num/den
Date(m, p) == m.from + ((p - m.start) * (m.to - m.from)) \div (m.end - m.start)
\* length of the division in units
DivLen(rate) == (4 * Units * rate.den) \div rate.num
Quantize(m, rate) ==   \* position, or -1
  IF rate.num <= rate.den
  THEN \* bars: at a bar change in the tick
       IF m.bar1 # m.bar0 /\ (m.bar1 - m.sig) % (((m.bar1 - m.bar0) * rate.den) \div rate.num) = 0 THEN m.bar1 ELSE -1
  ELSE LET q == DivLen(rate)
           next == m.bar0 + ((m.start - m.bar0) \div q + 1) * q
       IN IF next <= m.end THEN next ELSE -1
\* the metronome: a tick on a new bar, otherwise a tock on the last new quarter
Metro(m) ==
  IF m.bar1 # m.bar0 \/ m.start = 0 THEN <<"tick", m.bar1>>
  ELSE LET a == (m.start - m.bar0) \div Units
           b == (m.end - m.bar0) \div Units IN
       IF a # b THEN <<"tock", m.bar0 + b * Units>> ELSE <<"none", 0>>
=============================================================================
