------------------------------ MODULE Musical -------------------------------
(* What nested intervals tell their processes about a tick: dates, speed,
   tempo, signature, bars and positions in quarter notes.  An interval with a
   map of signatures or a tempo curve of its own follows it; the others follow
   what the interval around them says.
   Units: positions in 1/64 of a quarter note, tempos in 15/4096 bpm (so that
   120 bpm is 8 * 4096), speeds in 1/4096; the speed of an interval alone in 1/8,
   the tempos of a curve in 15 bpm. *)
EXTENDS Integers, Sequences
VARIABLES iv,    \* the intervals, each containing the next
          told   \* told[k]: what interval k told its processes in this step
muvars == <<iv, told>>
U == 64
One == 4096
Default == [u |-> 4, l |-> 4, tempo |-> 8 * One, sig |-> 0, bar0 |-> 0, pos0 |-> 0, bar1 |-> 0, pos1 |-> 0,
            from |-> 0, to |-> 0, off |-> 0, speed |-> One]
Interval(x) == [q |-> x.q, speed |-> x.speed, hs |-> x.hs, ht |-> x.ht, sig |-> x.sig, curve |-> x.tempo,
                fixed |-> -1, date |-> 0, off |-> 0, up |-> One, began |-> FALSE, last |-> 0,
                now |-> [u |-> 4, l |-> 4, tempo |-> 0, sig |-> 0, bar0 |-> 0, pos0 |-> 0, bar1 |-> 0, pos1 |-> 0]]

\* the last entry of the map at or before date d (the first one if there is none)
At(m, d) == LET s == {i \in 1..Len(m) : m[i][1] <= d} IN IF s = {} THEN m[1] ELSE m[CHOOSE i \in s : \A j \in s : j <= i]
BarLength(s) == (4 * U * s[2]) \div s[3]
Pos(x, d) == (d * U) \div x.q
\* the bar in which date d is
Bar(x, d) == LET s == At(x.sig, d)  n == Pos(x, d) - Pos(x, s[1])  b == BarLength(s) IN Pos(x, s[1]) + (n \div b) * b
\* the tempo at date d, in 15 bpm: that of the inlet, else the curve, linear between its points
Curve(c, d) ==
  LET s == {i \in 1..Len(c) : c[i][1] < d}
      i == CHOOSE n \in s : \A j \in s : j <= n
  IN IF s = {} THEN c[1][2] ELSE IF i = Len(c) THEN c[i][2]
     ELSE c[i][2] + ((c[i + 1][2] - c[i][2]) * (d - c[i][1])) \div (c[i + 1][1] - c[i][1])
TempoAt(x, d) == IF x.fixed # -1 THEN x.fixed ELSE Curve(x.curve, d)
HasSig(x) == x.hs /\ x.sig # <<>>

\* the music of a tick from a to b of interval x inside the request r
Music(x, a, b, r) ==
  LET tempo == IF x.ht THEN (x.speed * TempoAt(x, a) * One) \div 8 ELSE (x.speed * r.tempo) \div 8 IN
  IF HasSig(x)
  THEN LET s == At(x.sig, a) IN
       [u |-> s[2], l |-> s[3], tempo |-> tempo, sig |-> Pos(x, s[1]), bar0 |-> Bar(x, a), pos0 |-> Pos(x, a), bar1 |-> Bar(x, b), pos1 |-> Pos(x, b)]
  ELSE [u |-> r.u, l |-> r.l, tempo |-> tempo, sig |-> r.sig, bar0 |-> r.bar0, pos0 |-> r.pos0, bar1 |-> r.bar1, pos1 |-> r.pos1]
Speed(x, a) == IF x.ht THEN (x.speed * TempoAt(x, a)) * 64 ELSE (x.up * x.speed) \div 8
Tok(m, a, b, off, speed) ==
  [u |-> m.u, l |-> m.l, tempo |-> m.tempo, sig |-> m.sig, bar0 |-> m.bar0, pos0 |-> m.pos0, bar1 |-> m.bar1, pos1 |-> m.pos1,
   from |-> a, to |-> b, off |-> off, speed |-> speed]
\* interval x goes to date b: [x: the interval, t: what it tells]
Go(x, b, off, r) ==
  LET m == Music(x, x.date, b, r) IN
  [x |-> [x EXCEPT !.date = b, !.off = off, !.now = m], t |-> Tok(m, x.date, b, off, Speed(x, x.date))]
Exact == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}
CeilDiv(a, b) == -((-a) \div b)
\* where a tick of d, inside the request r, leads it.  A quotient by a speed that is no power of two is
\* rounded by the machine, so that it may end one later (b = 1) where the division is exact
Advance(x, d, r, b) ==
  IF x.ht /\ r.speed # 0
  THEN LET n == d * x.speed * TempoAt(x, x.date) * 64 IN
       x.date + CeilDiv(n, r.speed) + (IF n % r.speed = 0 /\ r.speed \notin Exact THEN b ELSE 0)
  ELSE x.date + CeilDiv(d * x.speed, 8)
\* what an interval does with each of the requests of the one around it
RECURSIVE Inside(_, _, _)
Inside(x, rs, b) ==
  IF rs = <<>> THEN [x |-> x, ts |-> <<>>]
  ELSE LET r == Head(rs)
           g == IF x.began THEN [x |-> x, ts |-> <<>>]
                ELSE LET c == Go([x EXCEPT !.began = TRUE], x.date, r.off, r) IN [x |-> c.x, ts |-> <<c.t>>]
           y == [g.x EXCEPT !.up = r.speed, !.last = r.to]
           w == Go(y, Advance(y, r.to - g.x.last, r, b), r.off, r)
           n == Inside(w.x, Tail(rs), b)
       IN [x |-> n.x, ts |-> g.ts \o <<w.t>> \o n.ts]
\* and so on inwards: [xs: the intervals, ts: what each has told]
RECURSIVE Deeper(_, _, _)
Deeper(xs, rs, bs) ==
  IF xs = <<>> THEN [xs |-> <<>>, ts |-> <<>>]
  ELSE LET g == Inside(Head(xs), rs, Head(bs))  n == Deeper(Tail(xs), g.ts, Tail(bs)) IN [xs |-> <<g.x>> \o n.xs, ts |-> <<g.ts>> \o n.ts]
All(g, bs) == LET n == Deeper(Tail(iv), <<g.t>>, bs) IN iv' = <<g.x>> \o n.xs /\ told' = << <<g.t>> >> \o n.ts
Quiet == told' = [k \in 1..Len(iv') |-> <<>>]

Levels(l) == iv' = [k \in 1..Len(l) |-> Interval(l[k])] /\ Quiet
Begin(bs) == All(Go(iv[1], 0, 0, Default), bs)
Tick(d, ratio, r, bs) ==
  LET x == iv[1] IN
  All(Go(x, x.date + (IF x.ht THEN CeilDiv(d * x.speed * TempoAt(x, x.date), 64 * ratio) ELSE CeilDiv(d * x.speed, 8 * ratio)), x.off, r), bs)
TickOff(d, off, r, bs) == All(Go(iv[1], Advance(iv[1], d, r, 0), off, r), bs)
Put(k, f, v) == iv' = [iv EXCEPT ![k][f] = v] /\ Quiet
SetMap(k, on, m) == iv' = [iv EXCEPT ![k].hs = on, ![k].sig = IF on THEN m ELSE @] /\ Quiet
SetCurve(k, on, c) == iv' = [iv EXCEPT ![k].ht = on, ![k].curve = IF on THEN c ELSE << <<0, 0>> >>] /\ Quiet

-----------------------------------------------------------------------------
\* T03
Alone(t, x) == HasSig(x)
\* where it is in its bar, and where the bars are
InBar == \A k \in 1..Len(iv) : \A i \in 1..Len(told[k]) : LET t == told[k][i]  x == iv[k] IN
  Alone(t, x) => LET s == At(x.sig, t.from)  z == At(x.sig, t.to) IN
     /\ << t.u, t.l >> = << s[2], s[3] >> /\ t.sig = Pos(x, s[1])
     /\ t.bar0 <= t.pos0 /\ t.pos0 < t.bar0 + BarLength(s) /\ (t.bar0 - t.sig) % BarLength(s) = 0
     /\ t.bar1 <= t.pos1 /\ t.pos1 < t.bar1 + BarLength(z)
     /\ (t.from <= t.to => t.pos0 <= t.pos1 /\ t.bar0 <= t.bar1)
\* the others say what the interval around them says
Follows == \A k \in 2..Len(iv) : ~HasSig(iv[k]) => \A i \in 1..Len(told[k]) :
  \E j \in 1..Len(told[k - 1]) : LET t == told[k][i]  r == told[k - 1][j] IN
     /\ << t.u, t.l, t.sig, t.bar0, t.pos0, t.bar1, t.pos1 >> = << r.u, r.l, r.sig, r.bar0, r.pos0, r.bar1, r.pos1 >>
     /\ (~iv[k].ht => t.tempo = (iv[k].speed * r.tempo) \div 8)
\* each tick begins where the one before ended
Chained == [][\A k \in 1..Len(iv') : told'[k] # <<>> =>
  /\ told'[k][1].from = iv[k].date
  /\ \A i \in 2..Len(told'[k]) : told'[k][i].from = told'[k][i - 1].to
  /\ told'[k][Len(told'[k])].to = iv'[k].date
  /\ (HasSig(iv[k]) /\ iv[k].began => told'[k][1].pos0 = Pos(iv[k], iv[k].date))]_muvars

-----------------------------------------------------------------------------
\* positions in the buffers: speed s and ratio r in 1/8 (powers of two)
Abs(n) == IF n < 0 THEN -n ELSE n
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Sample(f, t) == TruncDiv((t - f.from + f.off) * f.r, f.s)
DateOf(f, p) == (p * f.s + (f.from - f.off) * f.r) \div f.r
Phys(f) == [begin |-> TruncDiv(f.from * f.r, f.s), start |-> TruncDiv(f.off * f.r, f.s), read |-> (Abs(f.to - f.from) * f.r) \div 8,
            write |-> (Abs(f.to - f.from) * f.r) \div f.s, safe |-> (f.b * f.s - f.off * f.r) \div f.s,
            sample |-> Sample(f, f.t), date |-> DateOf(f, f.p), back |-> DateOf(f, Sample(f, f.t))]
\* a date of the tick is the date of its own sample, if there is at least one sample per date
RoundTrip(f) == f.s <= f.r /\ f.t >= f.from => Phys(f).back = f.t
\* and its samples are those it writes
Within(f) == f.from <= f.t /\ f.t <= f.to => Phys(f).sample >= Phys(f).start /\ Phys(f).sample <= Phys(f).start + Phys(f).write + 1
=============================================================================
