------------------------------ MODULE MusicalMC ------------------------------
EXTENDS Musical, TLC, Json
CONSTANTS MaxTicks, Ticks, Sample0
VARIABLES n, hist
Maps == { << >>, << <<0, 3, 4>> >>, << <<0, 3, 8>>, <<5, 2, 4>> >> }
Curves == { << >>, << <<0, 8>>, <<4, 16>> >> }
Lev(q, s, m, c) == [q |-> q, speed |-> s, hs |-> m # <<>>, ht |-> c # <<>>, sig |-> m, tempo |-> IF c = <<>> THEN << <<0, 0>> >> ELSE c]
ReqOf(s) == [Default EXCEPT !.speed = s, !.u = 5, !.l = 4, !.sig = 32, !.bar0 = 64, !.pos0 = 100, !.bar1 = 128, !.pos1 = 140]
Cmd(d, k, r) == << d, k, r.speed, r.tempo, r.u, r.l, r.sig, r.bar0, r.pos0, r.bar1, r.pos1 >>
MCInit == \E m1 \in Maps, m2 \in Maps, c1 \in Curves, c2 \in Curves, s \in {8, 16} :
  LET l == << Lev(4, 8, m1, c1), Lev(2, s, m2, c2) >> IN
  /\ iv = [k \in 1..2 |-> Interval(l[k])] /\ told = << <<>>, <<>> >> /\ n = 0 /\ hist = << << "levels", l >> >>
MCNext ==
  \/ n = 0 /\ Begin(<<0>>) /\ n' = 1 /\ hist' = Append(hist, << "start" >>)
  \/ /\ n \in 1..MaxTicks /\ n' = n + 1
     /\ \E d \in Ticks, s \in {One, 2 * One} :
          \/ Tick(d, 1, ReqOf(s), <<0>>) /\ hist' = Append(hist, << "tick" >> \o Cmd(d, 1, ReqOf(s)))
          \/ TickOff(d, 2, ReqOf(s), <<0>>) /\ hist' = Append(hist, << "ticko" >> \o Cmd(d, 2, ReqOf(s)))
MCSpec == MCInit /\ [][MCNext]_<<muvars, n, hist>>
Emit == IF n' = MaxTicks + 1 /\ RandomElement(1..Sample0) = 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
View == <<iv, told, n>>
Small == {f \in [from : {0, 3}, to : {0, 5, 8}, off : {0, 4}, parent : {8}, s : {4, 8, 16}, r : {4, 8, 32}, t : 0..8, p : {0, 7}, b : {16}] : TRUE}
ASSUME \A f \in Small : RoundTrip(f) /\ Within(f)
=============================================================================
