----------------------------- MODULE MusicalTrace ----------------------------
EXTENDS Musical, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Fields == {"u", "l", "tempo", "sig", "bar0", "pos0", "bar1", "pos1"}
SameMusic(x, y) == \A f \in Fields : x[f] = y[f]
SameTok(x, y) == SameMusic(x, y) /\ x.from = y.from /\ x.to = y.to /\ x.off = y.off /\ x.speed = y.speed
Seen ==
  /\ Len(e.toks) = Len(told') /\ Len(e.now) = Len(iv')
  /\ \A k \in 1..Len(told') : Len(e.toks[k]) = Len(told'[k]) /\ \A i \in 1..Len(told'[k]) : SameTok(e.toks[k][i], told'[k][i])
  /\ \A k \in 1..Len(iv') : SameMusic(e.now[k], iv'[k].now) /\ e.now[k].date = iv'[k].date
Clear == iv' = <<>> /\ told' = <<>>
PhysOk ==
  LET f == Phys(e) IN
  /\ e.begin = f.begin /\ e.start = f.start /\ e.read = f.read /\ e.write = f.write /\ e.safe = f.safe /\ e.sample = f.sample /\ e.date = f.date
  /\ e.back = f.back /\ e.same /\ ~e.other
  /\ e.place = (IF e.parent > 0 THEN (e.to * 64) \div e.parent ELSE 0)
  /\ RoundTrip(e) /\ Within(e)
Zeros == [k \in 1..2 |-> 0]
\* only intervals with a tempo, in one whose speed is no power of two
Can(k) == k <= Len(iv) /\ iv[k].ht
Late == {<<a, b>> : a \in (IF Can(2) THEN {0, 1} ELSE {0}), b \in (IF Can(3) THEN {0, 1} ELSE {0})}
Step ==
  CASE e.e = "Reset" -> Clear
    [] e.e = "phys" -> (PhysOk = TRUE) /\ UNCHANGED muvars
    [] OTHER -> /\ \/ e.e = "levels" /\ Levels(e.x)
                   \/ e.e = "start" /\ Begin(Zeros)
                   \/ e.e = "tick" /\ (\E bs \in Late : Tick(e.d, e.n, e.r, bs))
                   \/ e.e = "ticko" /\ (\E bs \in Late : TickOff(e.d, e.n, e.r, bs))
                   \/ e.e = "speed" /\ Put(e.k, "speed", e.s)
                   \/ e.e = "fixed" /\ Put(e.k, "fixed", e.y)
                   \/ e.e = "sig" /\ SetMap(e.k, e.on, e.x)
                   \/ e.e = "tempo" /\ SetCurve(e.k, e.on, e.x)
                /\ (Seen = TRUE)
TInit == iv = <<>> /\ told = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<muvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
