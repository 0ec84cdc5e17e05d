--------------------------- MODULE ExecStateTrace ---------------------------
EXTENDS ExecState, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Ran(s) == {s[i] : i \in 1..Len(s)}
TDev(p) == IF p <= 4 THEN 1 ELSE 2
Same == \A p \in Params : e.cur[p] = cur'[p]
Op ==
  \/ e.e = "dev" /\ DevAsk(e.d, e.add)
  \/ e.e = "inlet" /\ Make(e.i, [t |-> Ran(e.t), path |-> e.path, loc |-> e.loc, glob |-> e.glob, ev |-> e.ev])
  \/ e.e = "reg" /\ Register(e.i)
  \/ e.e = "unreg" /\ Unregister(e.i)
  \/ e.e = "in" /\ Comes(e.p, e.v) /\ Same
  \/ e.e = "prio" /\ Priority(e.p, e.x)
  \/ e.e = "tv" /\ Insert(e.p, e.v, e.i, e.ts) /\ Same
  \/ e.e = "port" /\ InsertPort({e.p}, e.vs, e.i, e.rep) /\ Same
  \/ e.e = "state" /\ InsertState(e.ms) /\ Same
  \/ e.e = "audio" /\ InsertAudio(e.a, e.s)
  \/ e.e = "aset" /\ SetAudio(e.a, e.s)
  \/ /\ e.e = "out"
     /\ LET T == IF e.path THEN {p \in Ran(e.t) : TDev(p) \in devs} ELSE Ran(e.t) IN
        IF e.vs = <<>> \/ ~(e.loc \/ e.glob) THEN e.out = <<>> /\ UNCHANGED evars
        ELSE IF e.loc THEN e.out = <<>> /\ InsertPort(T, e.vs, 0, FALSE)
        ELSE Direct(T, e.vs, e.out)
     /\ Same
  \/ e.e = "begin" /\ BeginTick /\ Ran(e.devs) = devs' /\ Same
  \/ /\ e.e = "commit" /\ Commit(e.pol, e.out) /\ Same
     /\ \A a \in AParams : e.aud[a] = acur'[a]
  \/ e.e = "read" /\ (Reads(e.i, e.v) = TRUE) /\ UNCHANGED evars
  \/ e.e = "aread" /\ ReadsAudio(e.a, e.loc, e.glob, e.s) /\ UNCHANGED evars
  \/ e.e = "scope" /\ e.r = InScope(e.p) /\ UNCHANGED evars
TInit == EInit /\ l = 1
Reset == /\ cur' = [p \in Params |-> Zero(p)] /\ pend' = [p \in Params |-> <<>>] /\ msg' = 0
         /\ prio' = [p \in Params |-> 0] /\ apend' = [a \in AParams |-> <<>>] /\ acur' = [a \in AParams |-> Silence]
         /\ devs' = {} /\ devq' = <<>> /\ inl' = [i \in Inlets |-> NoInlet]
         /\ regs' = [p \in Params |-> 0] /\ queue' = [d \in Devs |-> <<>>] /\ recv' = [p \in Params |-> <<>>]
TNext == l <= Len(Trace) /\ (IF e.e = "Reset" THEN Reset ELSE Op) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<evars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
