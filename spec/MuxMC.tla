-------------------------------- MODULE MuxMC --------------------------------
EXTENDS Mux, TLC, Json
CONSTANT MaxLen
VARIABLE hist
allvars == <<mvars, hist>>
Addrs == {"/", "/a", "/a/b"}
X == V("INT", 20, "", <<>>)
F == V("FLOAT", 10, "", <<>>)
H(c) == hist' = Append(hist, c)
MCInit == MInit /\ hist = <<>>
MCNext ==
  /\ Len(hist) < MaxLen
  /\ \/ \E p \in Protos : Expose(p, p # 2) /\ H(<<"expose", p, p # 2>>)
     \/ \E p \in Protos : Unexpose(p) /\ Known(p) /\ H(<<"unexpose", p>>)
     \/ Refuse(1) /\ H(<<"refuse", 1>>)
     \/ Clear /\ H(<<"clear">>)
     \/ Attach /\ H(<<"device">>)
     \/ Stop /\ H(<<"stop">>)
     \/ dev /\ ~echo /\ SetEcho(TRUE) /\ H(<<"echo", 1>>)
     \/ \E a \in Addrs : Create(a, "INT") /\ H(<<"new", a, "INT">>)
     \/ \E a \in DOMAIN pars :
          \/ Remove(a) /\ H(<<"del", a>>)
          \/ pars[a].n < 2 /\ Listen(a) /\ H(<<"listen", a>>)
          \/ Unlisten(a) /\ H(<<"unlisten", a>>)
          \/ Push(a, X) /\ H(<<"push", a, X>>)
          \/ Send(a, F) /\ H(<<"send", a, F>>)
          \/ Raw(a, F) /\ H(<<"raw", a, F>>)
          \/ Bundle(<<a, a>>) /\ H(<<"bundle", a, a>>)
          \/ Incoming(a, F) /\ H(<<"incoming", a, F>>)
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<pars, exp, pend, yes, dev, echo>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
