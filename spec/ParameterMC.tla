---------------------------- MODULE ParameterMC -----------------------------
EXTENDS Parameter, TLC, Json
CONSTANTS MaxLen, StartTypes
VARIABLES hist
H(c) == hist' = Append(hist, c)
Vals == {IntV(3), Float4(-6), BoolV(TRUE), Str("ab"), Impulse, NoVal, Vec(<<4, 8, 12>>), List(<<IntV(1), Str("x")>>)}
Few == {IntV(3), Str("ab"), NoVal, Vec(<<4, 8, 12>>)}
Doms == {D("INT", IntV(0), IntV(2), Nil), NoDom, D("FLOAT", NoVal, Float4(6), Nil)}
MCInit == PInit /\ hist = <<>>
p == 0
MCNext ==
  /\ Len(hist) < MaxLen
  /\ IF ~ps[p].live THEN \E t \in StartTypes : Create(p, t) /\ H(<<"new", p, t>>)
     ELSE \/ \E w \in Vals : SetValue(p, w) /\ H(<<"set", p, w>>)
          \/ \E w \in Vals : Push(p, w) /\ H(<<"pushr", p, w>>)
          \/ \E w \in Few : \/ SetValue(p, w) /\ H(<<"setr", p, w>>)
                            \/ Push(p, w) /\ H(<<"push", p, w>>)
                            \/ SetQuiet(p, w) /\ H(<<"quiet", p, w>>)
                            \/ SetQuiet(p, w) /\ H(<<"quietr", p, w>>)
                            \/ PushQuiet(p, w) /\ H(<<"pushquiet", p, w>>)
                            \/ w.t # "NONE" /\ Incoming(p, w) /\ H(<<"incoming", p, w>>)
                            \/ w.t # "NONE" /\ IncomingQuiet(p, w) /\ H(<<"incomingq", p, w>>)
          \/ PushCurrent(p) /\ H(<<"pushcur", p>>)
          \/ SetValue(p, ps[p].v) /\ H(<<"setself", p>>)
          \/ \E i \in {"1", "2"} : /\ \A j \in 1..Len(ps[p].cbs) : ps[p].cbs[j] # i
                                   /\ AddCb(p, i) /\ H(<<"cb", p, i>>)
          \/ \E i \in {"1", "2"} : (\E j \in 1..Len(ps[p].cbs) : ps[p].cbs[j] = i) /\ RmCb(p, i) /\ H(<<"rmcb", p, i>>)
          \/ \E t \in {"INT", "STRING", "BOOL"} : SetType(p, t) /\ H(<<"type", p, t>>)
          \/ \E u \in {"", "color.rgb", "gain.db"} : SetUnit(p, u) /\ H(<<"unit", p, u>>)
          \/ \E d \in Doms : SetDomain(p, d) /\ H(<<"dom", p, d.k, d.mn, d.mx, d.vs>>)
          \/ SetBounding(p, "CLIP") /\ H(<<"bounding", p, "CLIP">>)
          \/ SetAccess(p, "GET") /\ H(<<"access", p, "GET">>)
          \/ SetMuted(p, TRUE) /\ H(<<"muted", p, TRUE>>)
          \/ \E b \in BOOLEAN : SetAttr(p, "hidden", IF b THEN "1" ELSE "") /\ H(<<"attr", p, "hidden", IF b THEN "1" ELSE "">>)
          \/ SetRep(p, TRUE) /\ H(<<"rep", p, TRUE>>)
          \/ Remove(p) /\ H(<<"del", p>>)
          \/ ~echo /\ SetEcho(TRUE) /\ H(<<"echo", TRUE>>)
MCSpec == MCInit /\ [][MCNext]_<<pvars, hist>>
View == <<ps, log, echo>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
