----------------------------- MODULE Parameter ------------------------------
(* Parameters of a device: value, type, attributes, callbacks, and what they
   send to the device's observers and to its protocol. *)
EXTENDS Domain
LOCAL INSTANCE FiniteSets
CONSTANT Ids
VARIABLES ps,    \* Ids -> parameter of that node (live or not), with the attributes of the node
          log,   \* what the last operation notified, called and transmitted, in order
          echo   \* the device echoes incoming messages
pvars == <<ps, log, echo>>

Accesses == {"BI", "GET", "SET"}
NodeAttrs == {"description", "tags", "priority", "refreshRate", "recallSafe", "valueStepsize", "zombie", "hidden", "appName", "appVersion", "appCreator", "instanceBounds"}
UnitType(u) ==
  CASE u \in {"color.argb", "color.rgba", "color.rgba8", "color.argb8", "orientation.quaternion", "orientation.axis"} -> "VEC4F"
    [] u \in {"color.rgb", "color.hsv", "color.bgr", "color.cie_xyz", "orientation.euler", "position.cart3D", "position.spherical", "position.openGL", "position.cylindrical"} -> "VEC3F"
    [] u \in {"position.cart2D", "position.polar"} -> "VEC2F"
    [] u \in {"distance.m", "distance.cm", "distance.px", "gain.linear", "gain.db", "angle.degree", "angle.radian", "speed.m/s", "time.second", "time.midinote", "time.bpm"} -> "FLOAT"
Units == {"color.argb", "color.rgba", "color.rgba8", "color.argb8", "orientation.quaternion", "orientation.axis", "color.rgb", "color.hsv", "color.bgr", "color.cie_xyz",
          "orientation.euler", "position.cart3D", "position.spherical", "position.openGL", "position.cylindrical", "position.cart2D", "position.polar", "distance.m", "distance.cm",
          "distance.px", "gain.linear", "gain.db", "angle.degree", "angle.radian", "speed.m/s", "time.second", "time.midinote", "time.bpm"}

Fresh(t, at, def) == [live |-> TRUE, t |-> t, v |-> Zero(t), prev |-> NoVal, acc |-> "BI", bm |-> "FREE", dom |-> NoDom, unit |-> "", rep |-> FALSE,
                 dis |-> FALSE, mut |-> FALSE, crit |-> FALSE, cbs |-> <<>>, at |-> at, def |-> def]
NoAttrs == [a \in NodeAttrs |-> ""]
Dead(at, def) == [Fresh("IMPULSE", at, def) EXCEPT !.live = FALSE]

Ent(k, p, n, v) == [k |-> k, p |-> p, n |-> n, v |-> v]
Attr(p, n) == << Ent("attr", p, n, NoVal) >>

\* a stored value: of the type of the parameter; an invalid value is ignored
Stored(x, w) == IF w.t = "NONE" THEN x ELSE [x EXCEPT !.prev = x.v, !.v = Conv(w, x.t, x.v)]
Calls(p, x) == [i \in 1..Len(x.cbs) |-> Ent("cb", p, x.cbs[i], x.v)]

PInit == ps = [p \in Ids |-> Dead(NoAttrs, NoVal)] /\ log = <<>> /\ echo = FALSE
Chg(p, x, lg) == ps' = [ps EXCEPT ![p] = x] /\ log' = lg /\ echo' = echo

Create(p, t) ==
  IF ps[p].live THEN Chg(p, [ps[p] EXCEPT !.t = t, !.v = Zero(t), !.dom = ConvDom(@, t)], Attr(p, "type"))
  ELSE Chg(p, Fresh(t, ps[p].at, ps[p].def), Attr(p, "type") \o << Ent("created", p, "", NoVal) >>)
Remove(p) ==
  LET gone == << Ent("removing", p, "", NoVal), Ent("observe", p, "0", NoVal) >> IN
  \E twice \in (IF ps[p].cbs = <<>> THEN {FALSE} ELSE BOOLEAN) :
    Chg(p, Dead(ps[p].at, ps[p].def), gone \o (IF twice THEN << Ent("observe", p, "0", NoVal) >> ELSE <<>>))

SetValue(p, w) == LET x == Stored(ps[p], w) IN Chg(p, x, IF w.t = "NONE" THEN <<>> ELSE Calls(p, x))
SetQuiet(p, w) == Chg(p, Stored(ps[p], w), <<>>)
Push(p, w) == LET x == Stored(ps[p], w) IN Chg(p, x, IF w.t = "NONE" THEN <<>> ELSE Calls(p, x) \o << Ent("push", p, "", x.v) >>)
PushQuiet(p, w) == LET x == Stored(ps[p], w) IN Chg(p, x, << Ent("push", p, "", x.v) >>)
PushCurrent(p) == Chg(p, ps[p], << Ent("push", p, "", ps[p].v) >>)
Msg(p, x) == << Ent("msg", p, "", x.v) >> \o IF echo THEN << Ent("echo", p, "", x.v) >> ELSE <<>>
Incoming(p, w) == LET x == Stored(ps[p], w) IN Chg(p, x, Calls(p, x) \o Msg(p, x))
IncomingQuiet(p, w) == LET x == Stored(ps[p], w) IN Chg(p, x, Msg(p, x))

AddCb(p, i) == Chg(p, [ps[p] EXCEPT !.cbs = <<i>> \o @], IF ps[p].cbs = <<>> THEN << Ent("observe", p, "1", NoVal) >> ELSE <<>>)
RmCb(p, i) == Chg(p, [ps[p] EXCEPT !.cbs = SelectSeq(@, LAMBDA j : j # i)], IF ps[p].cbs = <<i>> THEN << Ent("observe", p, "0", NoVal) >> ELSE <<>>)

SetType(p, t) == Chg(p, [ps[p] EXCEPT !.t = t, !.v = Zero(t), !.dom = ConvDom(@, t)], Attr(p, "type"))
SetUnit(p, u) ==
  LET x == [ps[p] EXCEPT !.unit = u] IN
  Chg(p, IF u = "" THEN x ELSE LET t == UnitType(u) IN [x EXCEPT !.t = t, !.v = Convert(@, t), !.dom = ConvDom(@, t)], Attr(p, "unit"))
\* the domain is compared as given, and stored as converted to the type of the parameter
SetDomain(p, d) == IF ps[p].dom = d THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.dom = ConvDom(d, ps[p].t)], Attr(p, "domain"))
SetBounding(p, b) == IF ps[p].bm = b \/ ps[p].t = "BOOL" THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.bm = b], Attr(p, "bounding"))
SetAccess(p, a) == IF ps[p].acc = a THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.acc = a], Attr(p, "access"))
SetRep(p, b) == IF ps[p].rep = b THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.rep = b], Attr(p, "repetition_filter"))
SetDisabled(p, b) == IF ps[p].dis = b THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.dis = b], Attr(p, "disabled"))
SetMuted(p, b) == IF ps[p].mut = b THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.mut = b], Attr(p, "muted"))
SetCritical(p, b) == IF ps[p].crit = b THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.crit = b], Attr(p, "critical"))
\* attributes of the node
SetAttr(p, a, s) == IF ps[p].at[a] = s THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.at[a] = s], Attr(p, a))
SetDefault(p, w) == IF ps[p].def.t # "NONE" /\ Cmp("eq", ps[p].def, w) THEN Chg(p, ps[p], <<>>) ELSE Chg(p, [ps[p] EXCEPT !.def = w], Attr(p, "valueDefault"))
SetEcho(b) == echo' = b /\ UNCHANGED ps /\ log' = <<>>

\* what a protocol must not send
Filtered(x, w) == x.dis \/ x.mut \/ (x.rep /\ Cmp("eq", w, x.prev))
\* one element of a list or of a vector
RECURSIVE At(_, _)
At(v, i) == IF i = <<>> THEN v
            ELSE IF IsVec(v) THEN (IF Len(i) = 1 /\ i[1] < Len(v.l) THEN v.l[i[1] + 1] ELSE NoVal)
            ELSE IF v.t = "LIST" /\ i[1] < Len(v.l) THEN At(v.l[i[1] + 1], Tail(i)) ELSE NoVal

-----------------------------------------------------------------------------
\* V01
Typed == \A p \in Ids : ps[p].v.t = ps[p].t
CbOnce == \A p \in Ids : \A i \in 1..Len(ps[p].cbs) :
            LET s == SelectSeq(log, LAMBDA x : x.k = "cb" /\ x.p = p /\ x.n = ps[p].cbs[i]) IN
            Len(s) <= 1 /\ \A j \in 1..Len(s) : s[j].v = ps[p].v
PushOnce == Cardinality({i \in 1..Len(log) : log[i].k = "push"}) <= 1 /\ \A i \in 1..Len(log) : log[i].k = "push" => log[i].v = ps[log[i].p].v
=============================================================================
