------------------------------ MODULE ExprTrace ------------------------------
EXTENDS Expr, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
TStart(p) == CASE p = 1 -> IntV(0) [] p = 2 -> Float4(0) [] p = 3 -> BoolV(FALSE) [] p = 4 -> Vec(<<0, 0, 0>>)
               [] p = 5 -> Str("") [] p = 6 -> List(<<IntV(0), IntV(0)>>)
Op ==
  \/ e.e = "set" /\ Set(e.p, e.v, e.rep)
  \/ e.e = "remote" /\ Remote(e.p, e.v)
  \/ e.e = "make" /\ Make(e.x, e.t)
  \/ e.e = "destroy" /\ Make(e.x, NoEx)
  \/ e.e = "cb" /\ Listen(e.x, e.c)
  \/ e.e = "uncb" /\ Unlisten(e.x, e.c)
  \/ e.e = "update" /\ Update(e.x, e.rep)
  \/ e.e = "eval" /\ UNCHANGED xvars
  \/ e.e = "equal" /\ e.eq = Equal(ex[e.x], ex[e.y]) /\ e.ne = ~e.eq /\ UNCHANGED xvars
State == /\ \A p \in Params : e.lis[p] = ListenersOf(p, ex', cbs') /\ e.vals[p] = vals'[p]
         /\ \A x \in Exprs : ex'[x] = NoEx \/ e.ev[x] = (IF EvalFrom(ex'[x], vals', fired'[x], 0) THEN 1 ELSE 0)
TInit == l = 1 /\ XInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ e.e = "Reset"
               /\ vals' = [p \in Params |-> Start0(p)] /\ rem' = [p \in Params |-> NoVal] /\ ex' = [x \in Exprs |-> NoEx]
               /\ fired' = [x \in Exprs |-> {}] /\ cbs' = [x \in Exprs |-> {}]
            \/ e.e # "Reset" /\ Op /\ (State = TRUE)
TraceSpec == TInit /\ [][TNext]_<<xvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
