-------------------------- MODULE CallbacksTrace ---------------------------
EXTENDS Callbacks, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
\* whether a disabled callback still counts is left open
Obs == /\ dis' = {} => (e.count = Len(order') /\ e.empty = (order' = <<>>))
       /\ e.hooks = hooks'
TInit == Init /\ l = 1
Reset == e.e = "Reset" /\ order' = <<>> /\ tag' = tag /\ dis' = {} /\ lastcall' = <<>> /\ hooks' = <<0, 0>>
Step ==
  \/ Reset
  \/ e.e = "add" /\ Add(e.i, e.t) /\ Obs
  \/ e.e = "addempty" /\ AddEmpty /\ e.threw /\ Obs
  \/ e.e = "remove" /\ Remove(e.i) /\ Obs
  \/ e.e = "replace" /\ Replace(e.i, e.t) /\ Obs
  \/ e.e = "clear" /\ Clear /\ Obs
  \/ e.e = "send" /\ Send /\ lastcall' = e.calls /\ e.arg /\ Obs
  \* a send during which another thread asks for the operation of the next
  \* event, which has to wait for the end of the send
  \/ e.e = "xsend" /\ Send /\ lastcall' = e.calls /\ e.arg /\ ~e.inside
  \* n sends while another thread changes other callbacks: those that stay
  \* are called at each of them (one event for n Send and the final Clear)
  \/ /\ e.e = "storm" /\ e.arg /\ ~e.empty
     /\ e.op # "clear" => e.count = Len(order)
     /\ e.op \notin {"clear", "replace"} =>
          {e.counts[k] : k \in 1..Len(e.counts)} = {<<tag[i], e.n>> : i \in Live}
     /\ order' = <<>> /\ hooks' = <<hooks[1], hooks[1]>> /\ UNCHANGED <<tag, dis, lastcall>>
  \/ e.e \in {"count", "empty"} /\ UNCHANGED vars /\ Obs
  \/ e.e = "disable" /\ Disable(e.i) /\ e.hooks = hooks'
  \/ e.e = "restore" /\ Restore(e.i) /\ e.hooks = hooks'
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
