---------------------------- MODULE FramingTrace ----------------------------
EXTENDS Framing, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
TInit == Init /\ l = 1
Step ==
  \/ e.e = "Reset" /\ wire' = <<>> /\ dec' = Fresh /\ got' = <<>>
  \* the encoder writes exactly the encoding
  \/ e.e = "send" /\ e.bytes = Encode(e.m) /\ Send(e.m)
  \/ e.e = "noise" /\ Noise(e.bytes)
  \/ e.e = "recv" /\ Receive(e.n) /\ e.got = dec'.out
  \* the received part is forgotten: keeps long traces cheap
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<wire, dec, got, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
