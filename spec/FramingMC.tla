----------------------------- MODULE FramingMC ------------------------------
EXTENDS Framing, TLC, Json
CONSTANTS MaxSent, MaxLen, Garbage
VARIABLES sent, noise, hist
Bytes == IF Kind = "slip" THEN {1, EOT, ESC, ESC_END, ESC_ESC} ELSE {0, 1, 5}
Msgs == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
all == <<wire, dec, got, sent, noise, hist>>
MCInit == Init /\ sent = <<>> /\ noise = FALSE /\ hist = <<>>
MCNext ==
  \/ /\ Garbage /\ hist = <<>>
     /\ \E n \in 1..2 : \E bs \in [1..n -> Bytes] : Noise(bs) /\ noise' = TRUE /\ hist' = << <<"noise", bs>> >> /\ sent' = sent
  \/ /\ Len(sent) < MaxSent /\ Len(wire) < 6
     /\ \E m \in Msgs : Send(m) /\ sent' = Append(sent, m) /\ hist' = Append(hist, <<"send", m>>) /\ noise' = noise
  \/ \E n \in 1..(IF Len(wire) < 5 THEN Len(wire) ELSE 5) : Receive(n) /\ hist' = Append(hist, <<"recv", n>>) /\ UNCHANGED <<sent, noise>>
MCSpec == MCInit /\ [][MCNext]_all
View == <<wire, dec, got, sent, noise>>
Real(s) == SelectSeq(s, LAMBDA m : m # <<>>)
Ends(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
\* without noise: what was received is a prefix of what was sent, all of it
\* once the stream is drained (empty messages are not told apart)
Exact == ~noise => /\ IsPrefix(got, Real(sent))
                   /\ wire = <<>> => got = Real(sent)
\* after noise, at most the first message is lost (slip)
Resync == noise /\ Kind = "slip" /\ wire = <<>> /\ Len(Real(sent)) >= 1 =>
            Ends(Tail(Real(sent)), got)
Emit == wire' = <<>> => PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
