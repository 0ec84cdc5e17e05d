-------------------------------- MODULE MidiMC --------------------------------
EXTENDS Midi, Json
CONSTANTS MaxLen, ChanSet, NumSet
VARIABLE hist
allvars == <<dvars, hist>>
H(c) == hist' = Append(hist, c)
Slash(p) == IF p = <<>> THEN "/" ELSE IF Len(p) = 1 THEN "/" \o p[1] ELSE IF Len(p) = 2 THEN "/" \o p[1] \o "/" \o p[2] ELSE "/" \o p[1] \o "/" \o p[2] \o "/" \o p[3]
Names(p) == CASE Len(p) = 0 -> ChanSet [] Len(p) = 1 -> {"on", "program", "pitchbend"} [] OTHER -> NumSet
Messages == UNION {{<<144 + c, 5, 9>>, <<144 + c, 5, 0>>, <<192 + c, 5>>, <<224 + c, 3, 1>>, <<160 + c, 5, 1>>} : c \in {0, 15}}
PathsOf(d) == {<<>>} \cup nodes[d]
Some(p) == CASE Shape(p) = "pair" -> <<5, 8>> [] Shape(p) = "int" -> <<7>> [] Shape(p) = "raw" -> <<145, 1, 2>> [] OTHER -> <<>>
MCInit == DInit /\ hist = <<>>
MCNext ==
  /\ Len(hist) < MaxLen
  /\ \/ \E d \in Devs : \E p \in PathsOf(d) : \E n \in Names(p) : Len(p) < 3 /\ Make(d, p, n) /\ H(<<"mk", d, Slash(p), n>>)
     \/ \E d \in Devs : \E p \in nodes[d] : Remove(d, p) /\ H(<<"rm", d, Slash(p)>>)
     \/ \E d \in Devs : \E p \in PathsOf(d) :
          /\ Param(p)
          /\ \/ d = "i" /\ Count(d, p) < 2 /\ Listen(d, p) /\ H(<<"listen", d, Slash(p)>>)
             \/ Unlisten(d, p) /\ H(<<"unlisten", d, Slash(p)>>)
             \/ wire = <<>> /\ Push(d, p, Some(p)) /\ H(<<"push", d, Slash(p)>> \o Some(p))
             \/ PushBad(d, p, <<5>>) /\ H(<<"pushbad", d, Slash(p), 5>>)
             \/ d = "i" /\ p # <<>> /\ Pull(d, p, <<>>) /\ p \in DOMAIN rx /\ H(<<"pull", d, Slash(p)>>)
     \/ \E b \in Messages : Incoming(b) /\ H(<<"in">> \o b)
     \/ Relay /\ H(<<"relay">>)
     \/ ~learn /\ SetLearn(TRUE) /\ H(<<"learn", 1>>)
     \/ learn /\ SetLearn(FALSE) /\ H(<<"learn", 0>>)
     \/ ~reg /\ Register /\ H(<<"register">>)
     \/ regq # <<>> /\ Collect /\ H(<<"collect">>)
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<nodes, gone, full, vals, lis, rx, wire, learn, reg, regq>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* every message of the sender, every value
ASSUME \A c \in {1, 2, 16}, k \in Kinds, n \in 0..127 :
         LET p == <<ToString(c), k>>  q == Append(p, ToString(n)) IN
         /\ Shape(p) = "pair" => Inverse(p, <<n, 127 - n>>)
         /\ k = "program" => Inverse(p, <<n>>) /\ Inverse(q, <<>>)
         /\ k = "pitchbend" => Inverse(p, <<n>>) /\ Inverse(p, <<16383 - 100 * n>>)
         /\ k \notin {"program", "pitchbend"} => Inverse(q, <<127 - n>>)
ASSUME \A s \in 128..255 : OneEach(<<s, 5, 6>>)
=============================================================================
