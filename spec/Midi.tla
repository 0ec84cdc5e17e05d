--------------------------------- MODULE Midi --------------------------------
(* The MIDI devices: "i" receives channel messages, "o" sends them, and "wire"
   holds what "o" has sent and the harness has not relayed yet.
   A node is the sequence of names that leads to it: <<>> is the root (raw
   bytes), <<"3">> a channel, <<"3", "on">> all its notes, <<"3", "on", "60">>
   one of them. Values: an int is <<x>>, a note or a control is <<n, x>>, an
   impulse <<>>. *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE FiniteSets
Devs == {"i", "o"}
VARIABLES nodes,  \* device -> nodes created one by one
          full,   \* device -> the complete tree is there ...
          gone,   \* ... but what was removed from it
          vals,   \* device -> node -> value
          lis,    \* device -> node -> number of callbacks (those > 0)
          rx,     \* <<channel, kind>> or <<channel, kind, n>> -> last data received
          wire, learn, reg, regq, obs
dvars == <<nodes, full, gone, vals, lis, rx, wire, learn, reg, regq, obs>>
Kinds == {"on", "off", "control", "program", "pitchbend"}
Chans == {ToString(c) : c \in 1..16}
Nums == {ToString(c) : c \in 0..127}
Num(s) == CHOOSE c \in 0..127 : ToString(c) = s
Empty == [x \in {} |-> x]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
\* The nodes a MIDI tree may have.
Legal(p) ==
  CASE Len(p) = 0 -> TRUE
    [] Len(p) = 1 -> p[1] \in Chans
    [] Len(p) = 2 -> p[1] \in Chans /\ p[2] \in Kinds
    [] Len(p) = 3 -> p[1] \in Chans /\ p[2] \in Kinds \ {"pitchbend"} /\ p[3] \in Nums
    [] OTHER -> FALSE
Exists(d, p) == p = <<>> \/ p \in nodes[d] \/ (full[d] /\ Legal(p) /\ ~\E q \in gone[d] : Prefix(q, p))
Param(p) == Len(p) # 1
\* What a parameter carries.
Shape(p) ==
  CASE Len(p) = 0 -> "raw"
    [] Len(p) = 2 -> (IF p[2] \in {"program", "pitchbend"} THEN "int" ELSE "pair")
    [] OTHER -> (IF p[2] = "program" THEN "impulse" ELSE "int")
Default(p) ==
  CASE Shape(p) = "pair" -> <<64, 64>>
    [] Shape(p) = "int" -> (IF p[2] = "pitchbend" THEN <<0>> ELSE <<64>>)
    [] OTHER -> <<>>
Value(d, p) == IF p \in DOMAIN vals[d] THEN vals[d][p] ELSE Default(p)
Count(d, p) == IF p \in DOMAIN lis[d] THEN lis[d][p] ELSE 0
Put(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
Without(f, p) == [q \in {r \in DOMAIN f : ~Prefix(p, r)} |-> f[q]]
\* ---------------------------------------------------------------- messages
Status(k) == CASE k = "on" -> 144 [] k = "off" -> 128 [] k = "control" -> 176
               [] k = "program" -> 192 [] k = "pitchbend" -> 224
KindOf(s) == CASE s = 9 -> "on" [] s = 8 -> "off" [] s = 11 -> "control"
               [] s = 12 -> "program" [] s = 14 -> "pitchbend" [] OTHER -> "none"
\* The message a value stands for on a node.
Encode(p, v) ==
  IF p = <<>> THEN v
  ELSE LET k == p[2]
           s == Status(k) + Num(p[1]) - 1 IN
    CASE k = "pitchbend" -> <<s, v[1] % 128, v[1] \div 128>>
      [] k = "program" -> (IF Len(p) = 3 THEN <<s, Num(p[3])>> ELSE <<s, v[1]>>)
      [] Len(p) = 3 -> <<s, Num(p[3]), v[1]>>
      [] OTHER -> <<s, v[1], v[2]>>
Chan(b) == ToString((b[1] % 16) + 1)
Kind(b) == KindOf(b[1] \div 16)
\* The nodes a message stands for, with the value it gives them.
Decode(b) ==
  LET k == Kind(b)  c == Chan(b) IN
    CASE k \in {"on", "off", "control"} -> <<[p |-> <<c, k>>, v |-> <<b[2], b[3]>>], [p |-> <<c, k, ToString(b[2])>>, v |-> <<b[3]>>]>>
      [] k = "program" -> <<[p |-> <<c, k>>, v |-> <<b[2]>>], [p |-> <<c, k, ToString(b[2])>>, v |-> <<>>]>>
      [] k = "pitchbend" -> <<[p |-> <<c, k>>, v |-> <<b[3] * 128 + b[2]>>]>>
      [] OTHER -> <<>>
Targets(b) == {Decode(b)[j].p : j \in 1..Len(Decode(b))}
ValueIn(b, p) == LET D == Decode(b) IN D[CHOOSE j \in 1..Len(D) : D[j].p = p].v
\* ------------------------------------------------------------------ actions
\* what is told to callbacks, per node; messages sent; result
Quiet(sent, ok, v) == obs' = [told |-> {}, sent |-> sent, ok |-> ok, v |-> v]
Keep(xs) == UNCHANGED xs
Make(d, p, n) ==
  LET q == Append(p, n) IN
  /\ Exists(d, p) /\ ~Exists(d, q)
  /\ nodes' = IF Legal(q) THEN [nodes EXCEPT ![d] = @ \cup {q}] ELSE nodes
  /\ Quiet(<<>>, Legal(q), <<>>) /\ Keep(<<full, gone, vals, lis, rx, wire, learn, reg, regq>>)
Remove(d, p) ==
  /\ p # <<>> /\ Exists(d, p)
  /\ nodes' = [nodes EXCEPT ![d] = {q \in @ : ~Prefix(p, q)}]
  /\ gone' = IF full[d] THEN [gone EXCEPT ![d] = @ \cup {p}] ELSE gone
  /\ vals' = [vals EXCEPT ![d] = Without(@, p)] /\ lis' = [lis EXCEPT ![d] = Without(@, p)]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<full, rx, wire, learn, reg, regq>>)
Fill(d) ==
  /\ nodes' = [nodes EXCEPT ![d] = {}] /\ full' = [full EXCEPT ![d] = TRUE] /\ gone' = [gone EXCEPT ![d] = {}]
  /\ vals' = [vals EXCEPT ![d] = Empty] /\ lis' = [lis EXCEPT ![d] = Empty]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<rx, wire, learn, reg, regq>>)
Listen(d, p) ==
  /\ Exists(d, p) /\ Param(p) /\ lis' = [lis EXCEPT ![d] = Put(@, p, Count(d, p) + 1)]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, vals, rx, wire, learn, reg, regq>>)
Unlisten(d, p) ==
  /\ Count(d, p) > 0
  /\ lis' = [lis EXCEPT ![d] = IF Count(d, p) = 1 THEN [q \in DOMAIN @ \ {p} |-> @[q]] ELSE Put(@, p, @[p] - 1)]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, vals, rx, wire, learn, reg, regq>>)
\* A push on the sending device is one message; on the receiving one it is none.
Push(d, p, v) ==
  /\ Exists(d, p) /\ Param(p) /\ vals' = [vals EXCEPT ![d] = Put(@, p, v)]
  /\ LET m == IF d = "o" THEN <<Encode(p, v)>> ELSE <<>> IN wire' = wire \o m /\ Quiet(m, TRUE, <<>>)
  /\ Keep(<<nodes, full, gone, lis, rx, learn, reg, regq>>)
PushCurrent(d, p) == Exists(d, p) /\ Push(d, p, Value(d, p))
\* A note or a control without both numbers is no message.
PushBad(d, p, v) ==
  /\ Exists(d, p) /\ Shape(p) = "pair" /\ Len(v) < 2 /\ vals' = [vals EXCEPT ![d] = Put(@, p, v)]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, lis, rx, wire, learn, reg, regq>>)
\* A value set locally is told to the callbacks and sends nothing.
Assign(d, p, v) ==
  /\ Exists(d, p) /\ Param(p) /\ vals' = [vals EXCEPT ![d] = Put(@, p, v)]
  /\ obs' = [told |-> IF Count(d, p) > 0 THEN {[p |-> p, v |-> v, n |-> Count(d, p), m |-> 0]} ELSE {}, sent |-> <<>>, ok |-> TRUE, v |-> <<>>]
  /\ Keep(<<nodes, full, gone, lis, rx, wire, learn, reg, regq>>)
Get(d, p) == Exists(d, p) /\ Param(p) /\ Quiet(<<>>, TRUE, Value(d, p)) /\ Keep(<<nodes, full, gone, vals, lis, rx, wire, learn, reg, regq>>)
\* The data last received for a node, listened to or not (free as long as there is none).
Pull(d, p, was) ==
  /\ Exists(d, p) /\ Param(p)
  /\ LET can == d = "i" /\ Shape(p) \notin {"raw", "impulse"}
         v == IF ~can THEN Value(d, p) ELSE IF p \in DOMAIN rx THEN rx[p] ELSE was IN
       /\ vals' = IF can THEN [vals EXCEPT ![d] = Put(@, p, v)] ELSE vals
       /\ obs' = [told |-> IF can /\ Count(d, p) > 0 THEN {[p |-> p, v |-> v, n |-> Count(d, p), m |-> 0]} ELSE {},
                  sent |-> <<>>, ok |-> TRUE, v |-> v]
  /\ Keep(<<nodes, full, gone, lis, rx, wire, learn, reg, regq>>)
\* A message comes in on "i".
Hear(b) ==
  /\ vals' = [vals EXCEPT !["i"] = [p \in DOMAIN @ \cup {q \in Targets(b) : Count("i", q) > 0} |->
                                     IF p \in Targets(b) /\ Count("i", p) > 0 THEN ValueIn(b, p) ELSE @[p]]]
  /\ rx' = [p \in DOMAIN rx \cup {q \in Targets(b) : Shape(q) # "impulse"} |-> IF p \in Targets(b) THEN ValueIn(b, p) ELSE rx[p]]
  /\ regq' = IF reg THEN Append(regq, b) ELSE regq
  /\ obs' = [told |-> {[p |-> q, v |-> ValueIn(b, q), n |-> Count("i", q), m |-> 1] : q \in {r \in Targets(b) : Count("i", r) > 0}},
             sent |-> <<>>, ok |-> TRUE, v |-> <<>>]
  /\ Keep(<<nodes, full, gone, lis>>)
\* While learning, it makes the nodes that stand for it and does nothing else.
Learnt(b) ==
  LET all == UNION {{SubSeq(q, 1, j) : j \in 1..Len(q)} : q \in Targets(b)} IN
  \* (a message of another kind may still make the node of its channel)
  /\ \E more \in {{}, {<<Chan(b)>>}} :
       /\ more # {} => Targets(b) = {}
       /\ nodes' = [nodes EXCEPT !["i"] = @ \cup {q \in all \cup more : ~Exists("i", q)}]
  /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<full, gone, vals, lis, rx, regq>>)
Receive(b) == IF learn THEN Learnt(b) ELSE Hear(b)
Incoming(b) == Receive(b) /\ Keep(<<wire, learn, reg>>)
Relay == wire # <<>> /\ wire' = Tail(wire) /\ Receive(Head(wire)) /\ Keep(<<learn, reg>>)
SetLearn(b) == learn' = b /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, vals, lis, rx, wire, reg, regq>>)
Register == reg' = TRUE /\ Quiet(<<>>, TRUE, <<>>) /\ Keep(<<nodes, full, gone, vals, lis, rx, wire, learn, regq>>)
Collect == Quiet(regq, TRUE, <<>>) /\ regq' = <<>> /\ Keep(<<nodes, full, gone, vals, lis, rx, wire, learn, reg>>)
DInit == /\ nodes = [d \in Devs |-> {}] /\ full = [d \in Devs |-> FALSE] /\ gone = [d \in Devs |-> {}]
         /\ vals = [d \in Devs |-> Empty] /\ lis = [d \in Devs |-> Empty] /\ rx = Empty /\ wire = <<>>
         /\ learn = FALSE /\ reg = FALSE /\ regq = <<>> /\ obs = [told |-> {}, sent |-> <<>>, ok |-> TRUE, v |-> <<>>]
\* --------------------------------------------------------------- properties
\* Both directions are inverse: what a node sends stands for that node, with that value.
Inverse(p, v) == p \in Targets(Encode(p, v)) /\ ValueIn(Encode(p, v), p) = v
\* A message stands for one node of each depth, of its own channel and kind.
OneEach(b) == \A p, q \in Targets(b) : (Len(p) = Len(q) => p = q) /\ p[1] = q[1] /\ p[2] = q[2]
Closed == \A d \in Devs : \A p \in nodes[d] : Legal(p) /\ Exists(d, Parent(p))
ListenedExist == \A d \in Devs : \A p \in DOMAIN lis[d] : Exists(d, p)
ValuesExist == \A d \in Devs : \A p \in DOMAIN vals[d] : Exists(d, p)
=============================================================================
