------------------------------ MODULE Framing -------------------------------
(* Messages over a byte stream (network/sockets): double-ended SLIP and a    *)
(* 32-bit big-endian size prefix.  The stream delivers the bytes in order,   *)
(* cut anywhere.                                                             *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Kind   \* "slip" or "size"

EOT == 192
ESC == 219
ESC_END == 220
ESC_ESC == 221

VARIABLES wire,    \* bytes sent and not yet received
          dec,     \* the decoder: st, buf, head
          got      \* messages handed to the user

(* -------------------------------- encoding ------------------------------- *)
SlipByte(b) == IF b = EOT THEN <<ESC, ESC_END>> ELSE IF b = ESC THEN <<ESC, ESC_ESC>> ELSE <<b>>
Encode(m) == IF Kind = "slip" THEN <<EOT>> \o FlattenSeq([k \in 1..Len(m) |-> SlipByte(m[k])]) \o <<EOT>>
             ELSE LET n == Len(m) IN <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>> \o m

(* -------------------------------- decoding ------------------------------- *)
Fresh == [st |-> IF Kind = "slip" THEN "waiting" ELSE "head", buf |-> <<>>, head |-> <<>>, out |-> <<>>]
SlipIn(d, b) ==
  CASE d.st = "waiting" -> IF b = EOT THEN [d EXCEPT !.st = "char", !.buf = <<>>] ELSE d
    [] d.st = "char" -> IF b = EOT THEN (IF d.buf = <<>> THEN d
                                         ELSE [d EXCEPT !.st = "waiting", !.out = Append(@, d.buf), !.buf = <<>>])
                        ELSE IF b = ESC THEN [d EXCEPT !.st = "esc"]
                        ELSE [d EXCEPT !.buf = Append(@, b)]
    [] d.st = "esc" -> IF b = ESC_END THEN [d EXCEPT !.st = "char", !.buf = Append(@, EOT)]
                       ELSE IF b = ESC_ESC THEN [d EXCEPT !.st = "char", !.buf = Append(@, ESC)]
                       ELSE [d EXCEPT !.st = "waiting", !.buf = <<>>]
Size(h) == ((h[1] * 256 + h[2]) * 256 + h[3]) * 256 + h[4]
SizeIn(d, b) ==
  CASE d.st = "head" -> LET h == Append(d.head, b) IN
                        IF Len(h) < 4 THEN [d EXCEPT !.head = h]
                        ELSE IF h[1] >= 128 THEN [d EXCEPT !.st = "dead"]
                        ELSE IF Size(h) = 0 THEN [d EXCEPT !.head = <<>>]
                        ELSE [d EXCEPT !.head = h, !.st = "body", !.buf = <<>>]
    [] d.st = "body" -> LET m == Append(d.buf, b) IN
                        IF Len(m) < Size(d.head) THEN [d EXCEPT !.buf = m]
                        ELSE [d EXCEPT !.st = "head", !.head = <<>>, !.buf = <<>>, !.out = Append(@, m)]
    [] d.st = "dead" -> d
In(d, b) == IF Kind = "slip" THEN SlipIn(d, b) ELSE SizeIn(d, b)
Decode(d, bytes) == FoldLeft(In, d, bytes)

(* --------------------------------- actions ------------------------------- *)
Send(m) == wire' = wire \o Encode(m) /\ UNCHANGED <<dec, got>>
Noise(bs) == wire' = wire \o bs /\ UNCHANGED <<dec, got>>
Receive(n) ==
  /\ n <= Len(wire)
  /\ LET d == Decode([dec EXCEPT !.out = <<>>], SubSeq(wire, 1, n)) IN dec' = d /\ got' = got \o d.out
  /\ wire' = SubSeq(wire, n + 1, Len(wire))
Init == wire = <<>> /\ dec = Fresh /\ got = <<>>
=============================================================================
