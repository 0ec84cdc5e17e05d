------------------------------- MODULE OscMC --------------------------------
(* Small histories of two devices: one pair of parameters of every type, pushes,
   bundles, direct messages, listeners, learning. *)
EXTENDS Osc, Json, FiniteSets
CONSTANTS MaxLen, Kinds, PTypes
VARIABLES hist
H(c) == hist' = Append(hist, c)
VerOf(k) == CASE k = "old" -> "old" [] k \in {"10c", "10s"} -> "1.0" [] k \in {"11c", "11s"} -> "1.1" [] OTHER -> "ext"
ValsOf(t) ==
  CASE t = "INT" -> {IntV(3), IntV(-1)}
    [] t = "FLOAT" -> {Float4(6), Float4(-1)}
    [] t = "BOOL" -> {BoolV(TRUE), BoolV(FALSE)}
    [] t = "CHAR" -> {CharV(65)}
    [] t = "STRING" -> {Str("ab"), Str("")}
    [] t = "VEC2F" -> {Vec(<<1, 8>>)}
    [] t = "VEC3F" -> {Vec(<<1, 8, -4>>)}
    [] t = "VEC4F" -> {Vec(<<4, 8, 12, 400>>)}
    [] t = "IMPULSE" -> {Impulse}
    [] t = "LIST" -> {List(<<IntV(1)>>), List(<<Str("x"), List(<<Float4(2), BoolV(TRUE)>>), CharV(66), Impulse>>), List(<<Vec(<<2, 4>>), IntV(7)>>)}
Argss == { <<>>, << Arg("i", IntV(7)) >>, << Arg("s", Str("2.5")) >>, << Tag("T") >>, << Arg("f", Float4(3)), Arg("f", Float4(-4)) >>,
           << Tag("["), Arg("i", IntV(1)), Tag("["), Tag("I"), Tag("]"), Tag("]"), Arg("c", CharV(67)) >>, << Arg("r", Vec(<<4, 8, 12, 1020>>)) >> }
Addrs == {"/a", "/*", "/b", "/a/q"}
RECURSIVE Spell(_)
Spell(args) == IF args = <<>> THEN <<>> ELSE << Head(args).g, Head(args).v >> \o Spell(Tail(args))
MCInit == \E k \in Kinds : \E t \in PTypes : \E rt \in PTypes \cup {"LIST", "STRING", "FLOAT"} : \E u \in {""} \cup (IF t = "VEC4F" THEN {"color.rgba8"} ELSE {}) :
  /\ (rt = t \/ t \in {"INT", "STRING"})
  /\ (rt = "CHAR" => t = "CHAR")
  /\ snd = [n \in {"/a"} |-> [Par(t) EXCEPT !.unit = u]]
  /\ rcv = [n \in {"/a", "/a/x"} |-> IF n = "/a" THEN [Par(rt) EXCEPT !.unit = IF rt = t THEN u ELSE ""] ELSE [Par("FLOAT") EXCEPT !.cb = TRUE]]
  /\ cfg = [ver |-> VerOf(k), client |-> k = "old" \/ SubSeq(k, 3, 3) = "c"]
  /\ learn = FALSE /\ obs = Quiet
  /\ hist = << <<"cfg", k>>, <<"new", "s", "/a", t>>, <<"new", "r", "/a", rt>>, <<"new", "r", "/a/x", "FLOAT">>, <<"listen", "/a/x", 1>> >>
       \o (IF u = "" THEN <<>> ELSE << <<"attr", "s", "/a", "unit", u>> >> \o (IF rt = t THEN << <<"attr", "r", "/a", "unit", u>> >> ELSE <<>>))
Setup == Cardinality({i \in 1..Len(hist) : i <= 5 \/ (i <= 7 /\ hist[i][1] = "attr" /\ hist[i][4] = "unit")})
Charless == \A n \in DOMAIN rcv : rcv[n].t # "CHAR"
MCNext ==
  /\ Len(hist) - Setup < MaxLen
  /\ \/ \E v \in ValsOf(snd["/a"].t) : Push("/a", v) /\ H(<<"push", "/a", v>>)
     \/ (cfg.ver = "old" => snd["/a"].acc = "BI") /\ Bundle(<<"/a", "/a">>) /\ H(<<"bundle", "/a", "/a">>)
     \/ \E v \in ValsOf(snd["/a"].t) : Raw("/a", v, v) /\ H(<<"raw", "/a", v, v>>)
     \/ \E a \in Addrs : \E x \in Argss : Charless /\ (~learn \/ a # "/*") /\ Incoming(<< Msg(a, x) >>) /\ H(<<"msg", a>> \o Spell(x))
     \/ \E a \in {"/a/x", "/n/m"} : \E x \in Argss : Charless /\ ~learn /\ Incoming(<< Msg(a, x), Msg("/*/x", << Arg("f", Float4(9)) >>) >>)
                                    /\ H(<<"nested", a>> \o Spell(x) \o <<"/", "/*/x", "f", Float4(9)>>)
     \/ ~learn /\ SetLearn(TRUE) /\ H(<<"learn", 1>>)
     \/ learn /\ SetLearn(FALSE) /\ H(<<"learn", 0>>)
     \/ "/a" \in DOMAIN rcv /\ rcv["/a"].live /\ ~rcv["/a"].cb /\ Listen("/a", TRUE) /\ H(<<"listen", "/a", 1>>)
     \/ "/a" \in DOMAIN rcv /\ Rename("/a", "k") /\ H(<<"rename", "/a", "k">>)
     \/ "/a" \in DOMAIN rcv /\ rcv["/a"].live /\ DropPar("/a") /\ H(<<"droppar", "/a">>)
     \/ snd["/a"].acc = "BI" /\ AttrS("/a", "acc", "GET") /\ H(<<"attr", "s", "/a", "acc", "GET">>)
     \/ ~snd["/a"].rep /\ AttrS("/a", "rep", TRUE) /\ H(<<"attr", "s", "/a", "rep", 1>>)
MCSpec == MCInit /\ [][MCNext]_<<ovars, hist>>
View == <<snd, rcv, cfg, learn, obs, Len(hist)>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
=============================================================================
