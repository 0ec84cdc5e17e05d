---------------------------- MODULE CallbacksMC ----------------------------
EXTENDS Callbacks, TLC, Json
VARIABLE hist, act
MaxH == 6
allvars == <<vars, hist, act>>
Do(A, c) == A /\ hist' = Append(hist, c) /\ act' = c
MCInit == Init /\ hist = <<>> /\ act = <<>>
MCNext ==
  /\ Len(hist) < MaxH
  /\ \/ \E i \in Ids, t \in Tags : Do(Add(i, t), <<"add", i, t>>) \/ Do(Replace(i, t), <<"replace", i, t>>)
     \/ \E i \in Ids : Do(Remove(i), <<"remove", i>>) \/ Do(Disable(i), <<"disable", i>>)
                        \/ Do(Restore(i), <<"restore", i>>)
     \/ Do(Clear, <<"clear">>) \/ Do(Send, <<"send">>) \/ Do(AddEmpty, <<"addempty">>)
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<order, [i \in Live |-> tag[i]], dis>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
HooksInv == HooksBalanced
=============================================================================
