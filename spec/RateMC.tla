------------------------------- MODULE RateMC -------------------------------
(* The limiter's thread: it takes what was pushed, keeps the newest value of
   each parameter and sends them one by one while pushes go on. *)
EXTENDS Rate, TLC, Json
LOCAL INSTANCE FiniteSets
CONSTANT MaxLen
VARIABLES user,  \* Pars -> the value waiting, or none
          thr,   \* Pars -> the value being sent, or none
          pc, hist
allvars == <<rvars, user, thr, pc, hist>>
Idle == [p \in Pars |-> NoVal]
H(c) == hist' = Append(hist, c)
X == V("INT", 4 * Len(hist), "", <<>>)
MCInit == RInit /\ user = Idle /\ thr = Idle /\ pc = "sleep" /\ hist = <<>>
UserPush(p) == Push(p, X) /\ user' = [user EXCEPT ![p] = X] /\ UNCHANGED <<thr, pc>> /\ H(<<"push", p, X>>)
\* (the removal waits for what is being sent)
UserRemove(p) == pc = "sleep" /\ Remove(p) /\ user' = [user EXCEPT ![p] = NoVal] /\ UNCHANGED <<thr, pc>> /\ H(<<"del", p>>)
UserCreate(p) == Create(p) /\ UNCHANGED <<user, thr, pc>> /\ H(<<"new", p>>)
User == Len(hist) < MaxLen /\ \E p \in Pars : UserPush(p) \/ UserRemove(p) \/ UserCreate(p)
Take == pc = "sleep" /\ (\E p \in Pars : user[p] # NoVal) /\ thr' = user /\ user' = Idle /\ pc' = "send" /\ UNCHANGED <<rvars>>
        /\ hist' = (IF Len(hist) < MaxLen /\ (hist = <<>> \/ hist[Len(hist)] # <<"settle">>) THEN Append(hist, <<"settle">>) ELSE hist)
SendOne == pc = "send" /\ \E p \in Pars : thr[p] # NoVal /\ Send(p, thr[p]) /\ thr' = [thr EXCEPT ![p] = NoVal]
           /\ UNCHANGED <<user, pc, hist>>
Done == pc = "send" /\ (\A p \in Pars : thr[p] = NoVal) /\ pc' = "sleep" /\ UNCHANGED <<rvars, user, thr, hist>>
Thread == Take \/ SendOne \/ Done
MCNext == User \/ Thread
MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(Thread)
View == <<rvars, user, thr, pc, Len(hist)>>
Emit == Len(hist') = Len(hist) \/ PrintT("SCRIPT " \o ToJson(hist'))
\* the thread can always send what it has: it is among what was pushed
CanSend == \A p \in Pars : thr[p] # NoVal => p \in live /\ \E i \in 1..Len(pend[p]) : pend[p][i] = thr[p]
Newest == \A p \in Pars : pend[p] # <<>> => (IF user[p] # NoVal THEN user[p] ELSE thr[p]) = pend[p][Len(pend[p])]
NothingOld == \A p \in Pars : pend[p] = <<>> => user[p] = NoVal /\ thr[p] = NoVal
EventuallySent == \A p \in Pars : (pend[p] # <<>>) ~> (pend[p] = <<>>)
=============================================================================
