------------------------------ MODULE TokenMC -------------------------------
EXTENDS Token, TLC, Json
CONSTANTS MaxDate, MaxLen
VARIABLE step
MCInit == \E f \in 0..MaxDate, t \in 0..MaxDate, o \in {0, 3}, s \in {0, 5}, n \in 1..MaxLen :
            LoopInit([from |-> f, to |-> t, off |-> o, start |-> s, len |-> n]) /\ step = 0
MCNext == LoopStep /\ step' = step + 1
MCSpec == MCInit /\ [][MCNext]_<<lvars, step>> /\ WF_<<lvars, step>>(MCNext)
\* every split ends, with the same cut as the function used on the traces
Ends == <>LoopDone
SameCut == LoopDone => subs = Loop(par)
Emit == LoopDone' => PrintT("SCRIPT " \o ToJson(<< <<"loop", par.from, par.to, par.off, par.start, par.len>> >>))
=============================================================================
