------------------------------ MODULE TraceVary ------------------------------
(* Do the recorded calls of the real operators agree with Vary?             *)
EXTENDS Vary, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == tr \in DOMAIN Traces /\ l = 1
Step == /\ l <= Len(T.ev)
        /\ (IF E.law THEN VaryLawOK_(E) ELSE VaryOK(E)) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED l
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l>>
=============================================================================
