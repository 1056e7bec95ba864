------------------------------ MODULE TraceBench ------------------------------
(* Do the functions return the published values?                             *)
EXTENDS Bench, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
(* sign, digits of the magnitude * 2^60; sign 2 is not a number *)
R(v) == Mk(v[1] = 1, SubSeq(v, 2, Len(v)))
TInit == tr \in DOMAIN Traces /\ l = 1
Step == /\ l <= Len(T.ev)
        /\ E.k = "at"
        /\ \A i \in DOMAIN E.o : \A j \in DOMAIN E.o[i] : E.o[i][j][1] # 2
        /\ BenchOK(E.fn, [i \in DOMAIN E.x |-> R(E.x[i])], E.m, E.a,
                   [i \in DOMAIN E.o |-> [j \in DOMAIN E.o[i] |-> R(E.o[i][j])]]) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED l
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l>>
=============================================================================
