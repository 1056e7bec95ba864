------------------------------ MODULE TraceLaw ------------------------------
(* Do counted outcomes of the real solvers follow the laws?                 *)
EXTENDS Law, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
TInit == tr \in DOMAIN Traces /\ l = 1
Step == /\ l <= Len(T.ev)
        /\ (CASE E.k = "select" -> SelectLawOK(E) [] E.k = "crowd" -> CrowdLawOK(E) [] E.k = "play" -> CrowdPlayOK(E) [] E.k = "cells" -> CellsOK(E)
              [] E.k = "grid" -> GridOK(E) [] E.k = "layers" -> LayersLawOK(E) [] E.k = "many" -> ManyLawOK(E) [] E.k = "bad" -> E.n = 0
              [] OTHER -> VaryLawOK(E)) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED l
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l>>
=============================================================================
