------------------------------ MODULE TraceBox ------------------------------
(* Are recorded histories of the real boxes behaviours of Box?              *)
EXTENDS Box, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
T == Traces[tr]
E == T.ev[l]
C == T.box
TInit == tr \in DOMAIN Traces /\ l = 1
         /\ s = [ None EXCEPT !.n = Traces[tr].n, !.rows = Traces[tr].rows, !.cols = Traces[tr].cols,
                              !.min = Traces[tr].min, !.max = Traces[tr].max, !.delta = Traces[tr].delta ]
Step == /\ l <= Len(T.ev)
        /\ IF E.k # "op" THEN UNCHANGED s
           ELSE /\ Enabled_(C,s,E.o)
                /\ s' = [ Settings(C,s,E.o) EXCEPT !.v = E.v ]
        /\ (CASE E.k = "initlaw" -> InitLawOK(E)
              [] E.k = "mutlaw"  -> MutateLawOK(E)
              [] OTHER -> Outcome(C,Settings(C,s,E.o),E.o,E.v) /\ Reads(C,s',E.x)) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED <<l,s>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l,s>>
=============================================================================
