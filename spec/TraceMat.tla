------------------------------ MODULE TraceMat ------------------------------
(* Are recorded histories of the real matrices behaviours of Mat?           *)
EXTENDS Mat, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
T == Traces[tr]
E == T.ev[l]
TInit == tr \in DOMAIN Traces /\ l = 1 /\ s = Start
Step == /\ l <= Len(T.ev) /\ E.o[1] # "end"
        /\ Enabled_(s, E.o)
        /\ LET t == Apply(s, E.o)
           IN /\ (\A o \in Obj : SeenOK(t[o], E.x[o])) = TRUE
              /\ MemoryOK(E.o, E.x) = TRUE
              /\ s' = [o \in Obj |-> Learn(t[o], E.x[o])]
        /\ l' = l + 1
(* every element has been destroyed once, and only elements were used        *)
End == /\ l <= Len(T.ev) /\ E.o[1] = "end"
       /\ E.live = 0 /\ E.bad = 0
       /\ l' = l + 1 /\ UNCHANGED s
TNext == /\ \/ Step \/ End
            \/ l > Len(T.ev) /\ UNCHANGED <<l,s>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l,s>>
=============================================================================
