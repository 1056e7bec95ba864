------------------------------ MODULE TraceCode ------------------------------
(* Do the recorded codes and decoded numbers mean what they should?          *)
EXTENDS Code, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Traces[tr]
E == T.ev[l]
F(e) == IF e.fmt = "double" THEN Double ELSE Single
V(r) == [cls |-> r[1], neg |-> r[2] = 1, x |-> r[3], m |-> SubSeq(r, 4, Len(r))]
N(e) == [e EXCEPT !.real = V(e.real)]
TInit == tr \in DOMAIN Traces /\ l = 1
Step == /\ l <= Len(T.ev)
        /\ (CASE E.k = "enc" -> BinaryOK(F(E), V(E.v), E.code, V(E.back))
              [] E.k = "dec" -> DecodeOK(F(E), E.code, V(E.back))
              [] E.k = "div" -> DivOK(N(E))
              [] E.k = "named" -> NamedOK(N(E), 51)
              [] E.k = "pow" -> PowOK(N(E))
              [] E.k = "pair" -> PowPairOK(E.l, E.r)) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED l
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l>>
=============================================================================
