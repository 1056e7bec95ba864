------------------------------ MODULE TraceAOS ------------------------------
EXTENDS AOS, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Ev == Traces[tr].ev
E  == Ev[l]
K(k) == l <= Len(Ev) /\ E.k = k
Els(s) == [ i \in DOMAIN s |-> [x |-> s[i][1], f |-> s[i][2], new |-> s[i][3] = 1] ]
TInit == AInit /\ cfg = <<>> /\ tr \in DOMAIN Traces /\ l = 1
Adv == l' = l + 1
(* number of survivors in a snapshot: the leading evaluated electrons *)
Old(s) == { i \in DOMAIN s : s[i][3] = 0 }
Front1(s,n) == SubSeq(s, 1, n)
ReportedSelect == LET n == Cardinality(Old(E.el))
                  IN /\ On("A01", Old(E.el) = 1..n)
                     /\ Select(Els(Front1(E.el,n)), Front1(E.m,n), E.L, E.b, E.be, E.bs, E.es)
(* the very first snapshot after initializePop shows what was initialised *)
Step ==
  \/ K("C") /\ Configure(E.c) /\ Adv
  \/ K("I") /\ Populate(Els(E.el), E.m, E.g, E.es) /\ Adv
  \/ K("R") /\ StartRun /\ Adv
  \/ K("G") /\ phase = "eval" /\ todo # {} /\ \A i \in todo : el[i].new
            /\ On("A01", Els(E.el) = el /\ E.g = gen)
            /\ Adv /\ UNCHANGED avars
  \/ K("E") /\ Evaluate(E.i, E.x, E.f) /\ Adv
  \/ (K("G") \/ K("Z")) /\ phase = "eval" /\ todo = {} /\ ReportedSelect /\ UNCHANGED l
  \/ K("G") /\ phase = "decide" /\ Emit(Els(E.el), E.m, E.lb) /\ UNCHANGED l
  \/ K("Z") /\ phase = "decide" /\ On("A01", Els(E.el) = el)
            /\ On("A02", mix[1] >= 40 => mix[2] > 0 /\ mix[2] < mix[1])
            /\ Finish(E.g, E.r) /\ Adv
TNext == /\ \/ Step
            \/ l > Len(Ev) /\ UNCHANGED <<avars, l>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<avars, tr, l>>
=============================================================================
