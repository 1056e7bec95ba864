------------------------------ MODULE TracePSO ------------------------------
EXTENDS PSO, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Ev == Traces[tr].ev
E  == Ev[l]
K(k) == l <= Len(Ev) /\ E.k = k
Swarm(s) == [ i \in DOMAIN s |-> [x |-> s[i][1], f |-> s[i][2], px |-> s[i][3], pf |-> s[i][4]] ]
Pt(s) == [x |-> s[1], f |-> s[2]]
TInit == PInit /\ cfg = <<>> /\ tr \in DOMAIN Traces /\ l = 1
Adv == l' = l + 1
StartOK(m) == cfg.num => \A i \in DOMAIN m :
                 /\ InBox(m[i][1])
                 /\ m[i][3] = m[i][1]
                 /\ cfg.zero => \A d \in Dims : m[i][2][d] = 0
Step ==
  \/ K("C") /\ Configure(E.c) /\ Adv
  \/ K("P") /\ Populate /\ Adv
  \/ K("E") /\ phase = "init" /\ EvalInit(E.i, E.x, E.f) /\ Adv
  \/ K("I") /\ Ready(Swarm(E.p), Pt(E.b), E.m) /\ On("P01", E.g = 0 /\ E.fl = 0)
            /\ On("P02", StartOK(E.m)) /\ Adv
  \/ K("R") /\ StartRun /\ Adv
  \/ K("G") /\ phase = "eval" /\ todo = DOMAIN part /\ gen = E.n
            /\ (gen = 1 => Unmoved(Swarm(E.p), E.m, Pt(E.b)))
            /\ l' = l + 1 /\ UNCHANGED pvars
  \/ K("E") /\ phase = "eval" /\ Evaluate(E.i, E.x, E.f) /\ Adv
  \/ (K("G") \/ K("Z")) /\ phase = "eval" /\ todo # DOMAIN part
            /\ Update(Pt(E.b), E.fl) /\ UNCHANGED l
  \/ K("G") /\ phase = "decide" /\ Move(Swarm(E.p), E.m, E.gb) /\ UNCHANGED l
  \/ K("Z") /\ phase = "decide" /\ Finish(E.g, Swarm(E.p), E.r)
            /\ On("P02", mix[1] >= 30 => 2*mix[2] < mix[1]) /\ Adv
TNext == /\ \/ Step
            \/ l > Len(Ev) /\ UNCHANGED <<pvars, l>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<pvars, tr, l>>
=============================================================================
