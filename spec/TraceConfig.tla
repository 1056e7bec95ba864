----------------------------- MODULE TraceConfig -----------------------------
(* Are recorded histories of two real solvers behaviours of Config?         *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
T == Traces[tr]
K == Kinds[T.kind]
E == T.ev[l]
TInit == tr \in DOMAIN Traces /\ l = 1 /\ s = [r \in 1..2 |-> New(Kinds[Traces[tr].kind])]
Calls == { E.calls[n] : n \in DOMAIN E.calls }
(* one entry per slot: no function but the current one was called *)
Single == \A n, m \in DOMAIN E.calls : E.calls[n][1] = E.calls[m][1] => n = m
Step == /\ l <= Len(T.ev)
        /\ IF E.o[1] = "born"
           THEN s' = s /\ E.calls = <<>> /\ T.ct = K.slot /\ T.hp = K.arg
           ELSE /\ Can(K,s,E.o)
                /\ s' = After(K,s,E.o,E.gen,E.size)
                /\ Single
                /\ CallsOK(K,s,E.o,Calls,E.gen) = TRUE
                /\ SizeOK(K,s,E.o,E.size) = TRUE
        /\ (\A r \in 1..2 : E.x[r] = s'[r].set) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED <<l,s>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l,s>>
=============================================================================
