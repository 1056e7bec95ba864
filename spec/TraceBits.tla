------------------------------ MODULE TraceBits ------------------------------
(* Are recorded histories of the real multiBitSet behaviours of BitSet?     *)
EXTENDS BitSet, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s
T == Traces[tr]
E == T.ev[l]
TInit == tr \in DOMAIN Traces /\ l = 1 /\ s = [r \in 1..T.regs |-> <<>>]
Step == /\ l <= Len(T.ev)
        /\ Enabled_(s, E.o)
        /\ s' = Apply(s, E.o, T.bits)
        /\ (\A r \in 1..T.regs : SeenOK(s'[r], E.x[r], T.bits, T.bb)) = TRUE
        /\ MemoryOK(s', E.o, E.x, T.bits, T.bb) = TRUE
        /\ (E.ret = <<>> \/ E.ret = s'[E.o[2]][E.o[3]]) = TRUE
        /\ (E.w = <<>> \/ \A k \in 1..4 : /\ IterOK(s[E.o[2]], E.o[k+2], E.w[2*k-1])
                                           /\ IterOK(s[E.o[2]], E.o[k+2], E.w[2*k])) = TRUE
        /\ (E.rd = <<>> \/ E.rd = << s[E.o[2]][E.o[6]+1], s[E.o[2]][E.o[6]+1] >>) = TRUE
        /\ l' = l + 1
TNext == /\ \/ Step
            \/ l > Len(T.ev) /\ UNCHANGED <<l,s>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l,s>>
=============================================================================
