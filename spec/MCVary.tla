------------------------------- MODULE MCVary -------------------------------
(* A tiny line of parents under the operators: what children can be, and    *)
(* that nothing is lost or invented.                                        *)
EXTENDS Vary, TLC
CONSTANTS N, Top
Vals == 0..Top
VARIABLES a, b, c, d, op
vars == <<a,b,c,d,op>>
Init == a \in [1..N -> Vals] /\ b \in [1..N -> Vals] /\ c = a /\ d = b /\ op = "none"
Try(o,P(_,_)) == op = "none" /\ op' = o /\ UNCHANGED <<a,b>>
                 /\ c' \in [1..N -> Vals] /\ d' \in [1..N -> Vals] /\ P(c',d')
Swap == Try("swap", LAMBDA x,y : SwapOK(a,b,x,y))
Mix  == Try("mix", LAMBDA x,y : MixOK(a,b,x,y))
Blend == Try("blend", LAMBDA x,y : BlendOK(1,2,a,b,x,y))
Symbol == Try("symbol", LAMBDA x,y : SymbolOK([i \in 1..N |-> 0],[i \in 1..N |-> Top],a,x) /\ y = b)
Step == Try("step", LAMBDA x,y : StepOK([i \in 1..N |-> 0],[i \in 1..N |-> Top],[i \in 1..N |-> 0],a,x) /\ y = b)
Next == Swap \/ Mix \/ Blend \/ Symbol \/ Step
Spec == Init /\ [][Next]_vars
(* an exchange keeps the multiset of every position; the blend its middle   *)
Conserved == /\ op = "swap" => \A i \in 1..N : c[i] + d[i] = a[i] + b[i]
             /\ op = "swap" => c[N] = b[N] /\ d[N] = a[N]
             /\ op = "mix" /\ a = b => c = a /\ d = b
             /\ op = "swap" => MixOK(a,b,c,d)
             /\ op = "blend" => \A i \in 1..N : Abs(c[i] + d[i] - a[i] - b[i]) <= 2
             /\ op = "symbol" => c # a
             /\ op = "step" => Cardinality({i \in 1..N : c[i] # a[i]}) <= 1
(* every crossover is possible *)
Possible == op = "none" => (\E k \in 1..N : TRUE) /\ SwapOK(a,b,b,a) /\ MixOK(a,b,a,a)
=============================================================================
