------------------------------- MODULE MCPSO -------------------------------
(* All behaviours of a swarm of KK particles on PP positions, for every     *)
(* objective function on those positions.                                   *)
EXTENDS PSO
CONSTANTS KK, PP, Vals, MaxGen, MaxFails, Dirs
VARIABLE obj
mvars == <<pvars, obj>>
MInit == /\ PInit /\ obj \in [1..PP -> Vals]
         /\ cfg \in { [K |-> KK, maxGen |-> MaxGen, maxFail |-> mf, dir |-> d, record |-> TRUE,
                       num |-> FALSE, w8 |-> 0, cP8 |-> 0, cG8 |-> 0, lo |-> <<>>, hi |-> <<>>,
                       vm |-> <<>>] : mf \in MaxFails, d \in Dirs }
UpdateAny == LET q == [ i \in DOMAIN part |-> NewP(part[i]) ]
                 b == Extreme({ q[i].pf : i \in DOMAIN q })
             IN IF Better(b, gb.f)
                THEN \E i \in DOMAIN q : q[i].pf = b /\ Update([x |-> q[i].px, f |-> b], 0)
                ELSE Update(gb, fail+1)
First == CHOOSE i \in todo : \A j \in todo : i <= j
MNext ==
  /\ \/ phase = "new" /\ Populate
     \/ phase = "init" /\ todo # {} /\ \E x \in 1..PP : EvalInit(First, x, obj[x])
     \/ phase = "init" /\ todo = {} /\ Ready(part, [x |-> part[1].x, f |-> part[1].f], <<>>)
     \/ phase = "ready" /\ StartRun
     \/ phase = "eval" /\ todo # {} /\ Evaluate(First, part[First].x, obj[part[First].x])
     \/ phase = "eval" /\ todo = {} /\ UpdateAny
     \/ phase = "decide" /\ Finish(gen-1, part, rec)
     \/ phase = "decide" /\ \E xs \in [DOMAIN part -> 1..PP] :
           Move([ i \in DOMAIN part |-> [part[i] EXCEPT !.x = xs[i]] ], <<>>, <<>>)
     \/ phase = "done" /\ UNCHANGED pvars
  /\ UNCHANGED obj
MSpec == MInit /\ [][MNext]_mvars
Obligations == {"P01","P02"}
TrueFit == phase \in {"decide","done"} => gb.f = obj[gb.x] /\
             \A i \in DOMAIN part : part[i].pf = obj[part[i].px] /\ part[i].f = obj[part[i].x]
NeverWorse == [][ (phase = "eval" /\ phase' = "decide") => ~Better(gb.f, gb'.f) ]_mvars
=============================================================================
