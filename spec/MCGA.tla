-------------------------------- MODULE MCGA --------------------------------
(* Exhaustive exploration of the generational machine for small populations *)
EXTENDS GACore

CONSTANTS Kinds, Methods, Dirs, KK, MaxGen, MaxFails, MaxMut, Vals

FitDom(c) == IF c.kind = "soga" THEN Vals ELSE { <<a,b>> : a \in Vals, b \in Vals }

\* NSGA3 only minimises
Configs == { c \in { [kind |-> k, K |-> KK, maxGen |-> MaxGen, maxFail |-> mf, pc |-> 50, M |-> 2, layers |-> <<<<Unit,2>>>>,
              pm |-> 50, method |-> m, dir |-> d, elite |-> 1, tsize |-> 2,
              digits |-> 2, small |-> TRUE, record |-> TRUE] :
             k \in Kinds, m \in Methods, d \in Dirs, mf \in MaxFails } :
             c.kind # "nsga3" \/ c.dir = "less" }

MInit == GInit /\ cfg \in Configs

Points == IF cfg.kind = "nsga3" THEN << <<0,Unit>>, <<Unit \div 2,Unit \div 2>>, <<Unit,0>> >> ELSE <<>>
NewId == IF known = {} THEN 1 ELSE SetMax(known) + 1

(* all survivor sequences: order-preserving choices, plus appended copies   *)
Choices(p, k) ==
  IF Len(p) <= k THEN {p}
  ELSE { SelectSeq([ i \in DOMAIN p |-> [x |-> p[i], on |-> i \in S] ],
                   LAMBDA y : y.on) : S \in SUBSET DOMAIN p }
Strip(s) == [ i \in DOMAIN s |-> s[i].x ]
Survivors(p,k) ==
  IF Len(p) <= k THEN {p}
  ELSE LET subs == { Strip(s) : s \in { t \in Choices(p,k) : Len(t) <= k /\ Len(t) > 0 } }
       IN { s \in subs : Len(s) = k }
          \cup { s \o [ i \in 1..(k-Len(s)) |-> s[1] ] :
                 s \in { t \in subs : cfg.method = "Tournament" /\ Len(t) < k } }

MSelect ==
  \E np \in Survivors(pop,cfg.K) :
    IF Single
    THEN LET b == BestOf(cfg.dir,np)
             j == CHOOSE j \in DOMAIN np : np[j].fit = b
         IN SelectStep(np, b, np[j].id, FailRule(PrevBest,b), {}, <<>>, PrevBest)
    ELSE \E as \in (IF cfg.kind = "nsga3" THEN [DOMAIN np -> 1..3] ELSE {<<>>}) :
           SelectStep(np, IdealOf(cfg.dir,np), np[1].id, 0,
                      FrontIds(cfg.K,pop,Ranks(cfg.dir,pop),np), as, PrevBest)

MNext ==
  \/ phase = "new" /\ Initialize([ i \in 1..cfg.K |-> Ind(i,0) ], Points, 0)
  \/ phase = "ready" /\ StartRun
  \/ \E i \in DOMAIN pop, f \in FitDom(cfg) :
        /\ phase = "eval" /\ i \in Pending
        /\ \A j \in Pending : i <= j           \* order is irrelevant to the state
        /\ Evaluate(pop[i].id, pop[i].val, f)
  \/ phase = "eval" /\ Pending = {} /\ MSelect
  \/ Continue
  \/ /\ phase = "vary" /\ nX < surv \div 2
     /\ \E i,j \in 1..surv : i < j /\ Cross(pop[i].id, pop[j].id, NewId, 0, NewId+1, 0)
  \/ /\ phase = "vary" /\ Len(usedM) < MaxMut
     /\ \E i \in DOMAIN pop : i <= surv+2*nX /\ Mutate(pop[i].id, NewId, 0)
  \/ NextGen
  \/ Finish(gen-1, rec, pop)
  \/ phase = "done" /\ UNCHANGED gvars

MSpec == MInit /\ [][MNext]_gvars

Obligations == {"G01","G02","G03","S01","S02","S03","M01","M02","M03","M04","M05"}

(* the reported front is sound: nothing alive dominates a member of it      *)
ParetoSound ==
  (~Single /\ phase = "decide") =>
     \A i \in DOMAIN pop : DomRank(cfg.dir,pop,i) = 0
        \/ \E j \in DOMAIN pop : Dominates(cfg.dir,pop[j].fit,pop[i].fit)
(* no individual is dropped while one it dominates survives                 *)
NoDominatedSurvivor ==
  [][ (phase = "eval" /\ phase' = "decide" /\ cfg.kind # "soga") =>
        \A i \in DOMAIN pop : pop[i].id \notin Ids(pop') =>
           \A j \in DOMAIN pop' : ~Dominates(cfg.dir, pop[i].fit, pop'[j].fit) ]_gvars
(* termination: the lexicographic measure (generations left, phase work)    *)
GenMonotone == [][ gen' >= gen \/ phase' = "done" ]_gvars
=============================================================================
