------------------------------- MODULE GACore -------------------------------
(* The generational machine shared by SOGA, NSGA2 and NSGA3:                *)
(*                                                                          *)
(*   initializePop ; run = ( evaluate ; select ; record ; stop? ;           *)
(*                           crossover ; mutate )*                          *)
(*                                                                          *)
(* Every guard is split into named clauses; Enforce says which families of  *)
(* clauses are obligations.  A model-checking configuration enforces all;   *)
(* a conformance check of one property enforces that property's clauses and *)
(* follows the recorded values for everything else.                         *)
EXTENDS Niche, TLC

CONSTANT Enforce

VARIABLES
  cfg,     \* [kind, K, maxGen, maxFail, pc, pm, method, dir, elite, tsize, digits, ...]
  phase,   \* "new" "ready" "eval" "decide" "vary" "done"
  gen,     \* generation being processed, 1-based while running
  fail,    \* generations without strict improvement of the best
  pop,     \* sequence of [id, val, done, fit]
  best,    \* fitness of the best individual (single objective)
  rec,     \* sequence of recorded best fitness values
  surv,    \* number of survivors of the last selection = Len(prefix of pop)
  usedX,   \* ids already used as crossover parents this generation
  usedM,   \* ids already used as mutation sources this generation
  nX,      \* crossover events this generation
  known,   \* ids ever created
  fresh,   \* no selection since initializePop
  refs     \* reference points (NSGA3)

gvars == <<cfg, phase, gen, fail, pop, best, rec, surv, usedX, usedM, nX, known, fresh, refs>>

On(c,p) == IF c \in Enforce THEN p = TRUE ELSE TRUE   \* "= TRUE": evaluated as a value, no branching

Single == cfg.kind = "soga"
Ind(i,v) == [id |-> i, val |-> v, done |-> FALSE, fit |-> 0]

GInit ==
  /\ phase = "new" /\ gen = 0 /\ fail = 0 /\ pop = <<>> /\ best = 0
  /\ rec = <<>> /\ surv = 0 /\ usedX = <<>> /\ usedM = <<>> /\ nX = 0
  /\ known = {} /\ fresh = TRUE /\ refs = <<>>

(* setOption / setSelectMethod / ... between runs *)
Configure(c) ==
  /\ phase \in {"new","ready","done"}
  /\ cfg' = c
  /\ UNCHANGED <<phase, gen, fail, pop, best, rec, surv, usedX, usedM, nX, known, fresh, refs>>

(* initializePop: one call of the initialisation function per individual *)
(* front: how many individuals the front has right after initialisation *)
Initialize(p,w,front) ==
  /\ phase \in {"new","ready","done"}
  /\ On("M04", cfg.kind = "nsga3" => RefsOK(cfg.M, cfg.layers, w))
  /\ refs' = IF cfg.kind = "nsga3" THEN [w |-> w, layers |-> cfg.layers] ELSE <<>>
  /\ On("G03", /\ Len(p) = cfg.K
               /\ Cardinality(Ids(p)) = Len(p)
               /\ Ids(p) \cap known = {})
  /\ On("G02", \A i \in DOMAIN p : ~p[i].done)
  /\ On("M02", front = 0)
  /\ pop' = p /\ known' = known \cup Ids(p)
  /\ phase' = "ready" /\ best' = 0 /\ rec' = <<>> /\ fresh' = TRUE
  /\ UNCHANGED <<cfg, gen, fail, surv, usedX, usedM, nX>>

StartRun ==
  /\ phase \in {"ready","done"}
  /\ phase' = "eval" /\ gen' = 1 /\ fail' = 0 /\ rec' = <<>>
  /\ surv' = 0 /\ usedX' = <<>> /\ usedM' = <<>> /\ nX' = 0
  /\ UNCHANGED <<cfg, pop, best, known, fresh, refs>>

Pending == { i \in DOMAIN pop : ~pop[i].done }

(* The fitness function is called for an individual that still needs it.    *)
Evaluate(id,v,f) ==
  /\ phase = "eval"
  /\ On("G02", \E i \in Pending : pop[i].id = id /\ pop[i].val = v)
  /\ pop' = [ i \in DOMAIN pop |->
                IF pop[i].id = id THEN [pop[i] EXCEPT !.done = TRUE, !.fit = f]
                ELSE pop[i] ]
  /\ UNCHANGED <<cfg, phase, gen, fail, best, rec, surv, usedX, usedM, nX, known, fresh, refs>>

(* Best fitness before this selection: the tracked best, which right after  *)
(* initializePop is the first individual.                                   *)
PrevBest == IF Single
            THEN (IF fresh THEN pop[1].fit ELSE best)
            ELSE 0

FailRule(prev, b) == IF Better(cfg.dir, b, prev) THEN 0 ELSE fail + 1

(* Stop tests, in the order the statement of the options implies.           *)
StopGen  == gen > cfg.maxGen
StopFail == cfg.maxFail > 0 /\ fail > cfg.maxFail
Stop     == StopGen \/ StopFail

(* Selection and recording.  np = survivors, b = reported best fitness,     *)
(* bid = reported best individual, fl = reported fail count, fr = reported  *)
(* front (multi-objective), as = reported reference points of the survivors.*)
SelectStep(np, b, bid, fl, fr, as, prev) ==
  /\ phase = "eval"
  /\ On("G02", Pending = {})
  /\ On("G02", \A j \in DOMAIN np :
                 /\ np[j].done
                 /\ \E i \in DOMAIN pop : /\ pop[i].id = np[j].id
                                          /\ pop[i].val = np[j].val
                                          /\ pop[i].fit = np[j].fit)
  /\ IF Single
     THEN /\ On("G01", fl = FailRule(prev, b))
          /\ On("S01", SizeOK(cfg.K, pop, np) /\ OriginOK(cfg.method, pop, np))
          /\ On("S02", PressureOK(cfg, pop, np))
          /\ On("S03", /\ \E j \in DOMAIN np : np[j].id = bid /\ np[j].fit = b
                       /\ b = BestOf(cfg.dir, np)
                       /\ fl = FailRule(prev, b)
                       /\ (Elitist(cfg.method) => b = BestOf(cfg.dir, pop)))
     ELSE /\ On("G01", fl = 0)
          /\ On("M01", /\ SizeOK(cfg.K, pop, np)
                       /\ OriginOK("nsga", pop, np)
                       /\ LayerOK(cfg.K, pop, Ranks(cfg.dir,pop), np))
          /\ On("M02", /\ fr = FrontIds(cfg.K, pop, Ranks(cfg.dir,pop), np)
                       /\ b = IdealOf(cfg.dir, np)
                       /\ fl = 0)
          /\ On("M03", cfg.kind = "nsga2" =>
                          CrowdOK(cfg.K, pop, Ranks(cfg.dir,pop), np, cfg.digits))
          /\ On("M05", cfg.kind = "nsga3" =>
                          NsgaThreeOK(cfg.K, refs.layers, refs.w, pop, Ranks(cfg.dir,pop), np, as))
  /\ pop' = np /\ best' = b /\ fail' = fl
  /\ rec' = Append(rec, b)
  /\ phase' = "decide"
  /\ surv' = Len(np)
  /\ fresh' = FALSE
  /\ UNCHANGED <<cfg, gen, usedX, usedM, nX, known, refs>>

Continue ==
  /\ phase = "decide"
  /\ On("G01", ~Stop)
  /\ phase' = "vary" /\ usedX' = <<>> /\ usedM' = <<>> /\ nX' = 0
  /\ UNCHANGED <<cfg, gen, fail, pop, best, rec, surv, known, fresh, refs>>

Uses(s,x) == Cardinality({ i \in DOMAIN s : s[i] = x })

(* Crossover: two different survivors, each at most once per generation,    *)
(* give two new individuals appended to the population.                     *)
Cross(p1, p2, c1, v1, c2, v2) ==
  /\ phase = "vary"
  /\ On("G03", /\ usedM = <<>>
               /\ LET sp == SubSeq(pop,1,surv)
                      u  == usedX \o <<p1,p2>>
                  IN \A x \in {p1,p2} : Uses(u,x) <= CountId(sp,x)
               /\ c1 # c2 /\ {c1,c2} \cap known = {})
  /\ pop' = pop \o << Ind(c1,v1), Ind(c2,v2) >>
  /\ usedX' = usedX \o <<p1,p2>> /\ nX' = nX + 1
  /\ known' = known \cup {c1,c2}
  /\ UNCHANGED <<cfg, phase, gen, fail, best, rec, surv, usedM, fresh, refs>>

(* Mutation: any individual alive after crossover, at most once each,       *)
(* yields one new individual appended to the population.                    *)
Mutate(s, d, v) ==
  /\ phase = "vary"
  /\ On("G03", /\ Uses(Append(usedM,s),s) <= CountId(SubSeq(pop,1,surv+2*nX),s)
               /\ d \notin known)
  /\ pop' = Append(pop, Ind(d,v))
  /\ usedM' = Append(usedM,s)
  /\ known' = known \cup {d}
  /\ UNCHANGED <<cfg, phase, gen, fail, best, rec, surv, usedX, nX, fresh, refs>>

(* End of variation.  With probability 1 everybody takes part, with         *)
(* probability 0 nobody does.                                               *)
NextGen ==
  /\ phase = "vary"
  /\ On("G03", /\ cfg.pc = 100 => nX = surv \div 2
               /\ cfg.pc = 0   => nX = 0
               /\ cfg.pm = 100 => Len(usedM) = surv + 2*nX
               /\ cfg.pm = 0   => usedM = <<>>)
  /\ phase' = "eval" /\ gen' = gen + 1
  /\ UNCHANGED <<cfg, fail, pop, best, rec, surv, usedX, usedM, nX, known, fresh, refs>>

(* run() returns. *)
Finish(g, r, np) ==
  /\ phase = "decide"
  /\ On("G01", /\ Stop
               /\ g = gen - 1
               /\ cfg.record => Len(r) = g + 1)
  /\ On("S03", (Single /\ cfg.record) => r = rec)
  /\ On("M02", (~Single /\ cfg.record) => r = rec)
  /\ On("G03", Len(np) = Len(pop) /\ Ids(np) = Ids(pop))
  /\ phase' = "done" /\ gen' = g
  /\ UNCHANGED <<cfg, fail, pop, best, rec, surv, usedX, usedM, nX, known, fresh, refs>>

-----------------------------------------------------------------------------
(* Properties of the machine itself, checked by TLC in MCGA.                *)
TypeOK == /\ phase \in {"new","ready","eval","decide","vary","done"}
          /\ gen \in Nat /\ fail \in Nat

(* G01 *)
GenBound   == phase \in {"eval","decide","vary"} => gen \in 1..(cfg.maxGen+1)
DoneBound  == phase = "done" => gen <= cfg.maxGen
RecordLen  == phase = "done" => Len(rec) = gen + 1
FailStop   == (phase = "done" /\ gen < cfg.maxGen) =>
                 (cfg.maxFail > 0 /\ fail > cfg.maxFail)
(* G02 *)
Evaluated  == phase \in {"decide","vary","done"} =>
                 \A i \in DOMAIN pop : i <= surv => pop[i].done
(* S01/M01 *)
PopBound   == /\ phase \in {"decide","done"} => Len(pop) <= cfg.K
              /\ phase = "vary" => Len(pop) <= 4*cfg.K
(* S03 *)
BestIsBest == (Single /\ phase \in {"decide","done"}) => best = BestOf(cfg.dir,pop)
Monotone   == (Single /\ Elitist(cfg.method)) =>
                 \A i \in 1..(Len(rec)-1) : ~Better(cfg.dir, rec[i], rec[i+1])
(* M01: the non-dominated set never gets worse: no recorded ideal component *)
(* deteriorates while the whole front fits                                  *)
=============================================================================
