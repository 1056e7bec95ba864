------------------------------- MODULE Config -------------------------------
(* The configuration of the solvers: options, function slots, arguments,    *)
(* parameters of selection methods, numbers of objectives, precisions.      *)
(* Every setter changes what it names and nothing else, every getter        *)
(* reports what was last set, runs change none of it, and initialising or   *)
(* running a solver calls exactly the functions, with exactly the arguments *)
(* and in the numbers, that the configuration in force at that time asks.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Families of solvers and how the instances the driver makes are declared: *)
(* slots: 0 to be set at run time, 9 given at compile time, 8 built in.     *)
(* sm: 10 selection method set at run time, 0..9 fixed (order of the        *)
(* enumeration); obj 0: number of objectives set at run time.               *)
Soga(sm,less,arg,i,f,c,m) == [fam |-> "soga", sm |-> sm, less |-> less, arg |-> arg, slot |-> <<i,f,c,m>>]
Nsga(fam,obj,arg,i,f,c,m) == [fam |-> fam, obj |-> obj, arg |-> arg, slot |-> <<i,f,c,m>>]
Swarm(fam,arg,i,f)        == [fam |-> fam, arg |-> arg, slot |-> <<i,f>>]
T1 == TRUE
F0 == FALSE
Kinds == <<
  Soga(10,TRUE,T1,0,0,0,0), Soga(10,FALSE,F0,0,0,0,0), Soga(0,TRUE,F0,9,0,9,0),    \* 1 2 3
  Soga(1,FALSE,T1,0,9,0,9), Soga(5,TRUE,T1,9,9,0,0),   Soga(6,FALSE,F0,0,0,9,9),   \* 4 5 6
  Soga(7,TRUE,T1,9,0,0,9),  Soga(7,FALSE,T1,0,9,9,0),  Soga(9,TRUE,F0,9,9,9,9),    \* 7 8 9
  Nsga("nsga2",2,T1,0,0,0,0), Nsga("nsga2",0,F0,0,9,0,9), Nsga("nsga2",3,F0,9,0,9,0), Nsga("nsga2",0,T1,0,0,0,0),
  Nsga("nsga3",3,T1,0,0,0,0), Nsga("nsga3",0,T1,9,0,0,9), Nsga("nsga3d",0,T1,0,0,0,0), Nsga("nsga3d",3,F0,0,9,9,0),
  Swarm("pso",T1,8,0), Swarm("pso",T1,0,0), Swarm("pso",F0,9,0), Swarm("pso",F0,0,9), Swarm("pso",T1,9,9),
  Swarm("aos",T1,8,0), Swarm("aos",T1,0,0), Swarm("aos",F0,9,0), Swarm("aos",F0,0,9), Swarm("aos",T1,0,9) >>

GA(k) == k.fam \notin {"pso","aos"}
Slots == <<"i","f","c","m">>
(* what a solver is born with *)
Option(k) ==
  CASE k.fam = "pso" -> [pop |-> 200, gen |-> 300, fail |-> 100, w |-> 800, cp |-> 2000, cg |-> 2000]
    [] k.fam = "aos" -> [pop |-> 50, gen |-> 30, fail |-> 20, ph |-> 100, layers |-> 5]
    [] OTHER         -> [pop |-> 100, gen |-> 300, fail |-> 50, cx |-> 800, mut |-> 50]
OptKeys(k) ==
  CASE k.fam = "pso" -> <<"pop","gen","fail","w","cp","cg">>
    [] k.fam = "aos" -> <<"pop","gen","fail","ph","layers">>
    [] OTHER         -> <<"pop","gen","fail","cx","mut">>
None == << >>
Has(k,sm) == k.fam = "soga" /\ k.sm \in {sm,10}
Born(k) ==
  Option(k)
  @@ [s \in { Slots[n] : n \in DOMAIN k.slot } |-> k.slot[CHOOSE n \in DOMAIN k.slot : Slots[n] = s]]
  @@ (IF k.arg THEN [arg |-> 0] ELSE None)
  @@ (IF k.fam = "soga" THEN [method |-> IF k.sm = 10 THEN 9 ELSE k.sm] ELSE None)
  @@ (IF Has(k,1) THEN [tour |-> 3] ELSE None)
  @@ (IF Has(k,5) THEN [worst |-> 100, best |-> 900] ELSE None)
  @@ (IF Has(k,6) THEN [base |-> 800] ELSE None)
  @@ (IF Has(k,7) THEN [strength |-> IF k.less THEN -10000 ELSE 10000] ELSE None)
  @@ (IF Has(k,9) THEN [elite |-> 1] ELSE None)
  @@ (IF k.fam \in {"nsga2","nsga3","nsga3d"} THEN [obj |-> k.obj] ELSE None)
  @@ (IF k.fam = "nsga3" THEN [prec |-> 4] ELSE None)
  @@ (IF k.fam = "nsga3d" THEN [inner |-> 3, outer |-> 4] ELSE None)

(* a solver: its settings; whether it holds a population; how many of its   *)
(* individuals nobody has evaluated; how many individuals; its generation   *)
New(k) == [set |-> Born(k), ready |-> FALSE, todo |-> 0, size |-> 0, gen |-> 0]

(* which settings the population depends on: changing them needs a new one  *)
Bound(k) == {"obj","prec","inner","outer"} \cup (IF k.fam = "aos" THEN {"pop","layers"} ELSE {})
Put(v,k,key,x) == [v EXCEPT !.set[key] = x, !.ready = @ /\ (key \notin Bound(k) \/ v.set[key] = x)]
RECURSIVE PutAll(_,_,_,_)
PutAll(v,k,keys,xs) == IF keys = <<>> THEN v
                       ELSE PutAll(Put(v,k,Head(keys),Head(xs)), k, Tail(keys), Tail(xs))

(* operations: <<"set", r, <<keys>>, <<values>>, variant>> through the      *)
(* setter of these keys; copies; initialisation; run                        *)
Complete(k,v) == \A n \in DOMAIN k.slot : v.set[Slots[n]] # 0
Sane(k,v) == LET c == v.set IN
  /\ c.pop >= 4
  /\ ("tour" \in DOMAIN c => c.tour < c.pop)
  /\ ("obj" \in DOMAIN c => c.obj > 1)
  /\ (k.fam = "aos" => c.layers >= 1 /\ c.layers <= c.pop)
Can(k,s,o) ==
  CASE o[1] = "set"  -> TRUE
    [] o[1] = "copy" -> TRUE
    [] o[1] = "init" -> Sane(k,s[o[2]]) /\ s[o[2]].set.i # 0 /\ (k.fam = "pso" => s[o[2]].set.f # 0)
    [] o[1] = "run"  -> Sane(k,s[o[2]]) /\ s[o[2]].ready /\ Complete(k,s[o[2]])

(* what a run leaves behind is not determined here: gen and size observed   *)
After(k,s,o,gen,size) ==
  CASE o[1] = "set"  -> [s EXCEPT ![o[2]] = PutAll(@, k, o[3], o[4])]
    [] o[1] = "copy" -> [s EXCEPT ![o[2]] = [New(k) EXCEPT !.set = s[o[3]].set]]
    [] o[1] = "init" -> [s EXCEPT ![o[2]].ready = TRUE, ![o[2]].todo = s[o[2]].set.pop,
                                  ![o[2]].size = s[o[2]].set.pop, ![o[2]].gen = 0]
    [] o[1] = "run"  -> [s EXCEPT ![o[2]].todo = 0, ![o[2]].size = size, ![o[2]].gen = gen]

(* ---- what may be called: a set of <<slot, function, argument, times>>    *)
Arg(v) == IF "arg" \in DOMAIN v.set THEN v.set.arg ELSE 0
Times(calls,n) == LET S == { c \in calls : c[1] = n } IN IF S = {} THEN 0 ELSE (CHOOSE c \in S : TRUE)[4]
Only(calls,v,slots) == \A c \in calls : /\ c[1] \in slots
                                        /\ c[2] = v.set[Slots[c[1]]]
                                        /\ c[3] = Arg(v)
CallsOK(k,s,o,calls,gen) ==
  CASE o[1] \in {"set","copy"} -> calls = {}
    [] o[1] = "init" ->
         LET v == s[o[2]] IN
         /\ Only(calls,v,{1,2})
         /\ Times(calls,1) = IF v.set.i = 8 THEN 0 ELSE v.set.pop
         /\ Times(calls,2) = IF k.fam = "pso" THEN v.set.pop ELSE 0
    [] o[1] = "run" ->
         LET v == s[o[2]]
             f == Times(calls,2)
             c == Times(calls,3)
             m == Times(calls,4)
         IN /\ Only(calls,v,{2,3,4})
            /\ CASE GA(k) ->
                     /\ f = v.todo + 2 * c + m
                     /\ gen <= v.set.gen
                     /\ (v.set.fail = 0 => gen = v.set.gen)
                     /\ (v.set.cx = 0 => c = 0)
                     /\ (v.set.mut = 0 => m = 0)
                     /\ (v.set.cx = 1000 => c >= gen)
                     /\ (v.set.mut = 1000 => m >= gen)
                 [] k.fam = "pso" ->
                     /\ f = v.size * (gen + 1)
                     /\ gen <= v.set.gen
                     /\ (v.set.fail = 0 => gen = v.set.gen)
                 [] k.fam = "aos" ->
                     /\ f = v.todo + (gen - v.gen) * v.set.pop
                     /\ gen >= v.gen
                     /\ (gen > v.gen => gen <= v.set.gen)

SizeOK(k,s,o,size) ==
  CASE o[1] = "init" -> size = s[o[2]].set.pop
    [] o[1] = "run" /\ k.fam = "pso" -> size = s[o[2]].size
    [] OTHER -> TRUE
=============================================================================
