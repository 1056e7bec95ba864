------------------------------ MODULE MCConfig ------------------------------
(* Behaviours of Config, chosen at random by TLC, for replay into the real  *)
(* solvers.                                                                 *)
EXTENDS Config, Json, CSV, IOUtils
CONSTANTS Depth
Pick(S) == RandomElement(S)
Milli == {0,1,50,100,250,333,500,750,999,1000}
Value(key) ==
  CASE key = "pop" -> {5,6,8,13,20,31} [] key = "gen" -> {0,1,2,3,5,9} [] key = "fail" -> {0,1,2,4,7}
    [] key \in {"cx","mut","ph"} -> Milli
    [] key \in {"w","cp","cg"} -> {0,125,500,800,1500,2000,2250}
    [] key = "layers" -> 1..5
    [] key = "arg" -> 1..90 [] key = "method" -> 0..9 [] key = "tour" -> 2..4
    [] key = "base" -> {100,500,900,990} [] key = "strength" -> {-3000,-1000,0,500,1000,2500}
    [] key = "elite" -> 1..7 [] key = "obj" -> 2..5
    [] key \in {"prec","inner","outer"} -> 2..4
    [] OTHER -> 1..3                                    \* the function slots
(* groups of keys with one setter *)
Groups(k) ==
  LET c == Born(k) IN
  <<OptKeys(k)>>
  \o (IF k.arg THEN <<<<"arg">>,<<"arg">>>> ELSE <<>>)
  \o SelectSeq(<<<<"i">>,<<"f">>,<<"c">>,<<"m">>>>, LAMBDA g : g[1] \in DOMAIN c /\ c[g[1]] = 0)
  \o (IF k.fam = "soga" /\ k.sm = 10 THEN <<<<"method">>>> ELSE <<>>)
  \o SelectSeq(<<<<"tour">>,<<"base">>,<<"strength">>,<<"elite">>,<<"prec">>,<<"inner","outer">>>>,
               LAMBDA g : g[1] \in DOMAIN c)
  \o (IF "worst" \in DOMAIN c THEN <<<<"worst","best">>>> ELSE <<>>)
  \o (IF "obj" \in DOMAIN c /\ k.obj = 0 THEN <<<<"obj">>>> ELSE <<>>)
Values(g) == IF g[1] = "worst" THEN LET w == Pick({0,100,250,400}) IN <<w, w + Pick({50,100,333,600})>>
             ELSE [n \in DOMAIN g |-> Pick(Value(g[n]))]
VARIABLES kind, s, hist, left
K == Kinds[kind]
(* the solvers run as born only now and then: their defaults are long       *)
Init == kind \in DOMAIN Kinds /\ s = [r \in 1..2 |-> New(Kinds[kind])] /\ hist = <<>> /\ left = Depth
Missing(v) == SelectSeq(<<"i","f","c","m","obj">>, LAMBDA x : x \in DOMAIN v.set /\ v.set[x] = 0)
Do(o) == /\ hist' = Append(hist,o)
         /\ s' = After(K,s,o,0,s[o[2]].set.pop)
Set(r,g) == <<"set", r, g, TLCEval(Values(g)), Pick(1..2)>>
Choose == /\ left > 0 /\ left' = left - 1 /\ UNCHANGED kind
          /\ \E d \in {Pick(1..10)}, r \in {Pick(1..2)} :
               LET need == Missing(s[r]) IN
               CASE d \in 1..4 -> \E n \in {Pick(DOMAIN Groups(K))} : \E o \in {Set(r,Groups(K)[n])} : Do(o)
                 [] d \in 5..6 /\ need # <<>> -> \E o \in {Set(r,<<need[1]>>)} : Do(o)
                 [] d = 7 -> Do(<<"copy",r,3-r,Pick(1..2)>>)
                 [] d \in 8..10 /\ need # <<>> -> \E o \in {Set(r,<<need[Len(need)]>>)} : Do(o)
                 [] OTHER -> LET o == IF s[r].ready THEN <<"run",r>> ELSE <<"init",r>>
                             IN IF Can(K,s,o) THEN Do(o) ELSE UNCHANGED <<s,hist>>
Finish == left = 0 /\ left' = -1 /\ UNCHANGED <<kind,s,hist>>
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<kind,s,hist,left>>
(* of the specification itself: settings stay complete, and a solver with a *)
(* population was given functions to make it                                *)
TypeOK == \A r \in 1..2 : /\ DOMAIN s[r].set = DOMAIN Born(K)
                          /\ \A x \in DOMAIN Born(K) : s[r].set[x] \in Int
                          /\ (s[r].ready => s[r].set.i # 0)
Emit == left = -1 => CSVWrite("%1$s", <<ToJson([kind |-> kind, ops |-> hist])>>, IOEnv.OUT)
=============================================================================
