------------------------------- MODULE MCAOS -------------------------------
(* All behaviours of an atom with NN electrons on PP states, for every       *)
(* energy function on those states (A01; the numeric part is left out).      *)
EXTENDS AOS
CONSTANTS NN, PP, Vals, MaxGen, MaxEss, Dirs
VARIABLE obj
mvars == <<avars, obj>>
MInit == /\ AInit /\ obj \in [1..PP -> Vals]
         /\ cfg \in { [N |-> NN, maxGen |-> MaxGen, maxEs |-> me, maxLayer |-> NN, ph4 |-> 1,
                       dir |-> d, record |-> TRUE, boxed |-> FALSE, lo |-> <<>>, hi |-> <<>>,
                       dl |-> <<>>] : me \in MaxEss, d \in Dirs }
First == CHOOSE i \in todo : \A j \in todo : i <= j
None(n) == [ i \in 1..n |-> <<>> ]
(* survivors: any choice of N indices (order kept), any layers *)
Subseq(S) == LET RECURSIVE f(_,_)
                 f(i,acc) == IF i > Len(el) THEN acc
                             ELSE f(i+1, IF i \in S THEN Append(acc, el[i]) ELSE acc)
             IN f(1,<<>>)
Best(s) == LET b == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : ~Better(s[j].f, s[i].f) IN <<b, s[b].x, s[b].f>>
Counter == IF seen THEN (IF Extreme({el[i].f : i \in DOMAIN el}) = best THEN es+1 ELSE 0) ELSE 0
MNext ==
  /\ \/ phase = "none" /\ \E xs \in [1..NN -> 1..PP] :
           Populate([ i \in 1..NN |-> [x |-> xs[i], f |-> 0, new |-> TRUE] ], None(NN), 0, 0)
     \/ phase = "ready" /\ StartRun
     \/ phase = "eval" /\ todo # {} /\ Evaluate(First, el[First].x, obj[el[First].x])
     \/ phase = "eval" /\ todo = {} /\
          \E S \in SUBSET (DOMAIN el) : Cardinality(S) = NN /\
            LET s == Subseq(S) IN Select(s, None(NN), <<>>, Best(s), 0, <<>>, Counter)
     \/ phase = "decide" /\ Finish(gen, rec)
     \/ phase = "decide" /\ \E xs \in [1..NN -> 1..PP] :
           Emit(el \o [ i \in 1..NN |-> [x |-> xs[i], f |-> 0, new |-> TRUE] ], None(2*NN), <<>>)
     \/ phase = "done" /\ UNCHANGED avars
  /\ UNCHANGED obj
MSpec == MInit /\ [][MNext]_mvars
Obligations == {"A01"}
TrueEnergy == \A i \in DOMAIN el : el[i].new \/ el[i].f = obj[el[i].x]
Optimal == phase = "decide" => \A i \in DOMAIN el : ~Better(el[i].f, best)
=============================================================================
