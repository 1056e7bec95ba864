------------------------------- MODULE MCBits -------------------------------
(* Behaviours of the multiBitSet specification, enumerated (or simulated)   *)
(* by TLC and written out for replay into the real class.                   *)
EXTENDS BitSet, TLC, Json, CSV, IOUtils

CONSTANTS R, Sizes, Depth, Rich
VARIABLES s, hist, left
Full == <<65535,65535,65535,65535>>
Mix  == <<43690,4660,52719,37035>>
Values == IF Rich THEN {Zero, Full, Mix, <<1,0,0,0>>, <<0,0,0,32768>>, <<23130,61680,255,4095>>}
          ELSE {Full, Mix}
Regs == 1..R
Idx  == IF Rich THEN 1..14 ELSE 1..3

Ops(c) ==
  CASE c \in {"new","resize","reserve"} -> { <<c,r,k>> : r \in Regs, k \in Sizes }
    [] c \in {"push","fill"}            -> { <<c,r,v>> : r \in Regs, v \in Values }
    [] c \in {"pop","shrink","clear"}   -> { <<c,r>> : r \in Regs }
    [] c = "set"              -> { <<c,r,i,v>> : r \in Regs, i \in Idx, v \in Values }
    [] c = "ref"              -> { <<c,r,i,q,j>> : r \in Regs, i \in Idx, q \in Regs, j \in {1,3} }
    [] c \in {"front","back"} -> { <<c,r,Mix>> : r \in Regs }
    [] c \in {"assign","copy","move"} -> { <<c,r,q>> : r \in Regs, q \in Regs }
Walks == UNION { LET n == Len(s[r]) IN
                 IF n = 0 THEN {} ELSE { <<"walk",r,RandomElement(0..n),RandomElement(0..n),RandomElement(0..n),
                                           RandomElement(0..(n-1)),RandomElement(Values)>> } : r \in Regs }
Kinds == {"new","resize","reserve","push","fill","pop","shrink","clear","set","ref","front","back",
          "assign","copy","move"}
(* sequences of simulated behaviours: more growing than clearing *)
KindSeq == <<"push","push","push","push","set","set","set","set","ref","resize","resize","reserve",
             "pop","fill","walk","walk","front","back","assign","copy","move","shrink","new","clear">>
Alphabet == UNION { Ops(c) : c \in Kinds }

Prefixes == IF Rich THEN {<<>>}
            ELSE { <<>>,
                   << <<"new",1,3>>, <<"fill",1,Mix>> >>,
                   << <<"new",1,2>>, <<"fill",1,Mix>>, <<"reserve",1,40>>, <<"new",2,3>> >> }
RECURSIVE ApplyAll(_,_)
ApplyAll(t,ops) == IF ops = <<>> THEN t ELSE ApplyAll(Apply(t,Head(ops),64), Tail(ops))

Init == /\ hist \in Prefixes
        /\ s = ApplyAll([r \in Regs |-> <<>>], hist)
        /\ left = Depth
Do(o) == /\ s' = Apply(s,o,64)
         /\ hist' = Append(hist,o)
Choose == /\ left > 0 /\ left' = left - 1
          /\ IF Rich
             THEN \E c \in { KindSeq[RandomElement(DOMAIN KindSeq)] } :
                    LET A == IF c = "walk" THEN Walks ELSE { o \in Ops(c) : Enabled_(s,o) }
                    IN IF A = {} THEN UNCHANGED <<s,hist>>
                       ELSE \E o \in { RandomElement(A) } : Do(o)
             ELSE \E o \in Alphabet : Enabled_(s,o) /\ Do(o)
(* a finished behaviour is written out once, by its only successor *)
Finish == left = 0 /\ left' = -1 /\ UNCHANGED <<s,hist>>
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<s,hist,left>>

TypeOK == \A r \in Regs : \A i \in DOMAIN s[r] : \A k \in 1..4 : s[r][i][k] \in 0..65535
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
