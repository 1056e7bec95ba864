------------------------------- MODULE MCMat -------------------------------
(* Behaviours of Mat, enumerated or simulated by TLC for replay.            *)
EXTENDS Mat, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Rich
Shapes == IF Rich THEN {<<0,0>>,<<1,1>>,<<2,3>>,<<3,2>>,<<6,1>>,<<3,4>>,<<5,5>>,<<4,0>>,<<7,5>>,<<4,9>>,<<12,11>>,<<33,4>>}
          ELSE {<<0,0>>,<<2,3>>,<<3,2>>,<<3,4>>}
Vals == IF Rich THEN 1..9 ELSE {7}
Ops(c) ==
  CASE c \in {"new","shape"} -> { <<c,o,h[1],h[2]>> : o \in Obj, h \in Shapes }
    [] c = "reserve"         -> { <<c,o,k>> : o \in Dyn, k \in IF Rich THEN {0,1,5,7,30,64,150} ELSE {0,1,5,7,30} }
    [] c = "fill"            -> { <<c,o,v>> : o \in Obj, v \in Vals }
    [] c \in {"lin","par"}   -> { <<c,o,i,v>> : o \in Obj, i \in IF Rich THEN {1,2,5,17,35} ELSE {1,2,5}, v \in Vals }
    [] c = "rc"              -> { <<c,o,i,j,v>> : o \in Obj, i \in IF Rich THEN {1,2,3,5,7,12} ELSE {1,2,3}, j \in IF Rich THEN {1,2,4,5,9} ELSE {1,2,4}, v \in Vals }
    [] c \in {"assign","copy","movec","movea"} -> { <<c,o,p>> : o \in Obj, p \in Obj }
Kinds == {"new","shape","reserve","fill","lin","par","rc","assign","copy","movec","movea"}
KindSeq == <<"new","shape","shape","reserve","fill","lin","par","rc","rc","rc","assign","assign",
             "assign","assign","copy","movec","movea">>
Alphabet == UNION { Ops(c) : c \in Kinds }

RECURSIVE ApplyAll(_,_)
ApplyAll(t,ops) == IF ops = <<>> THEN t ELSE ApplyAll(Apply(t,Head(ops)), Tail(ops))
Prefixes == IF Rich THEN {<<>>}
            ELSE { << <<"new","d1",2,3>>, <<"fill","d1",1>>, <<"rc","d1",1,2,2>>, <<"new","d2",3,4>>,
                      <<"fill","d2",3>>, <<"fill","f1",4>>, <<"rc","f1",2,1,5>>, <<"fill","m1",6>>,
                      <<"rc","m1",2,2,8>>, <<"shape","m2",2,3>>, <<"fill","m2",9>> >> }

VARIABLES s, hist, left
Init == /\ hist \in Prefixes
        /\ s = ApplyAll(Start, hist)
        /\ left = Depth
Do(o) == s' = Apply(s,o) /\ hist' = Append(hist,o)
Choose == /\ left > 0 /\ left' = left - 1
          /\ IF Rich
             THEN \E c \in { KindSeq[RandomElement(DOMAIN KindSeq)] } :
                    LET A == { o \in Ops(c) : Enabled_(s,o) }
                    IN IF A = {} THEN UNCHANGED <<s,hist>>
                       ELSE \E o \in { RandomElement(A) } : Do(o)
             ELSE \E o \in Alphabet : Enabled_(s,o) /\ Do(o)
Finish == left = 0 /\ left' = -1 /\ UNCHANGED <<s,hist>>
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<s,hist,left>>

TypeOK == \A o \in Obj : /\ Size(s[o]) <= Len(s[o].a)
                         /\ o \in Fix => s[o].r = 2 /\ s[o].c = 3
                         /\ o \in Map_ => Len(s[o].a) = Buf
Emit == left = -1 => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
