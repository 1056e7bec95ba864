------------------------------- MODULE MCBox -------------------------------
(* All behaviours of small boxes; the operations of each behaviour are      *)
(* written out for replay into the real boxes.                              *)
(* Numbers here are positions 0..6 on a scale: the replay puts the numbers  *)
(* of its type there, 0 and 6 being out of the widest range.                *)
EXTENDS Box, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Rich
P(k) == Num(k)
Kinds == IF Rich THEN {"disc","cont","gauss","pso","bool"} ELSE {"disc","cont"}
Boxes == [ kind : Kinds, dyn : BOOLEAN, square : BOOLEAN, mat : {FALSE}, fixed : {FALSE},
           size : IF Rich THEN {4,20} ELSE {2} ]
Lows == 1..4
Seqs(n,S) == IF Rich THEN { [ i \in 1..n |-> RandomElement(S) ] } ELSE [ 1..n -> S ]
Dims == IF Rich THEN {<<1,1>>,<<3,1>>,<<2,2>>,<<4,1>>,<<2,3>>,<<9,1>>,<<4,5>>,<<33,1>>} ELSE {<<1,1>>,<<2,1>>}

VARIABLES c, s, hist, left
Ops == UNION {
  IF c.dyn THEN { <<"dims",d[1],d[2]>> : d \in Dims } ELSE {},
  { <<"range",lo,[ i \in DOMAIN lo |-> IF lo[i] + g[i] > 5 THEN 5 ELSE lo[i] + g[i] ]>> :
      lo \in Seqs(s.n,IF Rich THEN Lows ELSE {2}), g \in Seqs(s.n,IF Rich THEN 1..4 ELSE {1}) },
  { <<"delta",q>> : q \in Seqs(s.n,IF Rich THEN 1..3 ELSE {1}) },
  { <<"put",q>> : q \in Seqs(s.n,IF Rich THEN 0..6 ELSE {0,2,4}) },
  { <<"clamp1",i>> : i \in IF Rich THEN 1..20 ELSE 1..2 },
  { <<"init">>, <<"clamp">>, <<"clampv">>, <<"mutate">> } }
Conv(o) == CASE o[1] \in {"range"} -> <<o[1], [ i \in DOMAIN o[2] |-> P(o[2][i]) ], [ i \in DOMAIN o[3] |-> P(o[3][i]) ]>>
             [] o[1] \in {"delta","put"} -> <<o[1], [ i \in DOMAIN o[2] |-> P(o[2][i]) ]>>
             [] OTHER -> o
Values == { P(k) : k \in (IF Rich THEN 0..6 ELSE 0..4) }
Candidates(o,t) ==
  IF o[1] \in {"init","mutate","clamp","clampv","clamp1"} /\ ~Rich THEN [ 1..t.n -> Values ]
  ELSE IF o[1] = "put" THEN { o[2] }
  ELSE IF o[1] = "init" THEN { [ i \in 1..t.n |-> IF c.kind = "gauss" THEN P(3) ELSE t.min[i] ] }
  ELSE { t.v }
Init == /\ c \in Boxes
        /\ c.kind = "bool" => ~c.dyn
        /\ LET n == c.size IN
           s = IF c.dyn THEN None
               ELSE IF c.kind = "bool" THEN [ None EXCEPT !.n = n, !.min = Fill(n,P(0)), !.max = Fill(n,P(1)) ]
               ELSE [ None EXCEPT !.n = n ]
        /\ hist = <<>> /\ left = Depth
Take(o) == \E v \in Candidates(Conv(o),Settings(c,s,Conv(o))) :
             LET t == Settings(c,s,Conv(o)) IN
             /\ (Rich \/ Outcome(c,t,Conv(o),v)) = TRUE
             /\ s' = [ t EXCEPT !.v = v ]
             /\ hist' = Append(hist,o)
Choose == /\ left > 0 /\ left' = left - 1 /\ UNCHANGED c
          /\ LET A == { o \in Ops : Enabled_(c,s,Conv(o)) } IN
             IF Rich THEN \E k \in { RandomElement({ o[1] : o \in A }) } :
                            \E o \in { RandomElement({ o \in A : o[1] = k }) } : Take(o)
             ELSE \E o \in A : Take(o)
Finish == left = 0 /\ left' = -1 /\ UNCHANGED <<c,s,hist>>
Next == Choose \/ Finish
Spec == Init /\ [][Next]_<<c,s,hist,left>>

TypeOK == s.n \in 0..33
(* what initialising and constraining are for; mutating keeps it            *)
Last(q) == q[Len(q)][1]
Kept == (~Rich /\ hist # <<>> /\ Last(hist) \in {"init","clamp"}) => Inside(c,s)
MutateInside == [][ (~Rich /\ hist' # hist /\ Last(hist') = "mutate" /\ Inside(c,s)) => Inside(c,s') ]_<<c,s,hist,left>>
Emit == left = -1 => CSVWrite("%1$s", <<ToJson([c |-> c, h |-> hist])>>, IOEnv.OUT)
=============================================================================
