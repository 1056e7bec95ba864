------------------------------- MODULE Niche -------------------------------
(* Reference points and niche preservation of NSGA-III, in exact integers.  *)
(* A recorded reference point is a tuple of coordinates times Unit.         *)
EXTENDS Select

Unit  == 1000000
Inner == 707107                  \* the inner layer is the lattice shrunk by 1/sqrt 2

\* all t \in [1..M -> 0..p] with SumSeq(t) = p
RECURSIVE Lattice(_,_)
Lattice(M,p) == IF M = 1 THEN { <<p>> }
                ELSE UNION { { <<a>> \o t : t \in Lattice(M-1,p-a) } : a \in 0..p }

(* layers: sequence of <<scale, precision>>, one lattice each               *)
NearPoint(c,t,s,p) == \A k \in DOMAIN t : Abs(c[k]*p - s*t[k]) <= 2*p
RefCount(M,layers) == SumSet(DOMAIN layers, [i \in DOMAIN layers |-> Cardinality(Lattice(M,layers[i][2]))])
RefsOK(M,layers,w) ==
  /\ Len(w) = RefCount(M,layers)
  /\ \A i \in DOMAIN layers : \A t \in Lattice(M,layers[i][2]) :
       \E c \in DOMAIN w : NearPoint(w[c],t,layers[i][1],layers[i][2])

(* the direction of a recorded reference point, as a small integer tuple    *)
DirOf(layers,c) ==
  LET p == IF Len(layers) = 2 /\ SumSeq(c) < (Unit + Inner) \div 2
           THEN layers[1][2] ELSE layers[Len(layers)][2]
      s == IF Len(layers) = 2 /\ SumSeq(c) < (Unit + Inner) \div 2
           THEN layers[1][1] ELSE layers[Len(layers)][1]
  IN [ k \in DOMAIN c |-> (c[k]*p + s \div 2) \div s ]

-----------------------------------------------------------------------------
(* Normalisation: the fitness relative to the ideal point is divided by the *)
(* intercepts of the plane through the extreme points, or by the largest    *)
(* values where there is no such plane.  NORM is the set of admissible      *)
(* functions giving a common positive multiple of the normalised fitness.   *)
RECURSIVE Det(_)
Minor(m,c) == [ r \in 1..(Len(m)-1) |->
                  [ k \in 1..(Len(m)-1) |-> m[r+1][IF k < c THEN k ELSE k+1] ] ]
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE LET S == 1..Len(m) IN
               SumSet(S, [ c \in S |-> (IF c % 2 = 1 THEN 1 ELSE -1) *
                             (IF m[1][c] = 0 THEN 0 ELSE m[1][c] * Det(Minor(m,c))) ])
WithOnes(m,k) == [ r \in DOMAIN m |-> [ m[r] EXCEPT ![k] = 1 ] ]
Prod3(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1]*s[2]
            ELSE s[1]*s[2]*s[3]
Without(s,k) == [ i \in 1..(Len(s)-1) |-> IF i < k THEN s[i] ELSE s[i+1] ]

IdealAmong(p,S) == [ k \in DOMAIN p[1].fit |-> SetMin({ p[i].fit[k] : i \in S }) ]
Translated(p,S) == LET z == IdealAmong(p,S) IN
                   [ i \in S |-> [ k \in DOMAIN z |-> p[i].fit[k] - z[k] ] ]
(* rows of admissible extreme-point matrices: any individual with the       *)
(* largest value of an objective                                            *)
Extremes(T) ==
  LET M == Len(T[CHOOSE i \in DOMAIN T : TRUE])
      top(k) == LET x == SetMax({ T[i][k] : i \in DOMAIN T }) IN { T[i] : i \in { j \in DOMAIN T : T[j][k] = x } }
  IN { m \in [1..M -> { T[i] : i \in DOMAIN T }] : \A k \in 1..M : m[k] \in top(k) }

Diagonal(T,m) == LET d == [ k \in DOMAIN m |-> IF m[k][k] <= 0 THEN 1 ELSE m[k][k] ]
                 IN [ i \in DOMAIN T |-> [ k \in DOMAIN m |-> T[i][k] * Prod3(Without(d,k)) ] ]
Planar(T,m)   == LET w == [ k \in DOMAIN m |-> Abs(Det(WithOnes(m,k))) ]
                 IN [ i \in DOMAIN T |-> [ k \in DOMAIN m |-> T[i][k] * w[k] ] ]
Norms(T) == UNION { LET D  == Det(m)
                        Dk == [ k \in DOMAIN m |-> Det(WithOnes(m,k)) ]
                    IN IF D = 0 \/ \E k \in DOMAIN m : (Dk[k] > 0) # (D > 0) /\ Dk[k] # 0
                       THEN {Diagonal(T,m)}
                       ELSE IF \A k \in DOMAIN m : Dk[k] # 0 THEN {Planar(T,m)}
                       ELSE {Diagonal(T,m), Planar(T,m)}   \* an intercept at infinity
                    : m \in Extremes(T) }

-----------------------------------------------------------------------------
(* W is the sequence of directions.  The squared distance of g to the line  *)
(* through w is |g|^2 - (g.w)^2/|w|^2.                                      *)
Dot(a,b)  == SumSeq([k \in DOMAIN a |-> a[k]*b[k]])
Nearest(W,g) ==
  LET q == [ w \in DOMAIN W |-> << Dot(g,W[w])*Dot(g,W[w]), Dot(W[w],W[w]) >> ]
      best == CHOOSE w \in DOMAIN W : \A v \in DOMAIN W : q[w][1]*q[v][2] >= q[v][1]*q[w][2]
  IN { w \in DOMAIN W : q[w][1]*q[best][2] >= q[best][1]*q[w][2] }
ResNum(g,w) == Dot(g,g)*Dot(w,w) - Dot(g,w)*Dot(g,w)
ResLE(g,w,h,v) == ResNum(g,w)*Dot(v,v) <= ResNum(h,v)*Dot(w,w)

(* p: population before, S: members of the whole layers and of the cut one, *)
(* A: association of the survivors among them, g: normalised fitness.       *)
(* An eliminated individual belongs to one of its nearest points.           *)
NicheOK(W, whole, cut, alive, A, g) ==
  LET out    == cut \ alive
      taken  == cut \cap alive
      rho    == [ w \in DOMAIN W |-> Cardinality({ i \in whole : A[i] = w }) ]
      n      == [ w \in DOMAIN W |-> Cardinality({ i \in taken : A[i] = w }) ]
      used   == { w \in DOMAIN W : n[w] > 0 }
      (* the niche of an eliminated one never was less crowded than a niche *)
      (* when that received its last member                                 *)
      Fair(v) == \A w \in used : rho[w] + n[w] - 1 <= rho[v] + n[v]
      (* an empty niche first takes the nearest                             *)
      First(i,v) == (rho[v] = 0 /\ n[v] > 0) =>
                       \E j \in taken : A[j] = v /\ ResLE(g[j],W[v],g[i],W[v])
      FirstIn(v) == (rho[v] = 0 /\ n[v] > 0)
  IN \A i \in out : \E v \in Nearest(W,g[i]) : Fair(v) /\ First(i,v)

(* as[j]: reported reference point of survivor j (1-based); <<>>: not seen,  *)
(* because a later selection has already forgotten it                       *)
NsgaThreeOK(K, layers, refs, p, R, np, as) ==
  (as # <<>> /\ Len(p) > K /\ CutLayer(K,R) # {} /\ Cardinality(WholeLayers(K,R)) < K) =>
    LET whole == WholeLayers(K,R)
        cut   == CutLayer(K,R)
        T     == Translated(p, whole \cup cut)
        W     == [ c \in DOMAIN refs |-> DirOf(layers,refs[c]) ]
        alive == { i \in whole \cup cut : Survives(np,p[i].id) }
        A     == [ i \in alive |-> as[CHOOSE j \in DOMAIN np : np[j].id = p[i].id] ]
    IN \E g \in Norms(T) :
          /\ \A i \in alive : A[i] \in Nearest(W,g[i])
          /\ NicheOK(W, whole, cut, alive, A, g)
=============================================================================
