------------------------------- MODULE Select -------------------------------
(* Selection contracts of the genetic solvers.                              *)
(*                                                                          *)
(* An individual is a record [id, val, done, fit]; a population is a        *)
(* sequence of individuals.  For single-objective solvers fit is an         *)
(* integer, for multi-objective solvers a tuple of integers.  The bindings  *)
(* choose the objective values, so integers are exact.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Wide == INSTANCE Big            \* natural numbers of any size

-----------------------------------------------------------------------------
(* generic *)
Ids(p)        == { p[i].id : i \in DOMAIN p }
CountId(p,x)  == Cardinality({ i \in DOMAIN p : p[i].id = x })
SetMin(S)     == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S)     == CHOOSE x \in S : \A y \in S : x >= y
Abs(x)        == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s)     == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumSet(_,_)           \* sum of a function over a set of arguments
SumSet(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

-----------------------------------------------------------------------------
(* single objective *)
Better(dir,a,b)    == IF dir = "less" THEN a < b ELSE a > b
AtLeast(dir,a,b)   == ~Better(dir,b,a)                 \* a no worse than b
Fits(p)            == { p[i].fit : i \in DOMAIN p }
BestOf(dir,p)      == IF dir = "less" THEN SetMin(Fits(p)) ELSE SetMax(Fits(p))
WorstOf(dir,p)     == IF dir = "less" THEN SetMax(Fits(p)) ELSE SetMin(Fits(p))

(* Size contract: a population larger than K is cut to exactly K, a smaller *)
(* or equal one is left alone.                                              *)
SizeOK(K,p,np)     == Len(np) = IF Len(p) > K THEN K ELSE Len(p)

(* Origin contract: survivors are individuals of the population; only       *)
(* tournament selection may copy.                                           *)
OriginOK(m,p,np)   ==
  /\ Ids(np) \subseteq Ids(p)
  /\ (m # "Tournament" \/ Len(np) = Len(p)) =>
        \A x \in Ids(np) : CountId(np,x) <= CountId(p,x)

Survives(np,x)     == x \in Ids(np)
Dropped(p,np)      == { i \in DOMAIN p : CountId(np,p[i].id) < CountId(p,p[i].id) }

(* Truncation: no dropped individual is strictly better than a survivor.    *)
TruncationOK(dir,p,np) ==
  \A i \in Dropped(p,np) : \A j \in DOMAIN np : ~Better(dir,p[i].fit,np[j].fit)

(* number of entries of p strictly better than / at least as good as f      *)
NBetter(dir,p,f)   == Cardinality({ i \in DOMAIN p : Better(dir,p[i].fit,f) })
NAtLeast(dir,p,f)  == Cardinality({ i \in DOMAIN p : ~Better(dir,f,p[i].fit) })
Min2(a,b)          == IF a < b THEN a ELSE b

(* The best e individuals survive (as a multiset of objective values).      *)
EliteOK(dir,e,p,np) ==
  \A f \in Fits(p) : NAtLeast(dir,np,f) >= Min2(e, NAtLeast(dir,p,f))

(* Proportional selection gives weight zero to the worst value among the    *)
(* candidates: one of those survives only once all better ones do.          *)
ZeroWeightOK(dir,p,np) ==
  LET w == WorstOf(dir,p) IN
  (\E j \in DOMAIN np : np[j].fit = w) =>
     \A i \in Dropped(p,np) : p[i].fit = w

(* A tournament winner beats (or ties) the other t-1 distinct contestants.  *)
TournamentOK(dir,t,p,np) ==
  \A j \in DOMAIN np :
     Cardinality({ i \in DOMAIN p : ~Better(dir,p[i].fit,np[j].fit) }) >= t

(* Stochastic universal sampling: an individual whose weight reaches the    *)
(* pointer interval (total weight / K) is always hit.                       *)
SusWeight(dir,p,i) == Abs(p[i].fit - WorstOf(dir,p))
SusOK(dir,K,p,np)  ==
  LET tot == SumSet(DOMAIN p, [i \in DOMAIN p |-> SusWeight(dir,p,i)]) IN
  tot > 0 => \A i \in DOMAIN p :
     (SusWeight(dir,p,i) * K > tot) => Survives(np,p[i].id)

PressureOK(c,p,np) ==
  Len(p) > c.K =>
    CASE c.method = "Truncation"          -> TruncationOK(c.dir,p,np)
      [] c.method = "EliteReserved"       -> EliteOK(c.dir,Min2(c.elite,c.K),p,np)
      [] c.method = "RouletteWheel"       -> c.small => ZeroWeightOK(c.dir,p,np)
      [] c.method = "Tournament"          -> TournamentOK(c.dir,c.tsize,p,np)
      [] c.method = "StochasticUniversal" -> c.small => SusOK(c.dir,c.K,p,np)
      [] OTHER                            -> TRUE

(* methods under which the best individual can never be lost *)
Elitist(m) == m \in {"Truncation","EliteReserved"}

-----------------------------------------------------------------------------
(* several objectives *)
NotWorse(dir,a,b)  == \A k \in DOMAIN a : AtLeast(dir,a[k],b[k])
Dominates(dir,a,b) == /\ NotWorse(dir,a,b)
                      /\ \E k \in DOMAIN a : Better(dir,a[k],b[k])
(* rank = number of individuals that dominate it; layers are equal ranks    *)
DomRank(dir,p,i)   == Cardinality({ j \in DOMAIN p : Dominates(dir,p[j].fit,p[i].fit) })
Ranks(dir,p)       == TLCEval([ i \in DOMAIN p |-> DomRank(dir,p,i) ])

(* Given ranks R: the whole layers that fit, and the layer that is cut.     *)
NRankLE(R,r)       == Cardinality({ i \in DOMAIN R : R[i] <= r })
WholeLayers(K,R)   == { i \in DOMAIN R : NRankLE(R,R[i]) <= K }
CutLayer(K,R)      ==
  LET rest == DOMAIN R \ WholeLayers(K,R) IN
  IF rest = {} THEN {}
  ELSE LET r == SetMin({ R[i] : i \in rest }) IN { i \in rest : R[i] = r }

LayerOK(K,p,R,np)  ==
  Len(p) > K =>
    LET whole == WholeLayers(K,R)
        kept  == Ids(np)
        may   == whole \cup CutLayer(K,R)
    IN /\ \A i \in whole : p[i].id \in kept
       /\ \A i \in DOMAIN p : p[i].id \in kept => i \in may

Front0(R)          == { i \in DOMAIN R : R[i] = 0 }
(* The reported front: exactly the non-dominated members of the population  *)
(* the selection saw, or - when they do not all fit - the survivors.        *)
FrontIds(K,p,R,np) == IF Cardinality(Front0(R)) <= K
                      THEN { p[i].id : i \in Front0(R) }
                      ELSE Ids(np)

IdealOf(dir,p)     ==
  [ k \in DOMAIN p[1].fit |->
      LET S == { p[i].fit[k] : i \in DOMAIN p } IN
      IF dir = "less" THEN SetMin(S) ELSE SetMax(S) ]

-----------------------------------------------------------------------------
(* NSGA-II crowding inside the cut layer.  Individuals that tie in an       *)
(* objective may be sorted either way, so the crowding of an individual is   *)
(* an interval; it is a sum of gap / span over a common denominator.         *)
SpanOf(p, k) == LET S == {p[i].fit[k] : i \in DOMAIN p} IN SetMax(S) - SetMin(S)
(* the least and greatest gap of individual i in objective k; Inf at an end  *)
Inf == -1
GapOf(p, i, k) ==
  LET v == p[i].fit[k]
      S == {p[j].fit[k] : j \in DOMAIN p}
      up == {x \in S : x > v}
      dn == {x \in S : x < v}
      t == Cardinality({j \in DOMAIN p : p[j].fit[k] = v}) - 1
      a == IF up = {} THEN 0 ELSE SetMin(up) - v
      b == IF dn = {} THEN 0 ELSE v - SetMax(dn)
      end == up = {} \/ dn = {}
  IN  CASE t = 0 /\ end -> <<Inf, Inf>>
        [] t = 0 /\ ~end -> <<a + b, a + b>>
        [] t = 1 /\ end -> <<a + b, Inf>>
        [] t = 1 /\ ~end -> IF a < b THEN <<a, b>> ELSE <<b, a>>
        [] t > 1 /\ end -> <<0, Inf>>
        [] OTHER -> <<0, IF a < b THEN b ELSE a>>
Crowding(p, i, spans) ==
  LET M == DOMAIN p[i].fit
      g == TLCEval([k \in M |-> GapOf(p, i, k)])
      others == [k \in M |-> Wide!FoldLeft(LAMBDA acc, m : IF m = k THEN acc ELSE Wide!Scale(acc, spans[m]),
                                       <<1>>, [m \in M |-> m])]
      total(e) == Wide!FoldLeft(LAMBDA acc, k : Wide!Plus(acc, Wide!Scale(others[k], g[k][e])), <<>>, [k \in M |-> k])
  IN  [lo |-> IF \E k \in M : g[k][1] = Inf THEN "inf" ELSE total(1),
       hi |-> IF \E k \in M : g[k][2] = Inf THEN "inf" ELSE total(2),
       open |-> \E k \in M : g[k][2] = Inf, shut |-> \E k \in M : g[k][1] = Inf]
(* the code rounds, and widens every span by 1e-10, which shows if the span is *)
(* small itself: d digits are compared *)
NotLess(x, y, d) == Wide!Below(y, Wide!Plus(x, SubSeq(x, d + 1, Len(x))))

CrowdOK(K,p,R,np,digits) ==
  Len(p) > K =>
    LET L == CutLayer(K,R)
        spans == TLCEval([k \in DOMAIN p[1].fit |-> LET d == SpanOf(p, k) IN IF d = 0 THEN 1 ELSE d])
        kept == { i \in L : Survives(np,p[i].id) }
        C == TLCEval([ i \in (IF kept = L THEN {} ELSE L) |-> TLCEval(Crowding(p, i, spans)) ])
    IN kept # L =>
       \A i \in kept : C[i].open \/ \A j \in L \ kept : ~C[j].shut /\ NotLess(C[i].hi, C[j].lo, digits)
=============================================================================
