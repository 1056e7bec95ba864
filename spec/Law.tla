-------------------------------- MODULE Law --------------------------------
(* The random steps of the genetic solvers: how likely each outcome is.     *)
(* Probabilities are integers in units of 1/One.                            *)
EXTENDS Select
One == 10000

RECURSIVE Power(_,_)
Power(b,k) == IF k = 0 THEN 1 ELSE b * Power(b,k-1)
RECURSIVE Choose_(_,_)
Choose_(n,k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1
                ELSE (Choose_(n-1,k-1) * n) \div k
Div(a,b) == (a + b \div 2) \div b

-----------------------------------------------------------------------------
(* Weight of every individual in a draw.  f: objective values.              *)
Score(dir,f) == LET w == IF dir = "less" THEN SetMax({f[i] : i \in DOMAIN f})
                         ELSE SetMin({f[i] : i \in DOMAIN f})
                IN [ i \in DOMAIN f |-> Abs(f[i] - w) ]
(* number of better individuals; objective values are distinct in rank methods *)
RankOf(dir,f) == [ i \in DOMAIN f |-> Cardinality({ j \in DOMAIN f : Better(dir,f[j],f[i]) }) ]
Total(w,B) == SumSet(B,w)

Weights(m,dir,f,K,a,b) ==
  LET n == Len(f)
      s == Score(dir,f)
      S == Total(s,DOMAIN f)
      r == RankOf(dir,f)
      flat == [ i \in DOMAIN f |-> 1 ]
  IN CASE m \in {"RouletteWheel","EliteReserved"} -> s
       [] m = "Probability" -> IF S = 0 THEN flat
                               ELSE [ i \in DOMAIN f |-> Power(s[i],K) * Power(S - s[i], n-K) ]
       [] m = "LinearRank"  -> [ i \in DOMAIN f |-> a*(n-1) + (b-a)*(n-1-r[i]) ]
       [] m = "ExponentialRank" ->                 \* base a/100 in lowest terms
            LET x == IF a = 80 THEN <<4,5>> ELSE IF a = 50 THEN <<1,2>> ELSE <<1,4>>
            IN [ i \in DOMAIN f |-> Power(x[1],r[i]) * Power(x[2],n-1-r[i]) ]
       [] m = "Boltzmann"   -> [ i \in DOMAIN f |-> Power(2, s[i]) ]  \* strength ln 2
       [] OTHER -> flat                            \* MonteCarlo

(* Probability that drawing without replacement from B, proportionally to   *)
(* the weights, takes exactly the set A; with no weight left all are equal. *)
RECURSIVE PSet(_,_,_)
PSet(w,A,B) ==
  IF A = {} THEN One
  ELSE LET t == Total(w,B) IN
       IF t = 0 THEN Div(One, Choose_(Cardinality(B),Cardinality(A)))
       ELSE Div(SumSet(A, [j \in A |-> w[j] * (IF w[j] = 0 THEN 0 ELSE PSet(w, A \ {j}, B \ {j}))]), t)

KSubsets(S,k) == { A \in SUBSET S : Cardinality(A) = k }

(* the best e survive for certain, the others are drawn                     *)
PSurvivors(m,dir,f,K,a,b,A) ==
  LET w == Weights(m,dir,f,K,a,b)
      r == RankOf(dir,f)
      elite == IF m = "EliteReserved" THEN { i \in DOMAIN f : r[i] < Min2(a,K) } ELSE {}
      (* the worst of the drawn has weight zero: elite or not, it is the same *)
  IN IF elite \subseteq A THEN PSet(w, A \ elite, DOMAIN f \ elite) ELSE 0

(* expected copies of i after K tournaments of t distinct contestants        *)
PWin(dir,t,f,i) == LET n == Len(f)
                       worse == n - 1 - RankOf(dir,f)[i]
                   IN Div(One * Choose_(worse,t-1), Choose_(n,t))

(* ... and the chance that it never wins, were they independent; as the same *)
(* player seldom plays twice in a row it is less than that                  *)
RECURSIVE PPower(_,_)
PPower(p,k) == IF k = 0 THEN One ELSE Div(p * PPower(p,k-1), One)

-----------------------------------------------------------------------------
(* Six standard deviations of a count, plus rounding of the probabilities    *)
Slack(N) == N \div 1000 + 3
Within2(c,mean,var,N) ==
  LET d == Abs(c - mean) - Slack(N) IN d <= 0 \/ (d < 40000 /\ d*d <= 36 * (var + 1))
Within(c,N,P) == Within2(c, ((N \div 100) * P) \div (One \div 100),
                         (((P * (One - P)) \div One) * (N \div 100)) \div (One \div 100), N)

SelectLawOK(e) ==
  LET n == Len(e.f)
      keys == { e.seen[i][1] : i \in DOMAIN e.seen }
      count(q) == IF q \in keys THEN e.seen[CHOOSE i \in DOMAIN e.seen : e.seen[i][1] = q][2] ELSE 0
      times(q,i) == Cardinality({ j \in DOMAIN q : q[j] = i })
      never(i) == SumSet(DOMAIN e.seen, [ k \in DOMAIN e.seen |-> IF times(e.seen[k][1],i) = 0
                                                                   THEN e.seen[k][2] ELSE 0 ])
      copies(i) == SumSet(DOMAIN e.seen, [ k \in DOMAIN e.seen |-> times(e.seen[k][1],i) * e.seen[k][2] ])
  IN IF e.method = "Tournament"
     THEN \A i \in 1..n : LET m == ((e.N \div 100) * e.K * PWin(e.dir,e.a,e.f,i)) \div (One \div 100)
                          IN /\ Within2(copies(i), m, e.K * m, e.N)
                            /\ LET P == PPower(One - PWin(e.dir,e.a,e.f,i), e.K)
                               IN \/ RankOf(e.dir,e.f)[i] > 0
                                  \/ never(i) <= ((e.N \div 100) * P) \div (One \div 100)
                                  \/ Within(never(i), e.N, P)
     ELSE IF e.method = "StochasticUniversal"   \* no weight exceeds the pointer interval
     THEN LET s == Score(e.dir,e.f)
              S == Total(s,1..n)
          IN \A i \in 1..n : Within(copies(i), e.N, IF S = 0 THEN Div(One * e.K, n)
                                                     ELSE Div(One * e.K * s[i], S))
     ELSE /\ \A q \in keys : /\ Len(q) = e.K
                             /\ Cardinality({ q[i] : i \in DOMAIN q }) = e.K
          /\ \A A \in KSubsets(1..n, e.K) :
               LET c == SumSet(DOMAIN e.seen,
                          [ k \in DOMAIN e.seen |->
                              IF { e.seen[k][1][i] : i \in DOMAIN e.seen[k][1] } = A THEN e.seen[k][2] ELSE 0 ])
               IN Within(c, e.N, PSurvivors(e.method,e.dir,e.f,e.K,e.a,e.b,A))

(* equal individuals have equal chances, in any number                       *)
CrowdLawOK(e) == \A i \in 1..e.n : Within(e.times[i], e.N, Div(One * e.K, e.n))
(* tournaments of t distinct contestants, many individuals: expected copies; *)
(* contestants of equal fitness have equal chances                           *)
Copies(e,i) ==
  LET n == e.n
      low == RankOf(e.dir,e.f)[i] = 0 /\ \A j \in 1..n : e.f[j] = e.f[1]
      w == n - 1 - RankOf(e.dir,e.f)[i]
  IN IF low THEN Div(e.N * e.K, n)
     ELSE IF e.t = 2 THEN Div(e.N * e.K * 2 * w, n * (n-1))
     ELSE Div(Div(e.N * e.K * 3 * w, n) * (IF w > 0 THEN w - 1 ELSE 0), (n-1) * (n-2))
CrowdPlayOK(e) == \A i \in 1..e.n : LET m == Copies(e,i) IN Within2(e.times[i], m, 2 * m, e.N)

-----------------------------------------------------------------------------
(* Variation: everybody takes part in crossover with probability pc (in     *)
(* percent), one is left out at random if their number is odd, partners     *)
(* are random; everybody alive then mutates with probability pm.            *)
RECURSIVE Bin(_,_,_)                               \* in units of a millionth
Bin(n,k,p) == IF k < 0 \/ k > n THEN 0 ELSE IF n = 0 THEN 1000000
              ELSE Div(p * Bin(n-1,k-1,p) + (100-p) * Bin(n-1,k,p), 100)
Binom(n,k,p) == Div(Bin(n,k,p), 100)
PCross(n,p,x) == Binom(n,2*x,p) + (IF 2*x+1 <= n THEN Binom(n,2*x+1,p) ELSE 0)
ExpCross(n,p) == SumSet(0..(n \div 2), [ x \in 0..(n \div 2) |-> x * PCross(n,p,x) ])
PPair(n,p) == Div(ExpCross(n,p), n*(n-1))         \* a given ordered pair

VaryLawOK(e) ==
  /\ \A x \in 0..(e.n \div 2) : Within(e.nx[x+1], e.N, PCross(e.n,e.pc,x))
  /\ \A i \in 1..e.n : \A j \in 1..e.n :
       IF i = j THEN e.pair[i][j] = 0 ELSE Within(e.pair[i][j], e.N, PPair(e.n,e.pc))
  /\ \A i \in 1..e.n : Within(e.mut[i], e.N, e.pm * (One \div 100))
  /\ \A k \in 0..e.n : Within(e.nm[k+1], e.N, Binom(e.n,k,e.pm))
  /\ LET m == (e.kids \div 100) * e.pm IN Within2(e.mutkids, m, e.kids \div 4, e.kids)

(* Any number of individuals: chance of an odd number of candidates, expected *)
(* crossovers (in units of 1/One), everybody's share, partners at any distance *)
OddP(n,p) == LET q == PPower(Abs(100 - 2*p) * 100, n)
             IN (One - (IF p > 50 /\ n % 2 = 1 THEN -q ELSE q)) \div 2
ExpectCross(n,p) == (n*p*100 - OddP(n,p)) \div 2
ManyLawOK(e) ==
  LET X == ExpectCross(e.n,e.pc)
      total == SumSet(1..e.n, e.part)
      each == total \div (2*(e.n-1))
      k == (e.kids \div 100) * e.pm
  IN /\ e.kids = total
     /\ \A i \in 1..e.n : Within(e.part[i], e.N, (2*X) \div e.n) /\ Within(e.mut[i], e.N, e.pm * (One \div 100))
     /\ e.off[1] = 0                                  \* nobody with himself
     /\ \A d \in 2..e.n : Within2(e.off[d], each, each, e.N)
     /\ Within2(e.mutkids, k, e.kids \div 4, e.kids)

-----------------------------------------------------------------------------
(* Random factors of swarms and atoms.  A count per cell; cells of a grid    *)
(* are independent.                                                          *)
(*  flat: equal cells of a uniform number                                    *)
(*  rate: [no, yes] for an event of par percent                              *)
(*  prod: product of two uniform numbers, t*(1 - ln t) at .05 .15 .3 .5      *)
(*  normal: below -1, -1..0, 0..1, above 1 standard deviations               *)
CellP(law,par,n) ==
  CASE law = "rate"   -> << (100-par) * (One \div 100), par * (One \div 100) >>
    [] law = "prod"   -> << 1998, 2348, 2266, 1854, 1534 >>
    [] law = "normal" -> << 1587, 3413, 3413, 1587 >>
    [] OTHER          -> [ i \in 1..n |-> Div(One, n) ]
CellsOK(e) == LET n == Len(e.c)
                  N == SumSet(1..n, e.c)
                  p == CellP(e.law, e.par, n)
              IN \A i \in 1..n : Within(e.c[i], N, p[i])
GridOK(e) == LET n == Len(e.c)
                 m == Len(e.c[1])
                 N == SumSet(1..n, [ i \in 1..n |-> SumSet(1..m, e.c[i]) ])
                 p == CellP(e.law, e.par, n)
                 r == CellP(e.law, e.par, m)
             IN \A i \in 1..n : \A j \in 1..m : Within(e.c[i][j], N, Div(p[i] * r[j], One))

(* The number of layers is uniform in 1..M; it shows in the size of the      *)
(* innermost layer, which holds this share (1e-7) of all electrons.          *)
Inner == << 10000000, 9999986, 9975273, 9667986, 8940572, 8051497,
            7197770, 6445640, 5802566, 5257051, 4793654, 4397909,
            4057601, 3762804, 3505569, 3279544, 3079642, 2901767,
            2742601, 2599434, 2470040, 2352573, 2245499, 2147525 >>
InnerSize(n,L) == (2*(n*(Inner[L] \div 10)) + 1000000) \div 2000000
LayersLawOK(e) ==
  LET P(s) == Div(One * Cardinality({ L \in 1..e.M : InnerSize(e.n,L) = s }), e.M)
  IN /\ \A i \in DOMAIN e.seen : Within(e.seen[i][2], e.N, P(e.seen[i][1]))
     /\ \A L \in 1..e.M : \E i \in DOMAIN e.seen : e.seen[i][1] = InnerSize(e.n,L)
=============================================================================
