-------------------------------- MODULE Vary --------------------------------
(* The crossover, mutation and initialisation operators that come with the  *)
(* genetic solvers.  Values are integers (multiples of 1/2^16).             *)
EXTENDS Integers, Sequences, FiniteSets, Law

(* c1 = (p*a + (q-p)*b)/q and c2 the other way round, up to rounding        *)
Near(x,y,q) == Abs(x - y) <= q
BlendOK(p,q,a,b,c,d) ==
  /\ Len(c) = Len(a) /\ Len(d) = Len(a)
  /\ \A i \in DOMAIN a : /\ Near(q * c[i], p * a[i] + (q-p) * b[i], q)
                         /\ Near(q * d[i], p * b[i] + (q-p) * a[i], q)
(* the first k elements from one parent, the others from the other          *)
Spliced(a,b,c,k) == c = [ i \in DOMAIN a |-> IF i <= k THEN a[i] ELSE b[i] ]
SwapOK(a,b,c,d) == \E k \in 0..Len(a)-1 : Spliced(a,b,c,k) /\ Spliced(b,a,d,k)
(* each element from one of the parents                                     *)
MixOK(a,b,c,d) ==
  /\ Len(c) = Len(a) /\ Len(d) = Len(a)
  /\ \A i \in DOMAIN a : c[i] \in {a[i],b[i]} /\ d[i] \in {a[i],b[i]}
RangeOK(lo,hi,n,c) == Len(c) = n /\ \A i \in 1..n : c[i] >= lo /\ c[i] <= hi
(* one element becomes another value of the box                             *)
SymbolOK(lo,hi,a,c) ==
  /\ Len(c) = Len(a)
  /\ \E i \in DOMAIN a : /\ c[i] # a[i] /\ c[i] >= lo[i] /\ c[i] <= hi[i]
                         /\ \A j \in DOMAIN a \ {i} : c[j] = a[j]
(* one step in the box: at most delta, cut at the borders                   *)
StepOK(lo,hi,de,a,c) ==
  /\ Len(c) = Len(a)
  /\ \E i \in DOMAIN a : /\ c[i] >= lo[i] /\ c[i] <= hi[i] /\ Abs(c[i] - a[i]) <= de[i] + 1
                         /\ \A j \in DOMAIN a \ {i} : c[j] = a[j]
(* parents stay as they were                                                *)
VaryOK(e) ==
  /\ e.a = e.a2 /\ e.b = e.b2
  /\ CASE e.op = "blend" -> BlendOK(e.p,e.q,e.a,e.b,e.c,e.d)
       [] e.op = "swap"  -> SwapOK(e.a,e.b,e.c,e.d)
       [] e.op = "mix"   -> MixOK(e.a,e.b,e.c,e.d)
       [] e.op = "range" -> RangeOK(e.lo[1],e.hi[1],Len(e.a),e.c)
       [] e.op = "init"  -> Len(e.c) = Len(e.lo) /\ \A i \in DOMAIN e.c : e.c[i] >= e.lo[i] /\ e.c[i] <= e.hi[i]
       [] e.op = "symbol" -> SymbolOK(e.lo,e.hi,e.a,e.c)
       [] e.op = "step"  -> StepOK(e.lo,e.hi,e.de,e.a,e.c)

-----------------------------------------------------------------------------
(* laws, counted over e.N repetitions                                       *)
VaryLawOK_(e) ==
  CASE e.op = "swap"   -> \A k \in DOMAIN e.count : Within(e.count[k], e.N, Div(One,Len(e.count)))
    [] e.op = "mix"    -> /\ \A i \in DOMAIN e.first  : Within(e.first[i], e.N, Div(One*e.p,e.q))
                          /\ \A i \in DOMAIN e.second : Within(e.second[i], e.N, Div(One*e.p,e.q))
                          /\ \A i \in DOMAIN e.both : Within(e.both[i], e.N, Div(One*e.p*e.p,e.q*e.q))
                          /\ \A i \in DOMAIN e.next : Within(e.next[i], e.N, Div(One*e.p*e.p,e.q*e.q))
    [] e.op = "range"  -> /\ \A i \in DOMAIN e.count : \A b \in DOMAIN e.count[i] :
                               Within(e.count[i][b], e.N, Div(One,Len(e.count[i])))
                          /\ \A i \in DOMAIN e.near : Within(e.near[i], e.N, One \div 4)
    [] e.op = "symbol" -> \* e.count[i][v]: how often element i became the v-th value of its range
         LET n == Len(e.count) IN
         \A i \in 1..n : LET m == Len(e.count[i]) IN
           /\ Within(Total(e.count[i],1..m), e.N, Div(One,n))
           /\ \A v \in 1..m : IF v = e.at[i] THEN e.count[i][v] = 0
                              ELSE Within(e.count[i][v], e.N, Div(One, n*(m-1)))
=============================================================================
