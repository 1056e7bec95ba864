-------------------------------- MODULE AOS --------------------------------
(* Atomic orbital search.  initializePop ; run = ( evaluate what is not yet  *)
(* evaluated ; update averages, best and early-stop counter ; record ;       *)
(* keep the best N electrons, put them in layers ; stop? ; every electron    *)
(* emits one child )*.   run() does not reset counters: a second run goes on.*)
(* An electron is [x, f, new]: id of its state, energy, not yet evaluated.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce
On(c,p) == IF c \in Enforce THEN p = TRUE ELSE TRUE   \* "= TRUE": evaluated as a value, no branching

VARIABLES cfg, phase, gen, es, el, num, best, seen, rec, todo, lay, mean, mix
avars == <<cfg, phase, gen, es, el, num, best, seen, rec, todo, lay, mean, mix>>

Better(a,b) == IF cfg.dir = "less" THEN a < b ELSE a > b
Extreme(S)  == CHOOSE f \in S : \A g \in S : ~Better(g,f)
AbsV(x)     == IF x < 0 THEN -x ELSE x
Min2(a,b)   == IF a < b THEN a ELSE b
Max2(a,b)   == IF a > b THEN a ELSE b
RECURSIVE SumUpTo(_,_)
SumUpTo(s,k) == IF k = 0 THEN 0 ELSE s[k] + SumUpTo(s,k-1)
Sum(s) == SumUpTo(s, Len(s))
Count(s,x) == Cardinality({ i \in DOMAIN s : s[i].x = x })
Q == 256

AInit == /\ phase = "none" /\ gen = 0 /\ es = 0 /\ el = <<>> /\ num = <<>> /\ best = 0
         /\ seen = FALSE /\ rec = <<>> /\ todo = {} /\ lay = <<>> /\ mean = <<>> /\ mix = <<0,0>>

Configure(c) ==
  /\ phase \in {"none","ready","done"}
  /\ cfg' = c
  /\ UNCHANGED <<phase, gen, es, el, num, best, seen, rec, todo, lay, mean, mix>>

Dims == DOMAIN cfg.lo
InBox(x) == cfg.boxed => \A d \in Dims : x[d] >= cfg.lo[d] /\ x[d] <= cfg.hi[d]

Populate(e0, m0, g0, s0) ==
  /\ phase \in {"none","ready","done"}
  /\ On("A01", /\ Len(e0) = cfg.N /\ g0 = 0 /\ s0 = 0
               /\ \A i \in DOMAIN e0 : e0[i].new)
  /\ On("A02", \A i \in DOMAIN m0 : InBox(m0[i]))
  /\ phase' = "ready" /\ gen' = 0 /\ es' = 0 /\ el' = e0 /\ num' = m0
  /\ seen' = FALSE /\ rec' = <<>> /\ lay' = <<>>
  /\ todo' = DOMAIN e0
  /\ UNCHANGED <<cfg, best, mean, mix>>

StartRun ==
  /\ phase \in {"ready","done"}
  /\ phase' = "eval"
  /\ UNCHANGED <<cfg, gen, es, el, num, best, seen, rec, todo, lay, mean, mix>>

Evaluate(i,x,f) ==
  /\ phase = "eval"
  /\ On("A01", i \in todo /\ x = el[i].x)
  /\ todo' = todo \ {i}
  /\ el' = IF i \in DOMAIN el THEN [el EXCEPT ![i] = [x |-> x, f |-> f, new |-> FALSE]] ELSE el
  /\ UNCHANGED <<cfg, phase, gen, es, num, best, seen, rec, lay, mean, mix>>

-----------------------------------------------------------------------------
(* averages over a set of electrons, reported as fixed-point numbers        *)
MeanOK(be, bs, es0, ns) ==
  LET n == Len(es0)
  IN /\ AbsV(n*be - Q*Sum([ i \in 1..n |-> es0[i].f ])) <= n
     /\ \A d \in Dims : AbsV(n*bs[d] - Sum([ i \in 1..n |-> ns[i][d] ])) <= n + 1

(* Layer populations follow a normal curve over 1..L for some L <= maxLayer: *)
(* weight[L][i] is the share of layer i in units of 1e-7.                   *)
Weight == << <<10000000>>, <<9999986,14>>, <<9975273,24726,1>>, <<9667986,330820,1193,0>>, <<8940572,1031073,28173,182,0>>, <<8051497,1796532,147468,4453,49,0>> >>
(* layer sizes for n electrons and L layers: rounded shares from the inside *)
(* out; electrons left over by rounding go one to each further layer        *)
RECURSIVE Cum(_,_,_)
Cum(L,n,i) == IF i = 0 THEN 0
              ELSE Min2(n, Cum(L,n,i-1) + ((2*((n*Weight[L][i]) \div 10) + 1000000) \div 2000000))
RECURSIVE Fill(_,_,_,_)
Fill(L,n,sizes,used) ==
  IF used = n THEN sizes
  ELSE LET i == Len(sizes) + 1
           c == IF i > L THEN n ELSE Cum(L,n,i)
           k == IF c > used THEN c - used ELSE 1
       IN Fill(L, n, Append(sizes,k), used + k)
SizesOK(sz, n) == cfg.maxLayer <= 6 => \E L \in 1..cfg.maxLayer : sz = Fill(L, n, <<>>, 0)

(* l: sequence of layers, each a sequence of indices into the survivors s   *)
Flat(l)  == UNION { { <<k,j>> : j \in DOMAIN l[k] } : k \in DOMAIN l }
LayersOK(l, s) ==
  /\ Len(l) >= 1 /\ Len(l) <= cfg.maxLayer
  /\ \A k \in DOMAIN l : Len(l[k]) >= 1
  /\ Cardinality(Flat(l)) = Len(s)
  /\ { l[p[1]][p[2]] : p \in Flat(l) } = DOMAIN s
  /\ \A k \in 1..(Len(l)-1) : \A a \in DOMAIN l[k], b \in DOMAIN l[k+1] :
        ~Better(s[l[k+1][b]].f, s[l[k][a]].f)
  /\ SizesOK([ k \in DOMAIN l |-> Len(l[k]) ], Len(s))

KeepOK(s) ==
  /\ Len(s) = Min2(Len(el), cfg.N)
  /\ \A i \in DOMAIN s : /\ ~s[i].new
                         /\ \E j \in DOMAIN el : el[j] = s[i]
                         /\ Count(s, s[i].x) <= Count(el, s[i].x)
  /\ LET kept == [ i \in DOMAIN s |-> s[i].f ]
     IN \A j \in DOMAIN el :
          Count(s, el[j].x) < Count(el, el[j].x)
             => \A i \in DOMAIN s : ~Better(el[j].f, s[i].f)

(* s, ns: surviving electrons and their states; l: layers; b: best electron *)
(* <<index, x, f>>; be, bs: averages; e1: early-stop counter                *)
Select(s, ns, l, b, be, bs, e1) ==
  /\ phase = "eval"
  /\ On("A01", todo = {})
  /\ LET fb == Extreme({ el[i].f : i \in DOMAIN el })
     IN /\ On("A01",
              /\ KeepOK(s)
              /\ b[1] \in DOMAIN s /\ s[b[1]].x = b[2] /\ s[b[1]].f = b[3] /\ b[3] = fb
              /\ IF seen THEN e1 = (IF fb = best THEN es + 1 ELSE 0)
                 ELSE e1 \in {0,1})
        /\ best' = fb /\ rec' = Append(rec, fb)
  /\ On("A02", /\ LayersOK(l, s)
               /\ MeanOK(be, bs, el, num))
  /\ seen' = TRUE /\ es' = e1
  /\ el' = s /\ num' = ns /\ lay' = l /\ mean' = [be |-> be, bs |-> bs, b |-> b[1]]
  /\ mix' = IF cfg.maxLayer = 6 /\ Len(s) >= 20
            THEN <<mix[1] + 1, mix[2] + (IF Len(l) > 1 THEN 1 ELSE 0)>> ELSE mix
  /\ phase' = "decide"
  /\ UNCHANGED <<cfg, gen, todo>>

Stop == gen >= cfg.maxGen \/ es >= cfg.maxEs

Finish(g, r) ==
  /\ phase = "decide"
  /\ On("A01", Stop /\ g = gen /\ (cfg.record => r = rec))
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, gen, es, el, num, best, seen, rec, todo, lay, mean, mix>>

-----------------------------------------------------------------------------
Clamp(x,d) == IF ~cfg.boxed THEN x
              ELSE IF x < cfg.lo[d] THEN cfg.lo[d] ELSE IF x > cfg.hi[d] THEN cfg.hi[d] ELSE x
(* alpha*(beta*L - gamma*B), all factors in [0,1] *)
PullLo(L,B) == Min2(0,L) - Max2(0,B)
PullHi(L,B) == Max2(0,L) - Min2(0,B)
Between(c,p,lo,hi,d) == c >= Clamp(p + lo, d) /\ c <= Clamp(p + hi, d)
CeilDiv(a,k) == -((-a) \div k)
Quiet(p,c)  == \A d \in Dims : Between(c[d], p[d], -cfg.dl[d] - 2, cfg.dl[d] + 2, d)
Inner(p,c,lb) ==
  \A d \in Dims : Between(c[d], p[d], PullLo(lb.top[d], lb.bs[d]) - 4, PullHi(lb.top[d], lb.bs[d]) + 4, d)
Outer(p,c,k) ==
  LET t == num[mean.b]
  IN \A d \in Dims : Between(c[d], p[d], (PullLo(t[d], mean.bs[d]) \div k) - 4,
                             CeilDiv(PullHi(t[d], mean.bs[d]), k) + 4, d)
(* ls[k] = [be, bs, top]: averages and best state of layer k *)
ChildOK(k, i, c, ls) ==
  LET n  == Len(lay[k])
      sf == Sum([ j \in 1..n |-> el[lay[k][j]].f ])
      strong == Better(n * el[i].f, sf)
      q == Quiet(num[i], c)
      p == IF strong THEN Inner(num[i], c, ls[k]) ELSE Outer(num[i], c, k)
  IN /\ InBox(c)
     /\ IF cfg.ph4 = 0 THEN p ELSE IF cfg.ph4 >= 4 THEN q ELSE p \/ q

(* lb: reported <<BE, index of best within the layer, BS>> per layer *)
LayerMeanOK(lb) ==
  \A k \in DOMAIN lay :
    /\ MeanOK(lb[k][1], lb[k][3], [ j \in DOMAIN lay[k] |-> el[lay[k][j]] ],
                                  [ j \in DOMAIN lay[k] |-> num[lay[k][j]] ])
    /\ lb[k][2] \in DOMAIN lay[k]
    /\ \A j \in DOMAIN lay[k] : ~Better(el[lay[k][j]].f, el[lay[k][lb[k][2]]].f)

RECURSIVE Order(_,_)
Order(l,k) == IF k > Len(l) THEN <<>>
              ELSE [ j \in DOMAIN l[k] |-> <<k, l[k][j]>> ] \o Order(l, k+1)

(* e1, m1: all electrons after emission (survivors first), lb: layer data   *)
Emit(e1, m1, lb) ==
  /\ phase = "decide"
  /\ LET n == Len(el)
     IN /\ On("A01", /\ ~Stop
                     /\ Len(e1) = 2*n
                     /\ \A i \in 1..n : e1[i] = el[i]
                     /\ \A i \in (n+1)..Len(e1) : e1[i].new)
        /\ On("A02",
              /\ LayerMeanOK(lb)
              /\ LET o  == Order(lay,1)
                     ls == [ k \in DOMAIN lay |-> [bs |-> lb[k][3], top |-> num[lay[k][lb[k][2]]]] ]
                 IN \A j \in DOMAIN o : ChildOK(o[j][1], o[j][2], m1[n+j], ls))
        /\ todo' = { i \in DOMAIN e1 : i > n }
  /\ el' = e1 /\ num' = m1 /\ gen' = gen + 1
  /\ phase' = "eval"
  /\ UNCHANGED <<cfg, es, best, seen, rec, lay, mean, mix>>

-----------------------------------------------------------------------------
BestKept == phase \in {"decide","done"} => \E i \in DOMAIN el : el[i].f = best
Monotone == \A i \in 1..(Len(rec)-1) : ~Better(rec[i], rec[i+1])
GenBound == gen <= cfg.maxGen
SizeOK   == phase = "decide" => Len(el) <= cfg.N
EarlyOK  == (phase \in {"decide","done"} /\ es > 1) => (Len(rec) >= es /\ \A k \in 0..(es-1) : rec[Len(rec)-k] = best)
=============================================================================
