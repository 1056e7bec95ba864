-------------------------------- MODULE Num --------------------------------
(* The small helpers: extremes, combinatorial numbers, dominance, the        *)
(* logistic sequence, random numbers, the thread count.                      *)
EXTENDS Big, FiniteSets, TLC

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN <<1>> ELSE Scale(Fact(n - 1), n)
(* Pascal's row n by repeated addition *)
NextRow(r) == [k \in 1 .. (Len(r) + 1) |-> IF k = 1 \/ k = Len(r) + 1 THEN <<1>> ELSE Plus(r[k - 1], r[k])]
Rows == FoldLeft(LAMBDA acc, i : Append(acc, NextRow(acc[i])), << << <<1>> >> >>, [i \in 1 .. 70 |-> i])
ChooseBig(n, k) == Rows[n + 1][k + 1]

Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Most(s) == CHOOSE x \in s : \A y \in s : x >= y

ExtremesOK(e) == e.min = Least(Range(e.in)) /\ e.max = Most(Range(e.in))
SignOK(e) == /\ e.sign = (IF e.x > 0 THEN 1 ELSE IF e.x < 0 THEN -1 ELSE 0)
             /\ e.square = e.x * e.x

Dominates(less, a, b) ==
  /\ \A i \in DOMAIN a : IF less THEN a[i] <= b[i] ELSE a[i] >= b[i]
  /\ \E i \in DOMAIN a : a[i] # b[i]
DominanceOK(e) == e.ab = Dominates(e.less, e.a, e.b) /\ e.ba = Dominates(e.less, e.b, e.a)

(* ---- logistic sequence: numbers are words of base 65536, value / 65536^4 *)
One4 == FromWords(<<1, 0, 0, 0, 0>>)
(* |y - 4x(1-x)| <= 2^-50 : y and x in units of 2^-64 *)
Follows(x, y) ==
  LET bx == FromWords(x)
      p == Scale(Times(bx, Minus(One4, bx)), 4)
  IN  Below(Distance(Times(FromWords(y), One4), p), Times(Pow2(14), One4))
RECURSIVE Walk(_,_)
Walk(x, q) == q = <<>> \/ (Follows(x, Head(q)) /\ Walk(Head(q), Tail(q)))
(* state of the device: its value; each operation goes some steps *)
ChaosStep(x, e) ==
  CASE e.o = "call" -> e.out = e.value /\ Follows(x, e.value)
    [] e.o = "sequence" -> /\ Len(e.out) = e.n
                           /\ IF e.n = 0 THEN e.value = x
                              ELSE Walk(x, e.out) /\ e.value = e.out[e.n]
    [] e.o = "iterate" -> IF e.n = 0 THEN e.value = x
                          ELSE /\ Len(e.twin) = e.n             \* a second device, called n times
                               /\ Walk(x, e.twin) /\ e.value = e.twin[e.n]
RECURSIVE ChaosRun(_,_)
ChaosRun(x, q) == q = <<>> \/ (ChaosStep(x, Head(q)) /\ ChaosRun(Head(q).value, Tail(q)))
ChaosOK(e) == e.start = e.given /\ ChaosRun(e.start, e.ops)

(* ---- random numbers: counts of N draws over equal cells *)
Sq(x) == x * x
AbsN(x) == IF x < 0 THEN -x ELSE x
(* six standard deviations of a count with mean m, plus a little *)
Fair(c, m) == AbsN(c - m) < 40000 /\ Sq(AbsN(c - m)) <= 36 * m + 40
UniformOK(e) == /\ ~e.outside                       \* no draw outside the range
                /\ \A i \in DOMAIN e.seen : Fair(e.seen[i], e.N \div Len(e.seen))
                /\ e.N = FoldLeft(LAMBDA a, x : a + x, 0, e.seen)
NormalShare == <<228, 1359, 3413, 3413, 1359, 228>>   \* beyond 2, 1..2, 0..1 deviations, of 10000
NormalOK(e) == \A i \in 1 .. 6 : Fair(e.seen[i], (e.N \div 10000) * NormalShare[i])

(* density of the normal distribution at k/2 deviations, to 16 places in two words *)
Bell == << <<39894228, 4014327>>, <<35206532, 67642995>>, <<24197072, 45191433>>,
           <<12951759, 56658917>>, <<5399096, 65131881>>, <<1752830, 4935685>>, <<443184, 84119380>> >>
BellOK(e) == LET w == Bell[AbsN(e.at) + 1]
                 d == e.y[1] - w[1]
             IN  AbsN(d) <= 1 /\ AbsN((d * 100000000) + (e.y[2] - w[2])) <= 100
(* far along the logistic sequence: called, iterated and written *)
FarOK(e) == e.called = e.iterated /\ e.called = e.written /\ e.value = e.called

(* ---- the thread count is a register *)
RECURSIVE Register(_,_)
Register(v, q) == q = <<>> \/
  (LET e == Head(q) IN IF e[1] = "set" THEN Register(e[2], Tail(q))
                       ELSE (v = 0 \/ e[2] = v) /\ e[2] > 0 /\ Register(v, Tail(q)))

NumOK(e) ==
  CASE e.k = "fact" -> Compare(FromWords(e.y), Fact(e.n)) = 0
    [] e.k = "choose" -> Compare(FromWords(e.y), ChooseBig(e.n, e.r)) = 0
    [] e.k = "extremes" -> ExtremesOK(e)
    [] e.k = "sign" -> SignOK(e)
    [] e.k = "dominate" -> DominanceOK(e)
    [] e.k = "chaos" -> ChaosOK(e)
    [] e.k = "uniform" -> UniformOK(e)
    [] e.k = "normal" -> NormalOK(e)
    [] e.k = "bell" -> BellOK(e)
    [] e.k = "far" -> FarOK(e)
    [] e.k = "inside" -> ~e.outside /\ e.n > 0
    [] e.k = "tiny" -> e.sign = (IF e.x > 0 THEN 1 ELSE IF e.x < 0 THEN -1 ELSE 0)
    [] e.k = "threads" -> Register(0, e.ops)
    [] e.k = "names" -> Cardinality(Range(e.s)) = Len(e.s)
=============================================================================
