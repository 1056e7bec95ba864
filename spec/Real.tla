-------------------------------- MODULE Real --------------------------------
(* Real numbers in fixed point, 60 binary places: [neg, m] is m / 2^60, m a  *)
(* big natural number.  Enough to say what an elementary function is worth.  *)
EXTENDS Big
F == 5                                  \* fractional digits to base 4096
RECURSIVE Strip(_)
Strip(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
Mk(neg, m) == LET s == Strip(m) IN [neg |-> neg /\ s # <<>>, m |-> s]
Zero == [neg |-> FALSE, m |-> <<>>]
AbsR(x) == [x EXCEPT !.neg = FALSE]
NegR(x) == Mk(~x.neg, x.m)
Whole(n) == Mk(n < 0, [i \in 1 .. F |-> 0] \o Nat2Big(IF n < 0 THEN -n ELSE n))
Add(x, y) ==
  IF x.neg = y.neg THEN Mk(x.neg, Plus(x.m, y.m))
  ELSE IF Below(y.m, x.m) THEN Mk(x.neg, Minus(x.m, y.m)) ELSE Mk(y.neg, Minus(y.m, x.m))
Sub(x, y) == Add(x, NegR(y))
LeR(x, y) == LET d == Sub(x, y) IN d.neg \/ d.m = <<>>
LtR(x, y) == Sub(x, y).neg
Drop(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))
Mul(x, y) == Mk(x.neg # y.neg, Drop(Times(x.m, y.m), F))
Sq(x) == Mul(x, x)
(* by a natural number below 2^19 *)
DivN(x, d) ==
  Mk(x.neg, Reverse(FoldLeft(LAMBDA acc, c : <<Append(acc[1], ((acc[2] * B) + c) \div d), ((acc[2] * B) + c) % d>>,
                             << <<>>, 0 >>, Reverse(x.m))[1]))
MulN(x, k) == IF k < 0 THEN Mk(~x.neg, Scale(x.m, -k)) ELSE Mk(x.neg, Scale(x.m, k))
Ratio(n, d) == DivN(Whole(n), d)
SumR(s) == FoldLeft(Add, Zero, s)
ProdR(s) == FoldLeft(Mul, Whole(1), s)
MinR(x, y) == IF LeR(x, y) THEN x ELSE y
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN Whole(1) ELSE IF k = 1 THEN x
               ELSE LET h == Power(x, k \div 2) IN IF k % 2 = 0 THEN Sq(h) ELSE Mul(x, Sq(h))

(* the greatest number of the grid whose n-th power is at most x >= 0, by    *)
(* digits to base 64 and then by bits                                        *)
Grid(k) == Mk(FALSE, Pow2(k))           \* 2^(k-60)
Bits(x) == 12 * Len(x.m)
Root(n, x) ==
  IF x.m = <<>> THEN Zero
  ELSE LET top == (IF Bits(x) > 60 THEN (Bits(x) - 60) \div n ELSE 0) + 61
       IN  FoldLeft(LAMBDA r, k : LET c == Add(r, Grid(top - k)) IN IF LeR(Power(c, n), x) THEN c ELSE r,
                    Zero, [k \in 1 .. top |-> k])
Sqrt(x) == Root(2, x)
(* 1/x for x # 0: the greatest y with y*x <= 1 *)
Inv(x) ==
  LET a == AbsR(x)
      top == 121
      y == FoldLeft(LAMBDA r, k : LET c == Add(r, Grid(top - k)) IN IF LeR(Mul(c, a), Whole(1)) THEN c ELSE r,
                    Zero, [k \in 1 .. top |-> k])
  IN  Mk(x.neg, y.m)

(* 1 + x + x^2/2! + ... for |x| <= 1/4 *)
ExpSmall(x) ==
  FoldLeft(LAMBDA acc, i : LET t == DivN(Mul(acc[2], x), i) IN <<Add(acc[1], t), t>>,
           <<Whole(1), Whole(1)>>, [i \in 1 .. 17 |-> i])[1]
RECURSIVE Halvings(_, _)
Halvings(x, k) == IF LeR(AbsR(x), Ratio(1, 4)) THEN k ELSE Halvings(DivN(x, 2), k + 1)
Exp(x) ==
  LET k == Halvings(x, 0)
      e == ExpSmall(DivN(x, 2 ^ k))
  IN  FoldLeft(LAMBDA acc, i : Sq(acc), e, [i \in 1 .. k |-> i])

(* 3.14159265358979323846... in base 4096 *)
Pi == [neg |-> FALSE, m |-> <<141, 1443, 2184, 3946, 579, 3>>]
TwoPi == MulN(Pi, 2)
(* the same angle between -pi and pi *)
Angle(x) ==
  LET a == FoldLeft(LAMBDA r, k : LET p == MulN(TwoPi, 2 ^ (13 - k)) IN IF LeR(p, r) THEN Sub(r, p) ELSE r,
                    AbsR(x), [k \in 1 .. 13 |-> k])
      b == IF LeR(Pi, a) THEN Sub(a, TwoPi) ELSE a
  IN  IF x.neg THEN NegR(b) ELSE b
Series(first, x2, odd) ==
  FoldLeft(LAMBDA acc, i :
             LET k == (2 * i) + odd
                 t == NegR(DivN(Mul(acc[2], x2), k * (k - 1)))
             IN  <<Add(acc[1], t), t>>,
           <<first, first>>, [i \in 1 .. 15 |-> i])[1]
Sin(x) == LET a == Angle(x) IN Series(a, Sq(a), 1)
Cos(x) == LET a == Angle(x) IN Series(Whole(1), Sq(a), 0)

(* equal up to one part in 2^bits of 1+|y| *)
Near(x, y, bits) == LeR(Mk(FALSE, Times(Sub(x, y).m, Pow2(bits))), Add(Whole(1), AbsR(y)))
=============================================================================
