-------------------------------- MODULE Bench --------------------------------
(* The published benchmark functions, over points of fixed-point numbers.    *)
(* Bench(fn, x, m, a) is the sequence of objective values (one for the        *)
(* single-objective functions) at x, with m objectives where their number is  *)
(* free, and exponent a for DTLZ4.                                            *)
EXTENDS Real, FiniteSets
E1 == Exp(Whole(1))
HalfPi == DivN(Pi, 2)
Half == Ratio(1, 2)
Dec(n, d) == Ratio(n, d)

(* two variables *)
Ackley(x, y) ==
  Add(Add(Whole(20), E1),
      Sub(MulN(Exp(NegR(DivN(Sqrt(DivN(Add(Sq(x), Sq(y)), 2)), 5))), -20),
          Exp(DivN(Add(Cos(Mul(TwoPi, x)), Cos(Mul(TwoPi, y))), 2))))
Beale(x, y) ==
  Add(Sq(Add(Sub(Ratio(3, 2), x), Mul(x, y))),
      Add(Sq(Add(Sub(Ratio(9, 4), x), Mul(x, Power(y, 2)))), Sq(Add(Sub(Ratio(21, 8), x), Mul(x, Power(y, 3))))))
(* sum of k * x^i * y^j over the terms <<k, i, j>> *)
Poly(ts, x, y) == SumR([t \in DOMAIN ts |-> MulN(Mul(Power(x, ts[t][2]), Power(y, ts[t][3])), ts[t][1])])
GoldsteinPrice(x, y) ==
  Mul(Add(Whole(1), Mul(Sq(Add(Whole(1), Add(x, y))),
                      Poly(<< <<19,0,0>>, <<-14,1,0>>, <<3,2,0>>, <<-14,0,1>>, <<6,1,1>>, <<3,0,2>> >>, x, y))),
      Add(Whole(30), Mul(Sq(Sub(MulN(x, 2), MulN(y, 3))),
                       Poly(<< <<18,0,0>>, <<-32,1,0>>, <<12,2,0>>, <<48,0,1>>, <<-36,1,1>>, <<27,0,2>> >>, x, y))))
Booth(x, y) == Add(Sq(Sub(Add(x, MulN(y, 2)), Whole(7))), Sq(Sub(Add(MulN(x, 2), y), Whole(5))))
Bukin(x, y) ==
  Add(MulN(Sqrt(AbsR(Sub(y, DivN(Sq(x), 100)))), 100), DivN(AbsR(Add(x, Whole(10))), 100))
Matyas(x, y) == Sub(DivN(MulN(Add(Sq(x), Sq(y)), 26), 100), DivN(MulN(Mul(x, y), 48), 100))
Levy(x, y) ==
  Add(Sq(Sin(MulN(Mul(Pi, x), 3))),
      Add(Mul(Sq(Sub(x, Whole(1))), Add(Whole(1), Sq(Sin(MulN(Mul(Pi, y), 3))))),
          Mul(Sq(Sub(y, Whole(1))), Add(Whole(1), Sq(Sin(MulN(Mul(Pi, y), 2)))))))
Himmelblau(x, y) == Add(Sq(Sub(Add(Sq(x), y), Whole(11))), Sq(Sub(Add(x, Sq(y)), Whole(7))))
ThreeHumpCamel(x, y) ==
  Add(Sub(MulN(Sq(x), 2), DivN(MulN(Power(x, 4), 21), 20)),
      Add(DivN(Power(x, 6), 6), Add(Mul(x, y), Sq(y))))
Easom(x, y) ==
  NegR(Mul(Mul(Cos(x), Cos(y)), Exp(NegR(Add(Sq(Sub(x, Pi)), Sq(Sub(y, Pi)))))))
Radius(x, y) == Sqrt(Add(Sq(x), Sq(y)))
(* length over pi: multiplied by 1/pi *)
OneOverPi == Inv(Pi)
CrossInTray(x, y) ==
  NegR(DivN(Root(10, Add(Whole(1), AbsR(Mul(Mul(Sin(x), Sin(y)),
                                          Exp(AbsR(Sub(Whole(100), Mul(Radius(x, y), OneOverPi)))))))), 10000))
EggHolder(x, y) ==
  LET z == Add(y, Whole(47))
  IN  Sub(NegR(Mul(z, Sin(Sqrt(AbsR(Add(DivN(x, 2), z)))))), Mul(x, Sin(Sqrt(AbsR(Sub(x, z))))))
HolderTable(x, y) ==
  NegR(AbsR(Mul(Mul(Sin(x), Cos(y)), Exp(AbsR(Sub(Whole(1), Mul(Radius(x, y), OneOverPi)))))))
McCormick(x, y) ==
  Add(Add(Sin(Add(x, y)), Sq(Sub(x, y))), Add(Whole(1), DivN(Sub(MulN(y, 5), MulN(x, 3)), 2)))
SchafferBase(x, y) == Inv(Sq(Add(Whole(1), DivN(Add(Sq(x), Sq(y)), 1000))))
Schaffer2S(x, y) == Add(Half, Mul(Sub(Sq(Sin(Sub(Sq(x), Sq(y)))), Half), SchafferBase(x, y)))
Schaffer4S(x, y) == Add(Half, Mul(Sub(Sq(Cos(Sin(AbsR(Sub(Sq(x), Sq(y)))))), Half), SchafferBase(x, y)))

(* any number of variables *)
Over(x, Term(_)) == SumR([i \in DOMAIN x |-> Term(x[i])])
Rastrigin(x) == Add(Whole(10 * Len(x)), Over(x, LAMBDA v : Sub(Sq(v), MulN(Cos(Mul(TwoPi, v)), 10))))
Sphere(x) == Over(x, Sq)
Pairs(x, Term(_, _)) == SumR([i \in 1 .. (Len(x) - 1) |-> Term(x[i], x[i + 1])])
Rosenbrock(x) == Pairs(x, LAMBDA v, w : Add(MulN(Sq(Sub(w, Sq(v))), 100), Sq(Sub(Whole(1), v))))
StyblinskiTang(x) == DivN(Over(x, LAMBDA v : Add(Sub(Power(v, 4), MulN(Sq(v), 16)), MulN(v, 5))), 2)

(* several objectives *)
Schaffer1(x) == <<Sq(x), Sq(Sub(x, Whole(2)))>>
Schaffer2(x) ==
  <<IF LeR(x, Whole(1)) THEN NegR(x)
    ELSE IF LeR(x, Whole(3)) THEN Sub(x, Whole(2))
    ELSE IF LeR(x, Whole(4)) THEN Sub(Whole(4), x)
    ELSE Sub(x, Whole(4)),
    Sq(Sub(x, Whole(5)))>>
(* a constraint g <= 0 is turned into a penalty of 1e5 + g on one objective *)
Penalty(f, g) == IF LtR(Zero, g) THEN Add(f, Add(Whole(100000), g)) ELSE f
BinhKorn(x, y) ==
  <<Penalty(MulN(Add(Sq(x), Sq(y)), 4), Sub(Add(Sq(Sub(x, Whole(5))), Sq(y)), Whole(25))),
    Penalty(Add(Sq(Sub(x, Whole(5))), Sq(Sub(y, Whole(5)))),
            Sub(Ratio(77, 10), Add(Sq(Sub(x, Whole(8))), Sq(Add(y, Whole(3))))))>>
ChangkongHaimes(x, y) ==
  <<Penalty(Add(Whole(2), Add(Sq(Sub(x, Whole(2))), Sq(Sub(y, Whole(1))))),
            Sub(Add(Sq(x), Sq(y)), Whole(225))),
    Penalty(Sub(MulN(x, 9), Sq(Sub(y, Whole(1)))), Add(Sub(x, MulN(y, 3)), Whole(10)))>>
PoloniB(x, y) ==
  <<Sub(Add(DivN(Sin(x), 2), Sin(y)), Add(MulN(Cos(x), 2), DivN(MulN(Cos(y), 3), 2))),
    Sub(Add(DivN(MulN(Sin(x), 3), 2), MulN(Sin(y), 2)), Add(Cos(x), DivN(Cos(y), 2)))>>
Poloni(x, y) ==
  LET a == PoloniB(Whole(1), Whole(2)) b == PoloniB(x, y)
  IN  <<Add(Whole(1), Add(Sq(Sub(a[1], b[1])), Sq(Sub(a[2], b[2])))),
        Add(Sq(Add(x, Whole(3))), Sq(Add(y, Whole(1))))>>
Viennet(x, y) ==
  LET s == Add(Sq(x), Sq(y))
  IN  <<Add(DivN(s, 2), Sin(s)),
        Add(Whole(15), Add(DivN(Sq(Add(Whole(4), Sub(MulN(x, 3), MulN(y, 2)))), 8),
                         DivN(Sq(Add(Whole(1), Sub(x, y))), 27))),
        Sub(Inv(Add(s, Whole(1))), DivN(MulN(Exp(NegR(s)), 11), 10))>>
FonsecaFleming(x) ==
  LET c == Sqrt(Ratio(1, Len(x)))
  IN  <<Sub(Whole(1), Exp(NegR(Over(x, LAMBDA v : Sq(Sub(v, c)))))),
        Sub(Whole(1), Exp(NegR(Over(x, LAMBDA v : Sq(Add(v, c))))))>>
Kursawe(x) ==
  <<Pairs(x, LAMBDA v, w : MulN(Exp(NegR(DivN(Radius(v, w), 5))), -10)),
    Over(x, LAMBDA v : Add(Root(5, Power(AbsR(v), 4)), MulN(Sin(Power(v, 3)), 5)))>>

(* DTLZ: the first m-1 variables place the point, the others push it away *)
Rest(x, m) == SubSeq(x, m, Len(x))
GHills(x, m) ==
  MulN(Add(Whole(Len(Rest(x, m))),
           Over(Rest(x, m), LAMBDA v : Sub(Sq(Sub(v, Half)), Cos(MulN(Mul(Pi, Sub(v, Half)), 20))))), 100)
GBowl(x, m) == Over(Rest(x, m), LAMBDA v : Sq(Sub(v, Half)))
GRoot(x, m) == Over(Rest(x, m), LAMBDA v : Root(10, v))
(* objective j is scale * near(1) * ... * near(m-j) * far(m-j+1) *)
Chain(m, scale, near, far) ==
  [j \in 1 .. m |-> Mul(Mul(scale, ProdR([i \in 1 .. (m - j) |-> near[i]])),
                        IF j = 1 THEN Whole(1) ELSE far[m - j + 1])]
Ball(m, g, th) ==
  Chain(m, Add(Whole(1), g), [i \in 1 .. (m - 1) |-> Cos(th[i])], [i \in 1 .. (m - 1) |-> Sin(th[i])])
DTLZ1(x, m) ==
  Chain(m, DivN(Add(Whole(1), GHills(x, m)), 2), x, [i \in 1 .. (m - 1) |-> Sub(Whole(1), x[i])])
DTLZ2(x, m) == Ball(m, GBowl(x, m), [i \in 1 .. (m - 1) |-> Mul(HalfPi, x[i])])
DTLZ3(x, m) == Ball(m, GHills(x, m), [i \in 1 .. (m - 1) |-> Mul(HalfPi, x[i])])
DTLZ4(x, m, a) == Ball(m, GBowl(x, m), [i \in 1 .. (m - 1) |-> Mul(HalfPi, Power(x[i], a))])
(* the angles of DTLZ5 and DTLZ6 as in the report, with g(r) = the squared length of the rest *)
Bent(x, m) ==
  LET r == Over(Rest(x, m), Sq)
      q == Inv(MulN(Add(Whole(1), r), 4))
  IN  [i \in 1 .. (m - 1) |->
         Mul(HalfPi, IF i = 1 THEN Mul(HalfPi, x[1])
                     ELSE Mul(Pi, Mul(q, Add(Whole(1), MulN(Mul(r, x[i]), 2)))))]
DTLZ5(x, m) == Ball(m, GBowl(x, m), Bent(x, m))
DTLZ6(x, m) == Ball(m, GRoot(x, m), Bent(x, m))
DTLZ7(x, m) ==
  LET g == Add(Whole(1), DivN(MulN(SumR(Rest(x, m)), 9), Len(Rest(x, m))))
      q == Inv(Add(Whole(1), g))
      h == Sub(Whole(m), SumR([i \in 1 .. (m - 1) |->
               Mul(Mul(x[i], q), Add(Whole(1), Sin(MulN(Mul(Pi, x[i]), 3))))]))
  IN  [j \in 1 .. m |-> IF j < m THEN x[j] ELSE Mul(Add(Whole(1), g), h)]
(* variables of objective j: both ends included, as in the report, counted from 0 *)
Block(x, m, j) ==
  LET n == Len(x) e == (j * n) \div m
  IN  SubSeq(x, (((j - 1) * n) \div m) + 1, IF e >= n THEN n ELSE e + 1)
Push(f, g) == IF g.neg THEN Add(f, Add(Whole(1000), NegR(g))) ELSE f
DTLZ8(x, m) ==
  LET f == [j \in 1 .. m |-> DivN(SumR(Block(x, m, j)), Len(x) \div m)]
      two == {<<i, j>> \in (1 .. (m - 1)) \X (1 .. (m - 1)) : i < j}
      low == CHOOSE s \in {Add(f[p[1]], f[p[2]]) : p \in two} : \A p \in two : LeR(s, Add(f[p[1]], f[p[2]]))
  IN  [j \in 1 .. m |->
         Push(f[j], IF j < m THEN Sub(Add(f[m], MulN(f[j], 4)), Whole(1))
                    ELSE Sub(Add(MulN(f[m], 2), low), Whole(1)))]
DTLZ9(x, m) ==
  LET f == [j \in 1 .. m |-> Over(Block(x, m, j), LAMBDA v : Root(10, v))]
  IN  [j \in 1 .. m |-> IF j < m THEN Push(f[j], Sub(Add(Sq(f[m]), Sq(f[j])), Whole(1))) ELSE f[j]]

Bench(fn, x, m, a) ==
  CASE fn = "ackley" -> <<Ackley(x[1], x[2])>>
    [] fn = "beale" -> <<Beale(x[1], x[2])>>
    [] fn = "GoldsteinPrice" -> <<GoldsteinPrice(x[1], x[2])>>
    [] fn = "booth" -> <<Booth(x[1], x[2])>>
    [] fn = "bukin" -> <<Bukin(x[1], x[2])>>
    [] fn = "matyas" -> <<Matyas(x[1], x[2])>>
    [] fn = "levy" -> <<Levy(x[1], x[2])>>
    [] fn = "himmelblau" -> <<Himmelblau(x[1], x[2])>>
    [] fn = "threeHumpCamel" -> <<ThreeHumpCamel(x[1], x[2])>>
    [] fn = "easom" -> <<Easom(x[1], x[2])>>
    [] fn = "crossInTray" -> <<CrossInTray(x[1], x[2])>>
    [] fn = "eggHolder" -> <<EggHolder(x[1], x[2])>>
    [] fn = "holderTable" -> <<HolderTable(x[1], x[2])>>
    [] fn = "McCormick" -> <<McCormick(x[1], x[2])>>
    [] fn = "schaffer2" -> <<Schaffer2S(x[1], x[2])>>
    [] fn = "schaffer4" -> <<Schaffer4S(x[1], x[2])>>
    [] fn = "rastrigin" -> <<Rastrigin(x)>>
    [] fn = "sphere" -> <<Sphere(x)>>
    [] fn = "rosenbrock" -> <<Rosenbrock(x)>>
    [] fn = "styblinskiTang" -> <<StyblinskiTang(x)>>
    [] fn = "Schaffer1" -> Schaffer1(x[1])
    [] fn = "Schaffer2" -> Schaffer2(x[1])
    [] fn = "BinhKorn" -> BinhKorn(x[1], x[2])
    [] fn = "ChangkongHaimes" -> ChangkongHaimes(x[1], x[2])
    [] fn = "Poloni" -> Poloni(x[1], x[2])
    [] fn = "viennet" -> Viennet(x[1], x[2])
    [] fn = "FonsecaFleming" -> FonsecaFleming(x)
    [] fn = "Kursawe" -> Kursawe(x)
    [] fn = "DTLZ1" -> DTLZ1(x, m)
    [] fn = "DTLZ2" -> DTLZ2(x, m)
    [] fn = "DTLZ3" -> DTLZ3(x, m)
    [] fn = "DTLZ4" -> DTLZ4(x, m, a)
    [] fn = "DTLZ5" -> DTLZ5(x, m)
    [] fn = "DTLZ6" -> DTLZ6(x, m)
    [] fn = "DTLZ7" -> DTLZ7(x, m)
    [] fn = "DTLZ8" -> DTLZ8(x, m)
    [] fn = "DTLZ9" -> DTLZ9(x, m)
(* roots near zero magnify the rounding of their argument *)
Precision(fn) == IF fn \in {"bukin"} THEN 16 ELSE 36

(* outs: what each variable type and form of call returned *)
BenchOK(fn, x, m, a, outs) ==
  LET want == Bench(fn, x, m, a)
  IN  \A o \in {outs[k] : k \in DOMAIN outs} :
        /\ Len(o) = Len(want)
        /\ \A j \in DOMAIN want : Near(o[j], want[j], Precision(fn))
=============================================================================
