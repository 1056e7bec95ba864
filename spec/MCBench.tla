------------------------------- MODULE MCBench -------------------------------
(* The functions have the optima the literature gives, and no point of a     *)
(* walk through the domain is better.                                        *)
EXTENDS Bench, TLC
(* name, optimum in millionths of each coordinate, value in millionths, tolerance bits, half width of the domain *)
Known == <<
  <<"ackley", <<0, 0>>, 0, 5>>,
  <<"beale", <<3000000, 500000>>, 0, 4>>,
  <<"GoldsteinPrice", <<0, -1000000>>, 3000000, 2>>,
  <<"booth", <<1000000, 3000000>>, 0, 10>>,
  <<"bukin", <<-10000000, 1000000>>, 0, 5>>,
  <<"matyas", <<0, 0>>, 0, 10>>,
  <<"levy", <<1000000, 1000000>>, 0, 10>>,
  <<"himmelblau", <<3000000, 2000000>>, 0, 5>>,
  <<"himmelblau", <<-2805118, 3131312>>, 0, 5>>,
  <<"threeHumpCamel", <<0, 0>>, 0, 5>>,
  <<"easom", <<3141593, 3141593>>, -1000000, 10>>,
  <<"crossInTray", <<1349407, -1349407>>, -2062612, 10>>,
  <<"eggHolder", <<512000000, 404231900>>, -959640663, 512>>,
  <<"holderTable", <<8055023, 9664590>>, -19208503, 10>>,
  <<"McCormick", <<-547198, -1547198>>, -1913223, 1>>,
  <<"schaffer2", <<0, 0>>, 0, 100>>,
  <<"schaffer4", <<0, 1253132>>, 292579, 100>>,
  <<"rastrigin", <<0, 0>>, 0, 5>>,
  <<"sphere", <<0, 0>>, 0, 5>>,
  <<"rosenbrock", <<1000000, 1000000>>, 0, 5>>,
  <<"styblinskiTang", <<-2903534, -2903534>>, -78332331, 5>> >>
VARIABLES k, i, j
Init == k \in DOMAIN Known /\ i = -6 /\ j = -6
Next == /\ \/ j < 6 /\ j' = j + 1 /\ i' = i
           \/ j = 6 /\ i < 6 /\ i' = i + 1 /\ j' = -6
        /\ k' = k
Spec == Init /\ [][Next]_<<k, i, j>>
M(n) == DivN(DivN(Whole(n), 1000), 1000)
At(p) == Bench(Known[k][1], p, 1, 1)[1]
Best == M(Known[k][3])
Optimum == i = -6 /\ j = -6 => Near(At(<<M(Known[k][2][1]), M(Known[k][2][2])>>), Best, 17)
W == Known[k][4]
Point == <<DivN(Whole(i * W), 6), DivN(Whole(j * W), 6)>>
NoneBetter == LeR(Best, Add(At(Point), Ratio(1, 100000)))
(* the elementary functions *)
Elementary == k = 1 =>
  LET x == Ratio((13 * i) + j, 7) y == Ratio(i, 3)
  IN  /\ Near(Add(Sq(Sin(x)), Sq(Cos(x))), Whole(1), 45)
      /\ Near(Sin(Add(x, Pi)), NegR(Sin(x)), 45)
      /\ Near(Mul(Exp(x), Exp(NegR(x))), Whole(1), 36) \/ LtR(Whole(8), AbsR(x))
      /\ Near(Exp(Add(x, y)), Mul(Exp(x), Exp(y)), 30)
      /\ Near(Sq(Sqrt(AbsR(x))), AbsR(x), 45)
      /\ Near(Power(Root(5, AbsR(x)), 5), AbsR(x), 45)
      /\ x # Zero => Near(Mul(x, Inv(x)), Whole(1), 40)
(* DTLZ2 with the rest at one half lies on the unit sphere, DTLZ1 on its simplex *)
Surfaces == k = 1 =>
  LET u == Ratio(i + 6, 12) v == Ratio(j + 6, 12) p == <<u, v, Half, Half>>
  IN  /\ Near(SumR([n \in 1 .. 3 |-> Sq(DTLZ2(p, 3)[n])]), Whole(1), 40)
      /\ Near(SumR([n \in 1 .. 3 |-> Sq(DTLZ4(p, 3, 100)[n])]), Whole(1), 40)
      /\ Near(SumR(DTLZ1(p, 3)), Half, 30)
      /\ Near(SumR([n \in 1 .. 3 |-> Sq(DTLZ3(p, 3)[n])]), Whole(1), 30)
=============================================================================
