------------------------------- MODULE MCLaw -------------------------------
(* The laws are probability distributions, prefer the better and do not     *)
(* depend on the order of the population; explored for all small cases.     *)
EXTENDS Law
Methods == {"RouletteWheel","Probability","LinearRank","ExponentialRank","Boltzmann","MonteCarlo",
            "EliteReserved"}
VARIABLES m, dir, f, K
Distinct(g) == \A i,j \in DOMAIN g : i # j => g[i] # g[j]
Par(x) == CASE x = "LinearRank" -> 20 [] x = "ExponentialRank" -> 50 [] OTHER -> 1
Init == /\ m \in Methods /\ dir \in {"less","greater"} /\ K \in 1..2
        /\ f \in [1..4 -> 0..4]
        /\ m \in {"LinearRank","ExponentialRank","EliteReserved"} => Distinct(f)
Next == UNCHANGED <<m,dir,f,K>>
Spec == Init /\ [][Next]_<<m,dir,f,K>>
P(A) == PSurvivors(m,dir,f,K,Par(m),80,A)
Sum1 == Abs(SumSet(KSubsets(1..4,K), [A \in KSubsets(1..4,K) |-> P(A)]) - One) <= 12
Incl(i) == SumSet(KSubsets(1..4,K), [A \in KSubsets(1..4,K) |-> IF i \in A THEN P(A) ELSE 0])
PrefersBetter == m \in {"RouletteWheel","LinearRank","ExponentialRank","Boltzmann","EliteReserved"} =>
                   \A i,j \in 1..4 : Better(dir,f[i],f[j]) => Incl(i) + 12 >= Incl(j)
EqualChance == \A i,j \in 1..4 : f[i] = f[j] => Abs(Incl(i) - Incl(j)) <= 12
Variation == \A n \in 1..6 : \A p \in {0,30,50,100} :
               Abs(SumSet(0..(n \div 2), [x \in 0..(n \div 2) |-> PCross(n,p,x)]) - One) <= 12
Large == \A n \in 1..6 : \A p \in {0,10,30,50,80,100} : Abs(ExpectCross(n,p) - ExpCross(n,p)) <= 12
=============================================================================
