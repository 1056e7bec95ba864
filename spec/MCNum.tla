-------------------------------- MODULE MCNum --------------------------------
(* The definitions against each other: binomials, the dominance relation on  *)
(* all small vectors, the logistic step keeping (0,1].                       *)
EXTENDS Num
VARIABLES a, b
Vals == 0 .. 2
Vecs == [1 .. 3 -> Vals]
Init == a \in Vecs /\ b \in Vecs
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Irreflexive == ~Dominates(TRUE, a, a)
Asymmetric == Dominates(TRUE, a, b) => ~Dominates(TRUE, b, a)
Mirrored == Dominates(TRUE, a, b) = Dominates(FALSE, b, a)
Transitive == Dominates(TRUE, a, b) =>
              \A c \in Vecs : Dominates(TRUE, b, c) => Dominates(TRUE, a, c)
Pascal == LET n == (a[1] * 9) + (a[2] * 3) + a[3] k == b[1] + b[2] + b[3]
          IN  k <= n => Compare(Times(ChooseBig(n, k), Times(Fact(k), Fact(n - k))), Fact(n)) = 0
Logistic == LET i == (a[1] * 9) + (a[2] * 3) + a[3] + 1
                x == <<0, i * 2048, 0, 0, 0>>
                y == Times(Nat2Big(i), Nat2Big(32 - i))     \* 4 (i/32)(1-i/32) = i(32-i)/256
            IN  Follows(x, <<0, 0, 0, 0, 0>>) = FALSE
                /\ \E h \in {(i * (32 - i))} : Follows(x, <<h \div 256, (h % 256) * 256, 0, 0, 0>>)
=============================================================================
