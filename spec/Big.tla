-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: sequences of digits to base 4096, lowest     *)
(* first.  TLC's own integers end at 2^31.                                   *)
EXTENDS Integers, Sequences, SequencesExt
B == 4096
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

(* digits from column sums *)
Carry(cols) ==
  LET s == FoldLeft(LAMBDA acc, c : <<Append(acc[1], (c + acc[2]) % B), (c + acc[2]) \div B>>, << <<>>, 0 >>, cols)
      RECURSIVE Rest(_)
      Rest(c) == IF c = 0 THEN <<>> ELSE <<c % B>> \o Rest(c \div B)
  IN  s[1] \o Rest(s[2])

Nat2Big(n) == Carry(<<n>>)
Plus(a, b) == Carry([i \in 1 .. Longest(a, b) |-> Digit(a, i) + Digit(b, i)])
Scale(a, k) == Carry([i \in 1 .. Len(a) |-> a[i] * k])            \* k < 2^19
Times(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE Carry([k \in 1 .. (Len(a) + Len(b) - 1) |->
         FoldLeft(LAMBDA s, i : s + (a[i] * b[k + 1 - i]), 0,
                  [j \in 1 .. ((IF k < Len(a) THEN k ELSE Len(a)) - (IF k > Len(b) THEN k - Len(b) ELSE 0))
                     |-> j + (IF k > Len(b) THEN k - Len(b) ELSE 0)])])

(* -1, 0 or 1 *)
Compare(a, b) ==
  LET n == Longest(a, b)
      d == {i \in 1 .. n : Digit(a, i) # Digit(b, i)}
  IN  IF d = {} THEN 0
      ELSE LET m == CHOOSE i \in d : \A k \in d : k <= i
           IN  IF Digit(a, m) < Digit(b, m) THEN -1 ELSE 1
Below(a, b) == Compare(a, b) <= 0
(* a - b for a >= b *)
Minus(a, b) ==
  FoldLeft(LAMBDA acc, i :
             LET x == (Digit(a, i) - Digit(b, i)) - acc[2]
             IN  <<Append(acc[1], IF x < 0 THEN x + B ELSE x), IF x < 0 THEN 1 ELSE 0>>,
           << <<>>, 0 >>, [i \in 1 .. Longest(a, b) |-> i])[1]
Distance(a, b) == IF Below(a, b) THEN Minus(b, a) ELSE Minus(a, b)
Pow2(k) == [i \in 1 .. (k \div 12) |-> 0] \o <<2 ^ (k % 12)>>
RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN <<1>> ELSE IF k < 4 THEN Scale(Pow10(k - 1), 10) ELSE Scale(Pow10(k - 4), 10000)
(* from digits to base 65536, highest first *)
FromWords(w) == FoldLeft(LAMBDA acc, x : Plus(Scale(acc, 65536), Nat2Big(x)), <<>>, w)
=============================================================================
