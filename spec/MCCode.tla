-------------------------------- MODULE MCCode --------------------------------
(* A small format, walked from code to code: codes and numbers correspond    *)
(* one to one, in order, without gaps.  Big numbers against TLC's own.       *)
EXTENDS Code, TLC
Mini == [eb |-> 3, one |-> 4, n |-> 1, base |-> 4, low |-> 0]
VARIABLES c, prev
vars == <<c, prev>>
Codes == {<<h, d>> : h \in 0 .. (2 * Half(Mini) - 1), d \in 0 .. 3}
Num(v) == ((v.m[1] * 4) + v.m[2]) * 2 ^ v.x
Init == c = <<0, 0>> /\ prev = -1
Next == /\ c # <<Half(Mini) - 1, 3>>
        /\ prev' = IF Decode(Mini, c).cls = "num" THEN Num(Decode(Mini, c)) ELSE prev
        /\ c' = IF c[2] < 3 THEN <<c[1], c[2] + 1>> ELSE <<c[1] + 1, 0>>
Spec == Init /\ [][Next]_vars
D == Decode(Mini, c)
RoundTrip == D.cls # "nan" => Encode(Mini, D) = c
Ordered == D.cls = "num" => Num(D) > prev
(* no number of the format lies between neighbours: the gap is one unit of the last place *)
Dense == D.cls = "num" /\ prev >= 0 => Num(D) - prev <= 2 ^ D.x
Mirror == LET n == <<c[1] + Half(Mini), c[2]>> IN
            Decode(Mini, n) = [D EXCEPT !.neg = TRUE]
(* sample arithmetic, driven by the walk *)
I == (c[1] * 4) + c[2]
Val(a) == FoldRight(LAMBDA d, acc : (acc * B) + d, a, 0)
Arithmetic ==
  LET a == Nat2Big(I * 337) b == Nat2Big(I * 91 + 5)
  IN  /\ Val(Plus(a, b)) = (I * 337) + (I * 91 + 5)
      /\ Val(Times(a, b)) = (I * 337) * (I * 91 + 5) \/ I > 200
      /\ Val(Minus(Plus(a, b), b)) = I * 337
      /\ Compare(a, b) = (IF I * 337 < I * 91 + 5 THEN -1 ELSE IF I * 337 > I * 91 + 5 THEN 1 ELSE 0)
      /\ Compare(Times(Pow10(I % 40), Pow10(7)), Pow10((I % 40) + 7)) = 0
      /\ Compare(Scale(Pow2(I), 8), Pow2(I + 3)) = 0
      /\ Digits(Pow10(I % 17)) = (I % 17) + 1
=============================================================================
