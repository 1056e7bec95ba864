-------------------------------- MODULE Code --------------------------------
(* Floating-point numbers as template arguments.                             *)
(*  - binary code: sign, exponent field, fraction, most significant first.   *)
(*    A number is neg, and significand * 2^x, the significand in words of    *)
(*    W.base (highest first); the top word also holds the implicit one.      *)
(*  - division code: a 32-bit numerator and a 32-bit denominator.            *)
(*  - power code: d.ddd... * 10^p with sixteen digits.                       *)
EXTENDS Big

(* formats: eb exponent bits, one the implicit one's place in the top word,  *)
(* n low words, base of the words, low = least exponent                      *)
Double == [eb |-> 11, one |-> 16, n |-> 3, base |-> 65536, low |-> -1074]
Single == [eb |-> 8, one |-> 128, n |-> 1, base |-> 65536, low |-> -149]

Top(f) == 2 ^ f.eb - 1                                \* exponent of inf and nan
Half(f) == f.one * 2 ^ f.eb                            \* place of the sign
Encode(f, v) ==
  LET s == IF v.neg THEN Half(f) ELSE 0
  IN  IF v.cls = "inf" THEN <<s + Top(f) * f.one>> \o [i \in 1 .. f.n |-> 0]
      ELSE LET h == v.m[1]
               e == IF h < f.one THEN 0 ELSE (v.x - f.low) + 1
           IN  <<s + (e * f.one) + (IF e = 0 THEN h ELSE h - f.one)>> \o Tail(v.m)

Decode(f, c) ==
  LET neg == c[1] >= Half(f)
      h == c[1] % Half(f)
      e == h \div f.one
      fr == <<h % f.one>> \o Tail(c)
      none == \A i \in DOMAIN fr : fr[i] = 0
  IN  IF e = Top(f) THEN [cls |-> IF none THEN "inf" ELSE "nan", neg |-> neg, m |-> fr, x |-> 0]
      ELSE IF e = 0 THEN [cls |-> "num", neg |-> neg, m |-> fr, x |-> f.low]
      ELSE [cls |-> "num", neg |-> neg, m |-> <<fr[1] + f.one>> \o Tail(fr), x |-> (f.low + e) - 1]

Same(u, v) == CASE u.cls = "nan" \/ v.cls = "nan" -> u.cls = v.cls
                [] u.cls = "inf" \/ v.cls = "inf" -> u.cls = v.cls /\ u.neg = v.neg
                [] OTHER -> u.neg = v.neg /\ u.m = v.m /\ u.x = v.x

(* the code of a number, and the number of that code *)
BinaryOK(f, v, code, back) ==
  /\ IF v.cls = "nan" THEN Decode(f, code).cls = "nan" ELSE code = Encode(f, v)
  /\ Same(v, back)
DecodeOK(f, code, back) == Same(Decode(f, code), back)

-----------------------------------------------------------------------------
(* |significand * 2^x * den - num| * up <= den * 2^x * down : within         *)
(* down/up units in the last place                                           *)
Sized(f, m) == FromWords(m)
Up(b, k) == IF k > 0 THEN Times(b, Pow2(k)) ELSE b
CloseTo(v, num, den, up, down) ==
  LET l == Up(Times(FromWords(v.m), den), v.x)
      r == Up(num, -v.x)
      unit == Up(den, v.x)
  IN  Below(Scale(Distance(l, r), up), Scale(unit, down))
IsZero(v) == \A i \in DOMAIN v.m : v.m[i] = 0

(* division: both parts come back, and the quotient is correctly rounded *)
DivOK(e) ==
  LET a == FromWords(e.a) b == FromWords(e.b)
  IN  /\ e.num = e.a /\ e.den = e.b /\ e.numneg = e.aneg
      /\ IF \A i \in DOMAIN e.a : e.a[i] = 0 THEN IsZero(e.real)
         ELSE e.real.neg = e.aneg /\ CloseTo(e.real, a, b, 2, 1)

(* named constants, to eighteen digits *)
E18(x) == Times(FromWords(x), <<1>>)
Dec(d) == FoldLeft(LAMBDA acc, g : Plus(Scale(acc, 1000), Nat2Big(g)), <<>>, d)
Pi18 == Dec(<<3, 141, 592, 653, 589, 793, 238>>)
Root2 == Dec(<<1, 414, 213, 562, 373, 95, 48>>)
Euler == Dec(<<2, 718, 281, 828, 459, 45, 235>>)
One18 == Dec(<<1, 0, 0, 0, 0, 0, 0>>)
(* name -> numerator (times 10^-18), denominator *)
Meaning(n) ==
  CASE n = "Half" -> <<One18, 2>>
    [] n = "Pi" -> <<Pi18, 1>>
    [] n = "Pi_mul_2" -> <<Scale(Pi18, 2), 1>>
    [] n = "Pi_mul_3" -> <<Scale(Pi18, 3), 1>>
    [] n = "Pi_mul_4" -> <<Scale(Pi18, 4), 1>>
    [] n = "Pi_mul_6" -> <<Scale(Pi18, 6), 1>>
    [] n = "Pi_div_2" -> <<Pi18, 2>>
    [] n = "Pi_div_3" -> <<Pi18, 3>>
    [] n = "Pi_div_4" -> <<Pi18, 4>>
    [] n = "Pi_div_6" -> <<Pi18, 6>>
    [] n = "Sqrt2" -> <<Root2, 1>>
    [] n = "one_div_Sqrt2" -> <<Root2, 2>>
    [] n = "E" -> <<Euler, 1>>
(* |num/den - meaning| <= meaning * 2^-k : k bits of the constant are right *)
NamedOK(e, k) ==
  LET m == Meaning(e.name)
      l == Times(FromWords(e.num), Scale(One18, m[2]))
      r == Times(FromWords(e.den), m[1])
  IN  ~e.numneg /\ Below(Up(Distance(l, r), k), r)
      /\ CloseTo(e.real, FromWords(e.num), FromWords(e.den), 2, 1)

(* power: the denoted number is s / 10^(digits of s - 1) * 10^p *)
Digits(s) == CHOOSE k \in 1 .. 17 : Below(Pow10(k - 1), s) /\ ~Below(Pow10(k), s)
PowOK(e) ==
  LET s == FromWords(e.s)
      z == \A i \in DOMAIN e.s : e.s[i] = 0
      k == (e.p - Digits(s)) + 1
      num == IF k > 0 THEN Times(s, Pow10(k)) ELSE s
      den == IF k < 0 THEN Pow10(-k) ELSE <<1>>
  IN  IF z THEN IsZero(e.real)
      ELSE e.real.neg = e.sneg /\ CloseTo(e.real, num, den, 1, 600)
(* equal numbers have equal codes, different numbers different ones *)
Same10(e, g) ==
  LET s == FromWords(e.s) t == FromWords(g.s)
      a == Digits(s) b == Digits(t)
  IN  /\ e.p = g.p /\ e.sneg = g.sneg
      /\ Compare(Times(s, Pow10(17 - a)), Times(t, Pow10(17 - b))) = 0
PowPairOK(e, g) == (e.code = g.code) = Same10(e, g)
=============================================================================
