-------------------------------- MODULE Box --------------------------------
(* Box constraints: the settings of a box and one decision variable that is *)
(* initialised, mutated and constrained in it.                              *)
(* A number is <<h,m,l,e>>: h*2^16 + m + l/2^24, e = 1 if there is more     *)
(* behind it.  The last component makes comparing exact.                    *)
EXTENDS Integers, Sequences, FiniteSets, Law

Num(k) == << k \div 65536, k % 65536, 0, 0 >>
Lt(a,b) == \/ a[1] < b[1]
           \/ a[1] = b[1] /\ a[2] < b[2]
           \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
           \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
Le(a,b) == ~Lt(b,a)
MaxN(a,b) == IF Lt(a,b) THEN b ELSE a
MinN(a,b) == IF Lt(a,b) THEN a ELSE b
Clamp(x,lo,hi) == MaxN(MinN(x,hi),lo)
Frac == 16777216
Plus(a,b) ==
  LET l == a[3] + b[3]
      m == a[2] + b[2] + l \div Frac
  IN << a[1] + b[1] + m \div 65536, m % 65536, l % Frac, MaxN(<<a[4],0,0,0>>,<<b[4],0,0,0>>)[1] >>
Minus(a) ==
  LET l == IF a[3] = 0 THEN 0 ELSE Frac - a[3]
      m == -a[2] - (IF a[3] = 0 THEN 0 ELSE 1)
  IN << -a[1] + m \div 65536, m % 65536, l, a[4] >>
One_ == Num(1)
Tiny == << 0, 0, 4096, 0 >>                        \* rounding of float numbers

-----------------------------------------------------------------------------
(* s: [n, rows, cols  (0 before setDimensions of a dynamic box),            *)
(*     min, max, delta  (<<>> when not set), v  (<<>> when not sized)]      *)
(* c: what kind of box it is: [kind, dyn, square, mat]                      *)
(* kind: disc (steps of one), bool, cont (steps within delta), gauss (no    *)
(* range), pso (no steps; delta is the maximal velocity)                    *)
None == [ n |-> 0, rows |-> 0, cols |-> 0, min |-> <<>>, max |-> <<>>, delta |-> <<>>, v |-> <<>> ]
Ranged(s)  == Len(s.min) = s.n /\ s.n > 0
Sized(s)   == Len(s.v) = s.n /\ s.n > 0
Stepped(c,s) == c.kind \in {"disc","bool"} \/ Len(s.delta) = s.n

Enabled_(c,s,o) ==
  CASE o[1] = "dims"   -> c.dyn
    [] o[1] = "range"  -> s.n > 0 /\ c.kind \in {"disc","cont","pso"} /\ ~c.fixed
    [] o[1] = "delta"  -> s.n > 0 /\ c.kind \in {"cont","gauss","pso"} /\ ~c.fixed
    [] o[1] = "put"    -> s.n > 0
    [] o[1] = "init"   -> s.n > 0 /\ c.kind # "pso" /\ (c.kind = "gauss" \/ Ranged(s))
    [] o[1] = "clamp"  -> Sized(s) /\ (c.kind = "gauss" \/ Ranged(s))
    [] o[1] = "clampv" -> Sized(s) /\ c.kind = "pso" /\ Len(s.delta) = s.n
    [] o[1] = "clamp1" -> Sized(s) /\ c.kind # "pso" /\ (c.kind = "gauss" \/ Ranged(s)) /\ o[2] <= s.n
    [] o[1] = "mutate" -> Sized(s) /\ c.kind # "pso" /\ (c.kind = "gauss" \/ Ranged(s)) /\ Stepped(c,s)
    [] OTHER -> FALSE

(* a square box has one range for all dimensions, which survives setDimensions *)
Fill(n,x) == [ i \in 1..n |-> x ]
Again(c,n,q) == IF c.square /\ q # <<>> THEN Fill(n,q[1]) ELSE IF Len(q) = n THEN q ELSE <<>>
Set(c,s,q) == IF c.square THEN Fill(s.n,q[1]) ELSE q

Low(c,s,i,x)  == IF c.kind = "gauss" THEN x ELSE Clamp(x,s.min[i],s.max[i])
Moved(c,s,i,x) ==
  LET a == s.v[i]
      in(y) == Low(c,s,i,y)
  IN CASE c.kind = "disc" -> x \in { in(Plus(a,One_)), in(Plus(a,Num(-1))) }
       [] c.kind = "bool" -> x = Plus(One_,Minus(a))
       [] OTHER -> /\ Le(in(Plus(Plus(a,Minus(s.delta[i])),Minus(Tiny))), x)
                   /\ Le(x, in(Plus(Plus(a,s.delta[i]),Tiny)))

(* the settings after operation o *)
Settings(c,s,o) ==
  CASE o[1] = "dims"  -> [ s EXCEPT !.n = o[2]*o[3], !.rows = o[2], !.cols = o[3],
                                    !.min = Again(c,o[2]*o[3],s.min), !.max = Again(c,o[2]*o[3],s.max),
                                    !.delta = Again(c,o[2]*o[3],s.delta) ]
    [] o[1] = "range" -> [ s EXCEPT !.min = Set(c,s,o[2]), !.max = Set(c,s,o[3]) ]
    [] o[1] = "delta" -> [ s EXCEPT !.delta = Set(c,s,o[2]) ]
    [] OTHER -> s

(* may operation o turn the variable into v? *)
Outcome(c,s,o,v) ==
  LET same(B) == \A i \in B : v[i] = s.v[i]
      each(i) == Low(c,s,i,s.v[i])
  IN CASE o[1] = "init"   -> /\ Len(v) = s.n
                             /\ c.kind = "gauss" \/ \A i \in 1..s.n : Le(s.min[i],v[i]) /\ Le(v[i],s.max[i])
       [] o[1] = "put"    -> v = o[2]
       [] o[1] = "clamp"  -> v = [ i \in 1..s.n |-> each(i) ]
       [] o[1] = "clampv" -> v = [ i \in 1..s.n |-> Clamp(s.v[i], Minus(s.delta[i]), s.delta[i]) ]
       [] o[1] = "clamp1" -> Len(v) = s.n /\ v[o[2]] = each(o[2]) /\ same(1..s.n \ {o[2]})
       [] o[1] = "mutate" -> /\ Len(v) = s.n
                             /\ \E i \in 1..s.n : same(1..s.n \ {i}) /\ Moved(c,s,i,v[i])
       [] OTHER -> v = s.v

(* the box is asked for its settings: x *)
Reads(c,s,x) ==
  /\ s.n > 0 => x.n = s.n /\ (c.mat => x.rows = s.rows /\ x.cols = s.cols)
  /\ Ranged(s) => x.min = s.min /\ x.max = s.max
  /\ (s.n > 0 /\ Len(s.delta) = s.n) => x.delta = s.delta

Inside(c,s) == (Ranged(s) /\ Sized(s)) => \A i \in 1..s.n : Le(s.min[i],s.v[i]) /\ Le(s.v[i],s.max[i])

-----------------------------------------------------------------------------
(* How likely each outcome is: e.count over e.N repetitions                 *)
(* initialising: every value of a small range, every 16th of a wide one and *)
(* even as often as odd numbers are equally likely in each dimension        *)
InitLawOK(e) ==
  /\ \A i \in DOMAIN e.count :
     LET q == e.count[i] IN
     IF e.kind = "gauss"
     THEN /\ Len(q) = 6
          /\ \A b \in 1..6 : Within(q[b], e.N, <<228,1359,3413,3413,1359,228>>[b])
     ELSE /\ \A b \in DOMAIN q : Within(q[b], e.N, Div(One,Len(q)))
          /\ e.odd = <<>> \/ Within(e.odd[i], e.N, One \div 2)
  \* neighbouring dimensions are independent: both in the lower half
  /\ \A i \in DOMAIN e.near :
        LET k(j) == Len(e.count[j])
            h(j) == k(j) \div 2
        IN Within(e.near[i], e.N, Div(One * h(i) * h(i+1), k(i) * k(i+1)))
(* mutating the same variable: e.count[i] = counts of the change of         *)
(* dimension i, by quarters of the way down and up (one quarter only for    *)
(* steps of one); e.up[i], e.down[i]: is there room; e.same: no change      *)
MutateLawOK(e) ==
  LET n == Len(e.count)
      k == Len(e.count[1]) \div 2                   \* 1 or 4
      p == Div(One, 2*k*n)
      stuck == Cardinality({ i \in 1..n : ~e.up[i] }) + Cardinality({ i \in 1..n : ~e.down[i] })
  IN IF e.kind = "bool"
     THEN e.same = 0 /\ \A i \in 1..n : Within(e.count[i][1] + e.count[i][2], e.N, Div(One,n))
     ELSE /\ \A i \in 1..n : /\ \A b \in 1..k     : Within(e.count[i][b], e.N, IF e.down[i] THEN p ELSE 0)
                             /\ \A b \in k+1..2*k : Within(e.count[i][b], e.N, IF e.up[i] THEN p ELSE 0)
          /\ Within(e.same, e.N, Div(One*stuck, 2*n))
=============================================================================
