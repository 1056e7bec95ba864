------------------------------- MODULE BitSet -------------------------------
(* multiBitSet: R registers, each holding a sequence of N-bit unsigned      *)
(* integers, and the operations of the class on them.  A value is a tuple   *)
(* of four 16-bit limbs, lowest first, so that 64-bit elements are exact.   *)
EXTENDS Integers, Sequences, FiniteSets

Zero == <<0,0,0,0>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
Clip(n,lo,hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
(* what remains of v in an element of so many bits *)
Cut(v,bits) == [ k \in 1..4 |-> v[k] % Pow2(Clip(bits - 16*(k-1), 0, 16)) ]

Zeros(n) == [ k \in 1..n |-> Zero ]
Resized(q,n) == IF n <= Len(q) THEN SubSeq(q,1,n) ELSE q \o Zeros(n - Len(q))

(* an operation is a tuple <<name, register, ...>>; indices count from 1 *)
Enabled_(s,o) ==
  LET q == s[o[2]] IN
  CASE o[1] = "pop"   -> Len(q) > 0
    [] o[1] = "set"   -> o[3] \in DOMAIN q
    [] o[1] = "ref"   -> o[3] \in DOMAIN q /\ o[5] \in DOMAIN s[o[4]]
    [] o[1] = "front" -> Len(q) > 0
    [] o[1] = "back"  -> Len(q) > 0
    [] o[1] \in {"copy","move"} -> o[2] # o[3]
    [] o[1] = "walk"  -> o[6] < Len(q) /\ \A k \in 3..6 : o[k] \in 0..Len(q)
    [] OTHER -> TRUE

Apply(s,o,bits) ==
  LET r == o[2]
      q == s[r]
      put(i,v) == [s EXCEPT ![r][i] = v]
  IN CASE o[1] = "new"    -> [s EXCEPT ![r] = Zeros(o[3])]
       [] o[1] = "push"   -> [s EXCEPT ![r] = Append(@, Cut(o[3],bits))]
       [] o[1] = "pop"    -> [s EXCEPT ![r] = SubSeq(@,1,Len(@)-1)]
       [] o[1] = "set"    -> put(o[3], Cut(o[4],bits))
       [] o[1] = "ref"    -> put(o[3], s[o[4]][o[5]])
       [] o[1] = "front"  -> put(1, Cut(o[3],bits))
       [] o[1] = "back"   -> put(Len(q), Cut(o[3],bits))
       [] o[1] = "walk"   -> put(o[6] + 1, Cut(o[7],bits))   \* an iterator from o[3] over o[4], o[5] to o[6]
       [] o[1] = "fill"   -> [s EXCEPT ![r] = [k \in DOMAIN q |-> Cut(o[3],bits)]]
       [] o[1] = "resize" -> [s EXCEPT ![r] = Resized(@, o[3])]
       [] o[1] = "clear"  -> [s EXCEPT ![r] = <<>>]
       [] o[1] = "assign" -> [s EXCEPT ![r] = s[o[3]]]
       [] o[1] = "copy"   -> [s EXCEPT ![r] = s[o[3]]]
       [] o[1] = "move"   -> [s EXCEPT ![r] = s[o[3]], ![o[3]] = <<>>]
       [] OTHER           -> s                       \* reserve, shrink

Ceil(a,b) == (a + b - 1) \div b

(* What is seen of a register: every way of reading it gives its contents;  *)
(* capacity and blocks agree and are large enough.                          *)
SeenOK(q, x, bits, bb) ==
  /\ x.n = Len(q)
  /\ \A k \in DOMAIN x.v : x.v[k] = q
  /\ x.cap >= x.n
  /\ x.cap = (x.blocks * bb) \div bits
  /\ x.blocks >= Ceil(x.n * bits, bb)
(* What an iterator, at p, says of itself: index, is it begin() or end(), is *)
(* it null, the distances to both ends as compared after moving there        *)
IterOK(q, p, w) == w = << p, IF p = 0 THEN 1 ELSE 0, IF p = Len(q) THEN 1 ELSE 0,
                          IF p = Len(q) THEN 1 ELSE 0, 1, 1 >>
MemoryOK(s, o, x, bits, bb) ==
  CASE o[1] = "reserve" -> x[o[2]].cap >= o[3]
    [] o[1] = "shrink"  -> x[o[2]].blocks = Ceil(Len(s[o[2]]) * bits, bb)
    [] OTHER -> TRUE
=============================================================================
