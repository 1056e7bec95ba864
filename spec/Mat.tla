-------------------------------- MODULE Mat --------------------------------
(* The matrices of SimpleMatrix: two MatrixDynamicSize (d1,d2), two         *)
(* MatrixFixedSize 2x3 (f1,f2) and two MatrixMap (m1,m2) over buffers of 12 *)
(* cells of their own.  Every object is [r, c, a]: a is its column-major    *)
(* contents (for a map the whole buffer).  0 stands for contents that the   *)
(* interface does not promise.                                              *)
EXTENDS Integers, Sequences, FiniteSets

Dyn == {"d1","d2"}
Fix == {"f1","f2"}
Map_ == {"m1","m2"}
Obj == Dyn \cup Fix \cup Map_
Buf == 12

Unknown(n) == [ i \in 1..n |-> 0 ]
Start == [ o \in Obj |-> IF o \in Dyn THEN [r |-> 0, c |-> 0, a |-> <<>>]
                         ELSE IF o \in Fix THEN [r |-> 2, c |-> 3, a |-> Unknown(6)]
                         ELSE [r |-> 3, c |-> 4, a |-> Unknown(Buf)] ]
Size(x) == x.r * x.c
Vis(x)  == SubSeq(x.a, 1, Size(x))                  \* what can be read
SameType(o,p) == \E K \in {Dyn,Fix,Map_} : o \in K /\ p \in K

Enabled_(s,op) ==
  LET o == op[2]
      x == s[o] IN
  CASE op[1] = "new"     -> o \in Dyn
    [] op[1] = "shape"   -> o \in Dyn \/ (o \in Map_ /\ op[3]*op[4] <= Buf)
    [] op[1] = "reserve" -> o \in Dyn
    [] op[1] = "fill"    -> TRUE
    [] op[1] \in {"lin","par"} -> op[3] <= Size(x)
    [] op[1] = "rc"      -> op[3] <= x.r /\ op[4] <= x.c
    [] op[1] = "assign"  -> LET y == s[op[3]] IN
                            (o \in Fix => y.r = x.r /\ y.c = x.c) /\ (o \in Map_ => Size(y) <= Buf)
    [] op[1] = "copy"    -> o # op[3] /\ SameType(o,op[3]) /\ o \notin Map_
    [] op[1] = "movec"   -> o # op[3] /\ o \in Dyn /\ op[3] \in Dyn
    [] op[1] = "movea"   -> o \in Dyn /\ op[3] \in Dyn
    [] OTHER -> FALSE

Overlay(a,b) == [ i \in DOMAIN a |-> IF i \in DOMAIN b THEN b[i] ELSE a[i] ]
Assigned(x,y,isMap) == [r |-> y.r, c |-> y.c, a |-> IF isMap THEN Overlay(x.a, Vis(y)) ELSE Vis(y)]
Void == [r |-> 0, c |-> 0, a |-> <<>>]

Apply(s,op) ==
  LET o == op[2]
      x == s[o]
      put(i,v) == [s EXCEPT ![o].a[i] = v]
  IN CASE op[1] = "new"   -> [s EXCEPT ![o] = [r |-> op[3], c |-> op[4], a |-> Unknown(op[3]*op[4])]]
       [] op[1] = "shape" -> [s EXCEPT ![o] = [r |-> op[3], c |-> op[4],
                                a |-> IF o \in Map_ \/ op[3]*op[4] = Size(x) THEN x.a
                                      ELSE Unknown(op[3]*op[4])]]
       [] op[1] = "fill"  -> [s EXCEPT ![o].a = Overlay(@, [i \in 1..Size(x) |-> op[3]])]
       [] op[1] \in {"lin","par"} -> put(op[3], op[4])
       [] op[1] = "rc"    -> put((op[4]-1) * x.r + op[3], op[5])
       [] op[1] \in {"assign","copy"} -> [s EXCEPT ![o] = Assigned(x, s[op[3]], o \in Map_)]
       [] op[1] \in {"movec","movea"} ->
              IF o = op[3] THEN s
              ELSE [s EXCEPT ![o] = s[op[3]], ![op[3]] = Void]
       [] OTHER -> s                                  \* reserve

(* x: the expected object, w: what was seen                                  *)
SeenOK(x,w) ==
  /\ w.r = x.r /\ w.c = x.c /\ w.n = Size(x)
  /\ Len(w.v) = 1                                     \* all ways of reading agree
  /\ Len(w.v[1]) = Size(x)
  /\ \A i \in 1..Size(x) : x.a[i] # 0 => w.v[1][i] = x.a[i]
  /\ w.cap >= Size(x)
MemoryOK(op,w) == op[1] = "reserve" => w[op[2]].cap >= op[3]
(* contents that were not promised are known once they have been read        *)
Learn(x,w) == [x EXCEPT !.a = Overlay(@, w.v[1])]
=============================================================================
