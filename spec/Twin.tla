-------------------------------- MODULE Twin --------------------------------
(* Two recorded histories of the same scenario (same options, same user     *)
(* functions, same seed of the shared random engine) taken under different  *)
(* environments: worker thread numbers, processes (hence addresses), other  *)
(* scenarios run before, a build without OpenMP.  The specification is the  *)
(* self composition of the solver: both copies make the same move at every  *)
(* step.  Only the order of fitness evaluations inside one generation is    *)
(* free: a maximal run of evaluations is one joint move which evaluates the *)
(* same individuals to the same values.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils

Pairs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, a, b        \* l and b: positions in the two histories;
                             \* a: number of joint moves made
A == Pairs[tr].a
B == Pairs[tr].b
IsE(h,i) == i <= Len(h) /\ h[i].k = "E"
RECURSIVE RunEnd(_,_)        \* one past the run of evaluations starting at i
RunEnd(h,i) == IF IsE(h,i) THEN RunEnd(h,i+1) ELSE i
Run(h,i,j)  == { h[n] : n \in i..(j-1) }

TInit == tr \in DOMAIN Pairs /\ l = 1 /\ b = 1 /\ a = 0

Together ==
  /\ l <= Len(A) /\ b <= Len(B) /\ ~IsE(A,l) /\ ~IsE(B,b)
  /\ (A[l] = B[b]) = TRUE
  /\ l' = l + 1 /\ b' = b + 1

Evaluate ==
  /\ IsE(A,l) /\ IsE(B,b)
  /\ LET m == RunEnd(A,l)
         n == RunEnd(B,b)
     IN /\ m - l = n - b
        /\ (Run(A,l,m) = Run(B,b,n)) = TRUE
        /\ l' = m /\ b' = n

Done == l > Len(A) /\ b > Len(B)
TNext == /\ \/ (Together \/ Evaluate) /\ a' = a + 1
            \/ Done /\ UNCHANGED <<l,a,b>>
         /\ UNCHANGED tr
TSpec == TInit /\ [][TNext]_<<tr,l,a,b>>
=============================================================================
