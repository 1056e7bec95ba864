------------------------------ MODULE TraceGA ------------------------------
(* Conformance: is each recorded history of the real solvers a behaviour of *)
(* GACore (with the clauses of the property under check enforced)?          *)
(* One line of the ndJSON file is one history: [name, ev].                  *)
EXTENDS GACore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l

Ev == Traces[tr].ev
E  == Ev[l]
K(k) == l <= Len(Ev) /\ E.k = k

AsPop(s) == [ i \in DOMAIN s |-> [id |-> s[i][1], val |-> s[i][2],
                                  done |-> (s[i][3] = 1), fit |-> s[i][4]] ]
SetOf(s) == { s[i] : i \in DOMAIN s }

TInit == /\ GInit /\ cfg = <<>>
         /\ tr \in DOMAIN Traces /\ l = 1

Adv == l' = l + 1

(* A generation in which nothing varied leaves no event.  It is implied by  *)
(* the generation counter of the next snapshot, and its selection saw and   *)
(* left the population of that snapshot.                                    *)
QuietDue == (K("S") \/ K("Z")) /\ E.n > gen
QuietSelect ==
  /\ QuietDue /\ phase = "eval"
  /\ SelectStep(AsPop(E.p), E.b, E.bi, IF Single THEN E.fl - (E.n - gen) ELSE 0,
                SetOf(E.pf), <<>>, PrevBest)
  /\ UNCHANGED l
QuietGo == /\ phase = "decide" /\ QuietDue
           /\ Continue /\ UNCHANGED l
QuietNext == /\ phase = "vary" /\ (K("S") \/ K("Z") \/ K("E")) /\ NextGen /\ UNCHANGED l

Observed == SelectStep(AsPop(E.p), E.b, E.bi, E.fl, SetOf(E.pf), E.a, PrevBest)

Step ==
  \/ K("C") /\ Configure(E.c) /\ Adv
  \/ K("I") /\ Initialize(AsPop(E.p), E.w, E.f) /\ Adv
  \/ K("R") /\ StartRun /\ Adv
  \/ K("E") /\ phase = "eval" /\ Evaluate(E.i, E.v, E.f) /\ Adv
  \/ K("S") /\ phase = "eval" /\ ~QuietDue /\ Observed /\ Adv
  \/ K("Z") /\ phase = "eval" /\ ~QuietDue /\ Observed /\ UNCHANGED l
  \/ K("Z") /\ phase = "decide" /\ E.n = gen
            /\ Finish(E.g, E.r, AsPop(E.p)) /\ Adv
  \/ (K("X") \/ K("M")) /\ phase = "decide" /\ Continue /\ UNCHANGED l
  \/ K("X") /\ phase = "vary" /\ Cross(E.p[1],E.p[2],E.c[1],E.d[1],E.c[2],E.d[2]) /\ Adv
  \/ K("M") /\ phase = "vary" /\ Mutate(E.s, E.d, E.v) /\ Adv
  \/ QuietSelect \/ QuietGo \/ QuietNext

(* A history is accepted when it is consumed to its end; the search is      *)
(* linear, so a rejected history is a deadlock before its end.              *)
TNext == /\ \/ Step
            \/ l > Len(Ev) /\ UNCHANGED <<gvars, l>>
         /\ UNCHANGED tr

TSpec == TInit /\ [][TNext]_<<gvars, tr, l>>
=============================================================================
