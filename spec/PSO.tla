-------------------------------- MODULE PSO --------------------------------
(* Particle swarm:  initializePop ; run = ( evaluate all ; update personal  *)
(* and global best ; record ; stop? ; move )*.                              *)
(* A particle is [x, f, px, pf]: position (an opaque id), fitness of the    *)
(* last evaluation, personal best position and fitness.  The numeric part   *)
(* of the move (P02) works on fixed-point vectors kept next to it.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce
On(c,p) == IF c \in Enforce THEN p = TRUE ELSE TRUE   \* "= TRUE": evaluated as a value, no branching

VARIABLES cfg, phase, gen, fail, part, gb, rec, todo, num, mix
pvars == <<cfg, phase, gen, fail, part, gb, rec, todo, num, mix>>

Better(a,b) == IF cfg.dir = "less" THEN a < b ELSE a > b
Extreme(S)  == CHOOSE f \in S : \A g \in S : ~Better(g,f)

PInit == /\ phase = "new" /\ gen = 0 /\ fail = 0 /\ part = <<>> /\ gb = [x |-> 0, f |-> 0]
         /\ rec = <<>> /\ todo = {} /\ num = <<>> /\ mix = <<0,0>>

Configure(c) ==
  /\ phase \in {"new","ready","done"}
  /\ cfg' = c
  /\ UNCHANGED <<phase, gen, fail, part, gb, rec, todo, num, mix>>

(* initializePop evaluates every particle at its start position *)
Populate ==
  /\ phase \in {"new","ready","done"}
  /\ phase' = "init"
  /\ part' = [ i \in 1..cfg.K |-> [x |-> 0, f |-> 0, px |-> 0, pf |-> 0] ]
  /\ todo' = 1..cfg.K
  /\ UNCHANGED <<cfg, gen, fail, gb, rec, num, mix>>

EvalInit(i,x,f) ==
  /\ phase = "init"
  /\ On("P01", i \in todo)
  /\ todo' = todo \ {i}
  /\ part' = [part EXCEPT ![i] = [x |-> x, f |-> f, px |-> x, pf |-> f]]
  /\ UNCHANGED <<cfg, phase, gen, fail, gb, rec, num, mix>>

(* p0, gb0: the reported swarm and global best *)
Ready(p0, gb0, m) ==
  /\ phase = "init"
  /\ On("P01", todo = {} /\ p0 = part /\ gb0.x = p0[1].x /\ gb0.f = p0[1].f)
  /\ part' = p0 /\ gb' = gb0 /\ num' = m
  /\ gen' = 0 /\ fail' = 0 /\ rec' = <<>> /\ phase' = "ready" /\ todo' = {}
  /\ UNCHANGED <<cfg, mix>>

StartRun ==
  /\ phase \in {"ready","done"}
  /\ phase' = "eval" /\ gen' = 1 /\ fail' = 0 /\ rec' = <<>>
  /\ todo' = DOMAIN part
  /\ UNCHANGED <<cfg, part, gb, num, mix>>

(* every particle is evaluated exactly once per generation, where it is     *)
Evaluate(i,x,f) ==
  /\ phase = "eval"
  /\ On("P01", i \in todo /\ x = part[i].x)
  /\ todo' = todo \ {i}
  /\ part' = [part EXCEPT ![i].f = f]
  /\ UNCHANGED <<cfg, phase, gen, fail, gb, rec, num, mix>>

NewP(p) == IF Better(p.f, p.pf) THEN [p EXCEPT !.px = p.x, !.pf = p.f] ELSE p

(* gb1 / fl: reported global best and fail count *)
Update(gb1, fl) ==
  /\ phase = "eval"
  /\ On("P01", todo = {})
  /\ LET q == [ i \in DOMAIN part |-> NewP(part[i]) ]
         b == Extreme({ q[i].pf : i \in DOMAIN q })
     IN /\ On("P01",
              IF Better(b, gb.f)
              THEN /\ gb1.f = b /\ fl = 0
                   /\ \E i \in DOMAIN q : q[i].pf = b /\ q[i].px = gb1.x
              ELSE gb1 = gb /\ fl = fail + 1)
        /\ part' = q
  /\ num' = IF num = <<>> THEN num
            ELSE [ i \in DOMAIN num |-> IF Better(part[i].f, part[i].pf)
                                       THEN <<num[i][1], num[i][2], num[i][1]>> ELSE num[i] ]
  /\ gb' = gb1 /\ fail' = fl /\ rec' = Append(rec, gb1.f)
  /\ phase' = "decide"
  /\ UNCHANGED <<cfg, gen, todo, mix>>

Stop == gen > cfg.maxGen \/ (cfg.maxFail > 0 /\ fail > cfg.maxFail)

Finish(g, p0, r) ==
  /\ phase = "decide"
  /\ On("P01", /\ Stop /\ g = gen - 1 /\ p0 = part
               /\ cfg.record => r = rec)
  /\ phase' = "done" /\ gen' = g
  /\ UNCHANGED <<cfg, fail, part, gb, rec, todo, num, mix>>

-----------------------------------------------------------------------------
(* The move.  o = old numeric state, w = new one: sequences (one entry per  *)
(* particle) of <<position, velocity, personal best>>, each a sequence of   *)
(* fixed-point integers; gv = global best position.                         *)
AbsV(x) == IF x < 0 THEN -x ELSE x
Clamp(x,lo,hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Dims == DOMAIN cfg.lo
InBox(x)   == \A d \in Dims : x[d] >= cfg.lo[d] /\ x[d] <= cfg.hi[d]
SlowEnough(v) == \A d \in Dims : AbsV(v[d]) <= cfg.vm[d]
(* part of the velocity that is not inertia; error at most 2 units *)
Pull(o,n,d) == n[2][d] - (cfg.w8 * o[2][d]) \div 8
A(o,n,d)    == n[3][d] - o[1][d]               \* towards the personal best
B(o,gv,d)   == gv[d] - o[1][d]                 \* towards the global best
Free(n,d)   == AbsV(n[2][d]) < cfg.vm[d]       \* velocity not clamped
Small(x)    == x \div 4                        \* keeps products in 32 bits
Tiny(x)     == x \div 32

(* pull must be  r1*cP*a + r2*cG*b  with r1, r2 in [0,1], the same for all  *)
(* coordinates.  Checked by elimination on coordinates with free velocity.  *)
Colinear(u,a,b,d,e,f) ==
  LET det == Tiny(u[d])*(Tiny(a[e])*Tiny(b[f]) - Tiny(a[f])*Tiny(b[e]))
           - Tiny(u[e])*(Tiny(a[d])*Tiny(b[f]) - Tiny(a[f])*Tiny(b[d]))
           + Tiny(u[f])*(Tiny(a[d])*Tiny(b[e]) - Tiny(a[e])*Tiny(b[d]))
      nu  == AbsV(Tiny(u[d])) + AbsV(Tiny(u[e])) + AbsV(Tiny(u[f]))
      na  == AbsV(Tiny(a[d])) + AbsV(Tiny(a[e])) + AbsV(Tiny(a[f]))
      nb  == AbsV(Tiny(b[d])) + AbsV(Tiny(b[e])) + AbsV(Tiny(b[f]))
  IN AbsV(det) <= 2*(nu*na + nu*nb + na*nb) + 20*(nu+na+nb) + 50

(* one pull direction only: u = r*c*b with 0<=r<=1 *)
Along(u,b,c8,d,e) ==
  /\ AbsV(Small(u[d])*Small(b[e]) - Small(u[e])*Small(b[d]))
       <= 3*(AbsV(Small(u[d])) + AbsV(Small(b[e])) + AbsV(Small(u[e])) + AbsV(Small(b[d]))) + 20
Between0(u,b,c8) ==        \* 0 <= u/b <= c, with slack
  IF b >= 0 THEN u >= -3 /\ 8*u <= c8*b + 8*(3 + c8)
            ELSE u <= 3 /\ 8*u >= c8*b - 8*(3 + c8)

Det2(a,b,d,e) == Small(a[d])*Small(b[e]) - Small(a[e])*Small(b[d])
Mag(a,b,d,e)  == AbsV(Small(a[d])) + AbsV(Small(b[e])) + AbsV(Small(a[e])) + AbsV(Small(b[d]))
(* coefficient n/det in [0,c] with slack s *)
Coef(n,det,c8,s) ==
  LET nn == IF det < 0 THEN -n ELSE n
      dd == AbsV(det)
  IN nn >= -s /\ (nn \div 4) <= ((c8 * (dd \div 8)) \div 4) + s
PairOK(u,a,b,d,e) ==
  LET det == Det2(a,b,d,e)
      s   == 4*(Mag(a,b,d,e) + Mag(u,b,d,e) + Mag(a,u,d,e)) + 100
  IN AbsV(det) > 8*s =>
       /\ Coef(Det2(u,b,d,e), det, cfg.cP8, s*2)
       /\ Coef(Det2(a,u,d,e), det, cfg.cG8, s*2)

LawOK(o,n,gv) ==
  LET u  == [d \in Dims |-> Pull(o,n,d)]
      a  == [d \in Dims |-> A(o,n,d)]
      b  == [d \in Dims |-> B(o,gv,d)]
      Fr == { d \in Dims : Free(n,d) }
      az == \A d \in Dims : a[d] = 0
      bz == \A d \in Dims : b[d] = 0
  IN IF az \/ cfg.cP8 = 0
     THEN /\ \A d \in Fr : Between0(u[d], b[d], cfg.cG8)
          /\ \A d,e \in Fr : d < e => Along(u,b,cfg.cG8,d,e)
     ELSE IF bz \/ cfg.cG8 = 0
     THEN /\ \A d \in Fr : Between0(u[d], a[d], cfg.cP8)
          /\ \A d,e \in Fr : d < e => Along(u,a,cfg.cP8,d,e)
     ELSE /\ \A d,e,f \in Fr : (d < e /\ e < f) => Colinear(u,a,b,d,e,f)
          /\ \A d,e \in Fr : d < e => PairOK(u,a,b,d,e)

MoveOK(o,n,gv) ==
  /\ SlowEnough(n[2])
  /\ InBox(n[1])
  /\ n[3] = o[3]
  /\ \A d \in Dims : AbsV(n[1][d] - Clamp(o[1][d] + n[2][d], cfg.lo[d], cfg.hi[d])) <= 2
  /\ LawOK(o,n,gv)

(* the two random factors are independent: in clearly decidable moves their *)
(* ratio is not always one                                                  *)
Decidable(o,n,gv,d,e) ==
  LET u  == [k \in Dims |-> Pull(o,n,k)]
      a  == [k \in Dims |-> A(o,n,k)]
      b  == [k \in Dims |-> B(o,gv,k)]
      det == AbsV(Det2(a,b,d,e))
  IN Free(n,d) /\ Free(n,e) /\ cfg.cP8 > 0 /\ cfg.cG8 > 0
     /\ det > 60*(Mag(a,b,d,e) + Mag(u,b,d,e) + Mag(a,u,d,e))
SameFactor(o,n,gv,d,e) ==
  LET u  == [k \in Dims |-> Pull(o,n,k)]
      a  == [k \in Dims |-> A(o,n,k)]
      b  == [k \in Dims |-> B(o,gv,k)]
      det == AbsV(Det2(a,b,d,e)) \div 8
      x == (AbsV(Det2(u,b,d,e)) \div 8) * (cfg.cG8)      \* r1*cP*cG*det
      y == (AbsV(Det2(a,u,d,e)) \div 8) * (cfg.cP8)
  IN 20 * (AbsV(x-y) \div 16) <= (((det * cfg.cP8) \div 16) * cfg.cG8) \div 8

Move(p0, m, gv) ==
  /\ phase = "decide"
  /\ On("P01", /\ ~Stop
               /\ Len(p0) = Len(part)
               /\ \A i \in DOMAIN part : p0[i].px = part[i].px /\ p0[i].pf = part[i].pf)
  /\ On("P02", \A i \in DOMAIN m : MoveOK(num[i], m[i], gv))
  /\ part' = [ i \in DOMAIN part |-> [part[i] EXCEPT !.x = p0[i].x] ]
  /\ num' = m
  /\ mix' = IF cfg.num
            THEN LET c == { z \in (DOMAIN m) \X { d \in {1,3,4} : d + 1 \in Dims } : Decidable(num[z[1]],m[z[1]],gv,z[2],z[2]+1) }
                     b == { z[1] : z \in c }          \* moves with a decidable pair
                     d == { z[1] : z \in { y \in c : ~SameFactor(num[y[1]],m[y[1]],gv,y[2],y[2]+1) } }
                 IN << mix[1] + Cardinality(b), mix[2] + Cardinality(b \ d) >>
            ELSE mix
  /\ phase' = "eval" /\ gen' = gen + 1 /\ todo' = DOMAIN part
  /\ UNCHANGED <<cfg, fail, gb, rec>>

(* reported swarm right before the first evaluation of a run *)
Unmoved(p0, m, gb0) ==
  /\ phase = "eval" /\ gen = 1 /\ todo = DOMAIN part
  /\ On("P01", /\ gb0 = gb
               /\ \A i \in DOMAIN part : p0[i].x = part[i].x /\ p0[i].px = part[i].px)
  /\ On("P02", cfg.num => m = num)

-----------------------------------------------------------------------------
GenBound  == phase = "done" => gen <= cfg.maxGen
RecordLen == phase = "done" => Len(rec) = gen + 1
BestOK    == phase \in {"decide","done"} => \A i \in DOMAIN part : ~Better(part[i].pf, gb.f)
PersonalOK == phase \in {"decide","done"} => \A i \in DOMAIN part : ~Better(part[i].f, part[i].pf)
Monotone  == \A i \in 1..(Len(rec)-1) : ~Better(rec[i], rec[i+1])
FailStop  == (phase = "done" /\ gen < cfg.maxGen) => (cfg.maxFail > 0 /\ fail > cfg.maxFail)
FailIsRun == phase = "decide" =>
               (fail > 0 => \A k \in 1..(fail-1) : rec[Len(rec)-k] = gb.f)
=============================================================================
