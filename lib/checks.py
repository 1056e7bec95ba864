"""One function per property.  Each: check the specification exhaustively on
small instances with TLC, record histories of the real code, let TLC decide
whether each history is a behaviour of the specification."""
import random

import adt
import aos
import bench
import box
import codes
import config
import ga
import law
import num
import pso
import twin
import vary
import vp

CHECKS = {}
ALLMAPS = ("int", "neg", "tiny", "huge", "inf", "pinf", "e3")


def check(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco


def n(quick, deep):
    return deep if vp.thorough() else quick


def rng(pid, extra=0):
    return random.Random("%s-%d-%d" % (pid, vp.SEED, extra))


def rounds(c, body):
    """quick: one round; thorough: rounds until the time is used."""
    import time
    k = 0
    while True:
        body(k)
        k += 1
        if not vp.thorough() or time.time() - vp.T0 > 540:
            break
    c.cov["rounds"] = k


def soga_models(c):
    c.model("MCGA", "MCGA_soga.cfg")
    c.assumptions.append("design explored exhaustively for K=2, 2 generations, 3 objective values; "
                         "larger runs through recorded histories only")


def nsga_models(c):
    c.model("MCGA", "MCGA_nsga.cfg")
    c.assumptions.append("design explored exhaustively for K=2, 2 generations, 2x2 objective values; "
                         "larger runs through recorded histories only")


@check("G01")
def g01(c):
    soga_models(c)
    bins = ga.binaries(c, ["soga", 2, 0])

    def body(k):
        r = rng("G01", k)
        plan = [("ga_soga", ga.soga(r, 260, "s", maps=ALLMAPS) + ga.soga(r, 40, "t", th=4)
                 + ga.soga(r, 60, "q", gmax=40, kmax=5) + ga.enlarge(r, ga.soga(r, 20, "b"))
                 + vp.lengthen(r, ga.soga(r, 50, "l", maps=ALLMAPS, kmax=5))
                 + vp.marathon(r, ga.soga(r, 10, "L", kmax=4), kmax=4)),
                ("ga_nsga2", ga.nsga(r, 70, "a", 2) + vp.lengthen(r, ga.nsga(r, 8, "l", 2, kmax=5))), ("ga_nsga0", ga.nsga(r, 70, "b", 3))]
        ga.check(c, bins, plan, ["G01"])
    rounds(c, body)


@check("G02")
def g02(c):
    soga_models(c)
    bins = ga.binaries(c, ["soga", 2, 3])

    def body(k):
        r = rng("G02", k)
        plan = [("ga_soga", ga.soga(r, 80, "s", maps=ALLMAPS)), ("ga_nsga2", []), ("ga_nsga3", [])]
        for th in (2, 3, 4, 5, 8, 13):
            plan[0][1].extend(ga.soga(r, 30, "s%d_" % th, th=th, kmax=14, gmax=4))
            plan[0][1].extend(ga.enlarge(r, ga.soga(r, 8, "s%d_" % th, th=th)))
            plan[1][1].extend(ga.enlarge(r, ga.nsga(r, 4, "n%d_" % th, 2, th=th)))
            plan[1][1].extend(ga.nsga(r, 14, "n%d_" % th, 2, th=th, kmax=14, gmax=4))
        for th in (1, 2, 8):
            plan[2][1].extend(ga.nsga(r, 14, "m%d_" % th, 3, th=th, kmax=14, gmax=4))
        ga.check(c, bins, plan, ["G02"])
    rounds(c, body)


@check("G03")
def g03(c):
    soga_models(c)
    bins = ga.binaries(c, ["soga", 2, 3])

    def body(k):
        r = rng("G03", k)
        plan = [("ga_soga", ga.soga(r, 240, "s", kmax=12) + ga.soga(r, 60, "t", methods=["Tournament"], kmax=12) +
                 ga.enlarge(r, ga.soga(r, 20, "b"))),
                ("ga_nsga2", ga.nsga(r, 80, "a", 2, kmax=12)),
                ("ga_nsga3", ga.nsga(r, 80, "b", 3, kmax=12))]
        ga.check(c, bins, plan, ["G03"])
    rounds(c, body)


def s_check(pid, ids, maps):
    @check(pid)
    def f(c):
        soga_models(c)
        bins = ga.binaries(c, ["soga"])

        def body(k):
            r = rng(pid, k)
            plan = [("ga_soga", ga.soga(r, 420, "s", maps=maps) +
                     ga.soga(r, 120, "k", maps=maps, kmax=20, gmax=3) +
                     ga.enlarge(r, ga.soga(r, 60, "b", maps=maps)) +
                     vp.lengthen(r, ga.soga(r, 40, "l", maps=maps, kmax=5)) +
                     (vp.marathon(r, ga.soga(r, 10, "L", kmax=4), kmax=4) if pid == "S03" else []))]
            ga.check(c, bins, plan, ids)
        rounds(c, body)


s_check("S01", ["S01"], ALLMAPS)
s_check("S02", ["S02"], ("int", "int", "neg", "tiny", "e3", "huge", "inf"))
s_check("S03", ["S03"], ALLMAPS)


def m_check(pid, kinds, ms, kmax, vmodes=None, d=None):
    @check(pid)
    def f(c):
        nsga_models(c)
        bins = ga.binaries(c, ms)

        def body(k):
            r = rng(pid, k)
            plan = []

            def wide(sc):
                return [dict(s, D=r.choice(d)) for s in sc] if d else sc
            for m in ms:
                plan.append(("ga_nsga%d" % m,
                             [dict(s, skew=r.choice([3, 40, 100]), skewk=r.randrange(m or 3)) for s in
                              wide(ga.nsga(r, 30, "w%d_" % m, m or 3, kinds=kinds, kmax=kmax, vmodes=vmodes))] +
                             wide(ga.nsga(r, 130, "n%d_" % m, m or 3, kinds=kinds, kmax=kmax, vmodes=vmodes)) +
                             wide(ga.nsga(r, 20, "k%d_" % m, m or 3, kinds=kinds, kmax=2 * kmax, gmax=2,
                                          vmodes=vmodes)) +
                             ga.enlarge(r, ga.nsga(r, 14, "b%d_" % m, m or 3, kinds=kinds, vmodes=vmodes))))
            for M, D in ((2, 97), (5, 2000), (6, 500), (8, 100)):   # the number chosen at run time
                plan.append(("ga_nsga0", ga.nsga(r, 16, "v%d_" % M, M, kinds=kinds, kmax=kmax, vmodes=vmodes, D=d and D)))
                plan.append(("ga_nsga0", ga.enlarge(r, ga.nsga(r, 4, "V%d_" % M, M, kinds=kinds, vmodes=vmodes),
                                                    20, 60, (D,))))
            if pid == "M01":                # a worst individual dominated by hundreds
                plan.append(("ga_nsga2", [dict(x, D=1000, vmode="near") for x in
                                          ga.enlarge(r, ga.nsga(r, 5, "H", 2, kinds=kinds), 180, 300)]))
            for _, sc in plan:
                ga.moved(r, sc, *((r.choice([-8, -20]), 24) if pid == "M03" else (-40, 40)))
            ga.check(c, bins, plan, [pid])
        rounds(c, body)


m_check("M01", ("nsga2", "nsga3"), [2, 3, 4, 0], 9)
m_check("M02", ("nsga2", "nsga3"), [2, 3, 4, 0], 9)
m_check("M03", ("nsga2",), [2, 3, 4, 0], 9, vmodes=["rnd", "rnd", "rnd", "near"], d=[5, 9, 30, 97, 2000])


def nsga3_check(pid, n, kmax, ms, many):
    @check(pid)
    def f(c):
        nsga_models(c)
        bins = ga.binaries(c, ms)

        def body(k):
            r = rng(pid, k)
            plan = [("ga_nsga%d" % m, ga.niche(r, n, "n%d_" % m, m or 3, kmax)) for m in ms]
            for M in many:
                plan.append(("ga_nsga0", ga.niche(r, n // 5, "m%d_" % M, M, kmax)))
            if pid == "M05":
                for m in (2, 3):
                    plan.append(("ga_nsga%d" % m, ga.enlarge(r, ga.niche(r, 20, "b%d_" % m, m, kmax), 20, 60, None)))
                for _, sc in plan:
                    ga.moved(r, sc, -6, 12, True)
            ga.check(c, bins, plan, [pid])
        rounds(c, body)


nsga3_check("M04", 200, 3, [2, 3, 4, 5, 0], [2, 4, 5, 6, 7])
nsga3_check("M05", 120, 12, [2, 3, 0], [2])


def pso_models(c):
    c.model("MCPSO", "MCPSO.cfg")
    c.assumptions.append("design explored exhaustively for 2 particles, 3 positions, 2 generations; "
                         "larger swarms through recorded histories only")


@check("P01")
def p01(c):
    pso_models(c)
    exe = pso.binary(c)

    def body(k):
        r = rng("P01", k)
        maps = ("int", "int", "neg", "tiny", "huge", "inf")
        sc = pso.swarm(r, 260, "s", maps=maps) + pso.swarm(r, 40, "q", maps=maps, gmax=40, kmax=5) + \
            vp.lengthen(r, pso.swarm(r, 40, "l", maps=maps, kmax=5)) + \
            vp.marathon(r, pso.swarm(r, 10, "L", kmax=3))
        for th in (2, 3, 4, 8):
            sc += pso.swarm(r, 30, "s%d_" % th, th=th, kmax=17, gmax=4)
            sc += pso.enlarge(r, pso.swarm(r, 10, "b%d_" % th, th=th, maps=maps))
        sc += pso.enlarge(r, pso.swarm(r, 15, "D", maps=maps), 3, 9, (17, 33, 64))
        pso.check(c, exe, sc, ["P01"])
    rounds(c, body)


@check("P02")
def p02(c):
    pso_models(c)
    exe = pso.binary(c)

    def body(k):
        r = rng("P02", k)
        sc = pso.swarm(r, 240, "s", num=1) + \
            pso.swarm(r, 30, "q", num=1, gmax=30, kmax=20, fmodes=["coarse", "fine"]) + \
            pso.swarm(r, 20, "t", num=1, th=4, kmax=9) + pso.wide(r, 16, "w") + \
            pso.enlarge(r, pso.swarm(r, 25, "b", num=1), 10, 40) + \
            pso.enlarge(r, pso.swarm(r, 6, "B", num=1), 60, 150) + \
            pso.enlarge(r, pso.swarm(r, 20, "D", num=1), 3, 5, (17, 33, 50, 65))
        pso.check(c, exe, sc, ["P02"])
    rounds(c, body)


def aos_models(c):
    c.model("MCAOS", "MCAOS.cfg")
    c.assumptions.append("design explored exhaustively for 2 electrons, 3 states, 3 generations; "
                         "larger atoms through recorded histories only")


@check("A01")
def a01(c):
    aos_models(c)
    bins = aos.binaries(c)

    def body(k):
        r = rng("A01", k)
        sc = aos.atoms(r, 200, "s") + \
            aos.atoms(r, 30, "q", gmax=40, nmax=5, boxes=("square", "rect")) + \
            vp.lengthen(r, aos.atoms(r, 40, "l", nmax=5, boxes=("square", "rect")), 3) + \
            vp.marathon(r, aos.atoms(r, 10, "L", nmax=3, boxes=("square", "rect")), 3, "1000")
        for th in (2, 4, 8):
            sc += aos.atoms(r, 30, "s%d_" % th, th=th, nmax=17, gmax=4)
            sc += aos.enlarge(r, aos.atoms(r, 25, "b%d_" % th, th=th), 30, 200)
        aos.check(c, bins, sc, ["A01"])
    rounds(c, body)


@check("A02")
def a02(c):
    aos_models(c)
    bins = aos.binaries(c)

    def body(k):
        r = rng("A02", k)
        sc = aos.atoms(r, 220, "s") + \
            aos.atoms(r, 40, "q", nmax=30, gmax=5) + \
            aos.atoms(r, 15, "m", nmax=10, gmax=60, boxes=("square", "rect")) + \
            aos.atoms(r, 20, "t", th=4, nmax=9)
        for s in sc[-35:-20]:
            s["ops"] = "C:20,45,99,6,1;I;R"
        sc += vp.lengthen(r, aos.atoms(r, 15, "l", nmax=5, boxes=("square", "rect")), 3)
        sc += aos.enlarge(r, aos.atoms(r, 25, "b"), 10, 60)
        aos.check(c, bins, sc, ["A02"])
    rounds(c, body)


@check("R01")
def r01(c):
    bins = c.build_many(twin.jobs(
        [("ga_soga", "ga.cpp", ["-DPART_SOGA"])] +
        [("ga_nsga%d" % m, "ga.cpp", ["-DPART_NSGA", "-DVP_PF", "-DVP_M=%d" % m]) for m in (2, 3, 0)] +
        [("pso", "pso.cpp", [])] +
        [("aos" + t, "aos.cpp", ["-DPART=%d" % i]) for i, t in enumerate(aos.TYPES) if t in ("efix", "sdyn")]))

    def body(k):
        r = rng("R01", k)
        plan = [("ga_soga", ga.soga(r, 60, "s", kmax=14, gmax=4) +
                 ga.soga(r, 20, "t", methods=["Tournament"], kmax=14)),
                ("ga_nsga2", ga.nsga(r, 30, "a", 2, kmax=10, gmax=4)),
                ("ga_nsga3", ga.nsga(r, 30, "b", 3, kmax=10, gmax=4)),
                ("ga_nsga0", ga.nsga(r, 20, "c", 3, kmax=10, gmax=4)),
                ("pso", [dict(s, twin=1, num=1) for s in pso.swarm(r, 50, "p", kmax=12, gmax=4) +
                         pso.enlarge(r, pso.swarm(r, 15, "b"), 20, 60)])]
        plan[0][1].extend(ga.enlarge(r, ga.soga(r, 20, "b"), 30, 100))
        plan[1][1].extend(ga.enlarge(r, ga.nsga(r, 10, "b", 2), 30, 100))
        plan[2][1].extend(ga.enlarge(r, ga.nsga(r, 10, "b", 3), 30, 100))
        for t in ("efix", "sdyn"):
            plan.append(("aos" + t, [dict(s, twin=1, type=t) for s in aos.atoms(r, 30, t, nmax=12, gmax=4) +
                                      aos.enlarge(r, aos.atoms(r, 10, "b" + t), 20, 60)]))
        twin.check(c, bins, plan)
    rounds(c, body)


@check("D01")
def d01(c):
    def body(k):
        r = rng("D01", k)
        adt.bits(c, r, (2 if k or not vp.thorough() else 3), n(1, 0.2), n(600, 3000), 60)
    rounds(c, body)


@check("D02")
def d02(c):
    def body(k):
        r = rng("D02", k)
        adt.mats(c, r, (2 if k or not vp.thorough() else 3), n(1, 0.3), n(500, 3000), 60)
    rounds(c, body)


def law_check(pid, gen):
    @check(pid)
    def f(c):
        c.model("MCLaw", "MCLaw.cfg")
        exe = c.build_many([("law", "law.cpp", [])])["law"]

        def body(k):
            law.check(c, exe, gen(rng(pid, k)))
        rounds(c, body)


law_check("S04", lambda r: law.selection(r, 14, 100000) + law.crowds(r, 2, 2000))
law_check("G04", lambda r: law.variation(r, 60, 100000) + law.many(r, n(24, 96), 4000))


def factor_check(pid, kind):
    @check(pid)
    def f(c):
        c.model("MCLaw", "MCLaw.cfg")
        bins = c.build_many([("swarmlaw%d" % i, "swarmlaw.cpp", ["-DPART=%d" % i]) for i in range(2)])

        def body(k):
            law.check_factors(c, bins, law.factors(rng(pid, k), kind, n(2, 6), n(500000, 1500000)))
        rounds(c, body)


factor_check("P03", "pso")
factor_check("A03", "aos")


@check("B01")
def b01(c):
    c.model("MCLaw", "MCLaw.cfg")

    def body(k):
        box.check(c, rng("B01", k), 4, n(0.3, 1), n(1000, 4000), 30, 100000)
    rounds(c, body)


@check("V01")
def v01(c):
    c.model("MCVary", "MCVary.cfg")

    def body(k):
        vary.check(c, vary.scenarios(rng("V01", k), 16, 100000))
    rounds(c, body)


@check("E01")
def e01(c):
    c.model("MCCode", "MCCode.cfg")

    def body(k):
        codes.check(c, rng("E01", k), n(500, 5000), 300, n(200, 400), n(250, 500), n(150, 300), 20)
    rounds(c, body)


@check("N01")
def n01(c):
    c.model("MCNum", "MCNum.cfg")

    def body(k):
        num.check(c, rng("N01", k), n(60, 400), n(10, 40), 100000)
    rounds(c, body)


@check("F01")
def f01(c):
    c.model("MCBench", "MCBench.cfg")

    def body(k):
        bench.check(c, rng("F01", k), n(10, 40))
    rounds(c, body)


@check("U01")
def u01(c):
    def body(k):
        config.check(c, rng("U01", k), n(800, 4000), 60)
    rounds(c, body)
