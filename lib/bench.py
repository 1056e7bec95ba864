"""The benchmark functions of EAGlobal."""
import vp

# name, (part, dims, objectives), domain of the coordinates, corners worth visiting
TWO = {
    "ackley": (5, [(0, 0)]), "beale": (4.5, [(3, .5)]), "GoldsteinPrice": (2, [(0, -1)]), "booth": (10, [(1, 3)]),
    "bukin": (15, [(-10, 1), (-10, 3)]), "matyas": (10, [(0, 0)]), "levy": (10, [(1, 1)]),
    "himmelblau": (5, [(3, 2)]), "threeHumpCamel": (5, [(0, 0)]), "easom": (8, [(3.140625, 3.140625), (7.75, 3.140625), (3.125, -1.4375), (-1.25, 2.875)]),
    "crossInTray": (10, [(1.34375, -1.34375), (0, 3)]), "eggHolder": (512, [(512, 404.25), (-512, 512)]),
    "holderTable": (10, [(8.0625, 9.65625), (1, 9)]), "McCormick": (4, [(-.546875, -1.546875)]),
    "schaffer2": (100, [(0, 0), (1, 1)]), "schaffer4": (100, [(0, 1.25)])}
FAR = {"ackley": 40, "easom": 40, "crossInTray": 700, "holderTable": 60, "levy": 100, "McCormick": 200,
       "threeHumpCamel": 20, "booth": 1000, "matyas": 1000, "beale": 30, "bukin": 60}
ANY = {"rastrigin": 5.12, "sphere": 100, "rosenbrock": 5, "styblinskiTang": 5}
PARTS = 4


def scenarios(r, k):
    out = []

    def add(part, fn, n, m, pts, **kw):
        for i in range(0, len(pts), 6):
            out.append((part, dict({"fn": fn, "n": n, "m": m, "name": "%s%d" % (fn, len(out)),
                                    "x": ";".join(",".join(repr(float(v)) for v in p) for p in pts[i:i + 6])}, **kw)))

    def dy(lo, hi):
        b = r.choice([1024, 2 ** 30])
        return round(r.uniform(lo, hi) * b) / b

    def pts(n, lo, hi, c):
        return [[dy(lo, hi) for _ in range(n)] for _ in range(c)]
    for fn, (w, special) in TWO.items():
        near = [[dy(p[0] - 1, p[0] + 1), dy(p[1] - 1, p[1] + 1)] for p in special]
        ints = [[r.randint(-int(w), int(w)) for _ in "xy"] for _ in range(3)]
        w2 = FAR.get(fn, w)                 # formulas hold outside the usual domain, too
        far = pts(2, -w2, w2, 4) + [[dy(-w, w), dy(-w2, w2)], [dy(-w2, w2), special[0][1]]]
        add(0, fn, 2, 1, special + near + ints + pts(2, -w, w, k) + far)
    for fn, w in ANY.items():
        for n in (2, 3, 6, 17):
            add(0, fn, n, 1, [[0] * n, [1] * n] + pts(n, -w, w, k // 2 if n < 9 else 3))
    for fn in ("Schaffer1", "Schaffer2"):
        edge = [[v + d] for v in (1, 3, 4, -3) for d in (-1 / 64, 0, 1 / 64)]
        for sized in (0, 1):
            add(1, fn, 1, 2, edge + pts(1, -10, 10, k), sized=sized)
    for fn, m, lo, hi in (("BinhKorn", 2, -2, 8), ("ChangkongHaimes", 2, -20, 20), ("Poloni", 2, -3.14, 3.14),
                          ("viennet", 3, -3, 3)):
        for sized in (0, 1):
            add(1, fn, 2, m, [[0, 0], [5, 3], [2, 1]] + pts(2, lo, hi, k), sized=sized)
    for fn, w in (("FonsecaFleming", 2), ("Kursawe", 5)):
        for n in (2, 3, 5, 11):
            add(1, fn, n, 2, [[0] * n] + pts(n, -w, w, k if n < 9 else 3))
    for fn in ("DTLZ1", "DTLZ2", "DTLZ3", "DTLZ4", "DTLZ5", "DTLZ6", "DTLZ7"):
        for n, m in ((5, 2), (6, 3), (7, 4), (14, 9)):
            p = [[.5] * n, [1] * n] + [[0] * n] + pts(n, 0.02, 1, k if n < 9 else 3)
            add(2 if fn < "DTLZ5" else 3, fn, n, m, p)
            if fn == "DTLZ4":
                add(2, fn, n, m, p, a=3)
    for fn, dims in (("DTLZ8", ((6, 3), (10, 3), (13, 4), (11, 5), (29, 13))), ("DTLZ9", ((5, 2), (6, 3), (10, 3), (13, 4), (29, 13)))):
        for n, m in dims:
            add(3, fn, n, m, [[1] * n, [1 / 64] * n] + pts(n, 0, 1, k) + pts(n, 0, .25, k))
            # so small that every constraint is broken, and with one objective above it
            tiny = [[r.choice([0, 0, 0, 3 * 2. ** -21, 2. ** -17]) for _ in range(n)] for _ in range(4)]
            for j in (0, n - 1):
                tiny[2 + (j > 0)][j] = 1
            add(3, fn, n, m, tiny)
    return out


def check(c, r, k):
    bins = c.build_many([("bench%d" % p, "bench.cpp", ["-DPART=%d" % p, "-DVP_CALLS"]) for p in range(PARTS)])
    sc = scenarios(r, k)
    rows = []
    for p in range(PARTS):
        rows += c.run_driver(bins["bench%d" % p], [s for q, s in sc if q == p], jobs=vp.NCPU)
    c.samples += [s for _, s in sc[:3]]
    c.cov["points"] = c.cov.get("points", 0) + sum(len(t["ev"]) for t in rows)
    c.validate("TraceBench", rows, "", {s["name"]: s for _, s in sc}, chunks=vp.NCPU)
