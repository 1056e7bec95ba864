"""Random steps: outcomes counted on the real code, their likelihood computed
by TLC from the specification."""
import vp

SETS = ["RouletteWheel", "Probability", "LinearRank", "ExponentialRank", "Boltzmann", "MonteCarlo",
        "EliteReserved"]


def selection(r, rep, N):
    out = []
    for m in (SETS + ["Tournament", "StochasticUniversal"]) * rep:
        nn = r.randint(4, 6)
        K = r.randint(1, 3)
        if m == "Tournament":
            K = r.randint(4, nn - 1) if nn > 4 else 3
        top = 8 if m == "Boltzmann" else 9
        f = [r.randint(0, top) for _ in range(nn)]
        a = b = 0
        if m in ("LinearRank", "ExponentialRank", "EliteReserved", "Tournament"):
            f = r.sample(range(10), nn)
        if m == "Probability":
            f = [r.randint(0, 4) for _ in range(nn)]
            K = r.randint(1, 2)
            if nn == 6:
                f[5] = f[0]
        if m in ("RouletteWheel", "Probability", "MonteCarlo", "StochasticUniversal") and r.randrange(4) == 0:
            f = [3] * nn
        if m == "LinearRank":
            a, b = r.choice([(10, 90), (20, 80), (0, 100)])
        if m == "ExponentialRank":
            a = r.choice([80, 50, 25])
        if m == "Boltzmann":                # the strength made by default, too
            b = r.choice([0, 1])
        if m == "EliteReserved":
            a = r.choice([1, 2])
            d = r.choice(["less", "greater"])
            while r.randrange(3):  # ties, but not for the last elite place
                f = [r.randint(0, 3) for _ in range(nn)]
                s = sorted(f, reverse=d == "greater")
                e = min(a, K)
                if e >= nn or s[e - 1] != s[e]:
                    break
            else:
                f = r.sample(range(10), nn)
        if m == "Tournament":
            a = r.choice([2, 3]) if K > 3 else 2
        if m != "EliteReserved":
            d = r.choice(["less", "greater"])
        if m == "StochasticUniversal":
            while True:
                w = max(f) if d == "less" else min(f)
                s = [abs(x - w) for x in f]
                if max(s) * K <= sum(s):
                    break
                f = [r.randint(0, top) for _ in range(nn)]
        if m == "Probability":  # 32-bit weights, and not all of the weight on one
            w = max(f) if d == "less" else min(f)
            s = [abs(x - w) for x in f]
            if sum(s) and (max(x ** K * (sum(s) - x) ** (nn - K) for x in s) > 60000):
                f = list(range(nn)) if nn < 6 else [0, 1, 1, 0, 2, 1]
                K = 2
        out.append({"name": "%s%d" % (m, len(out)), "kind": "select", "method": m, "dir": d, "K": K, "a": a,
                    "b": b, "f": ",".join(map(str, f)), "N": N, "seed": r.randrange(1, 10 ** 6)})
    # all the weight on one individual, and too few individuals of any weight
    for m, f, K in (("Probability", "0,0,0,5", 2), ("Probability", "5,5,5,5,1", 2), ("RouletteWheel", "0,0,0,5", 3),
                    ("RouletteWheel", "0,0,0,0", 2), ("EliteReserved", "9,0,0,0", 2), ("Probability", "4,4,4,4", 2),
                    ("EliteReserved", "9,8,0,0,0", 3), ("StochasticUniversal", "2,2,2,2", 2)):
        for d in ("less", "greater"):
            g = f if d == "greater" else ",".join(str(10 - int(x)) for x in f.split(","))
            out.append({"name": "edge%d" % len(out), "kind": "select", "method": m, "dir": d, "K": K, "a": 1, "b": 0,
                        "f": g, "N": N, "seed": r.randrange(1, 10 ** 6)})
    return out


def crowds(r, rep, N):
    """many equal individuals: everybody has the same chance"""
    out = []
    for m in [x for x in SETS if x not in ("LinearRank", "ExponentialRank", "EliteReserved")] * rep + \
            ["StochasticUniversal"] * rep:
        nn = (40, 700)[len(out) // 5 % 2]
        out.append({"name": "crowd%s%d" % (m, len(out)), "kind": "crowd", "method": m,
                    "dir": r.choice(["less", "greater"]), "K": r.choice([nn // 3, nn // 2, nn - 3]), "a": 0, "b": 0,
                    "f": ",".join(["5"] * nn), "N": N, "seed": r.randrange(1, 10 ** 6)})
    for i in range(4 * rep):
        nn = (30, 60, 100, 120)[i % 4]
        f = ["5"] * nn if i // 4 % 2 else [str(v) for v in r.sample(range(200), nn)]
        out.append({"name": "play%d" % len(out), "kind": "crowd", "method": "Tournament",
                    "dir": r.choice(["less", "greater"]), "K": r.choice([10, nn // 3, nn // 2, nn - 3]),
                    "a": r.choice([2, 3]), "b": 0, "f": ",".join(f), "N": N, "seed": r.randrange(1, 10 ** 6)})
    return out


def variation(r, cases, N):
    return [{"name": "v%d" % i, "kind": "vary", "K": r.randint(1, 6), "pc": r.choice([0, 10, 30, 50, 80, 100]),
             "pm": r.choice([0, 5, 20, 50, 90, 100]), "N": N, "f": "1", "seed": r.randrange(1, 10 ** 6)}
            for i in range(cases)]


def many(r, cases, N):
    """the same in populations of real size"""
    return [{"name": "m%d" % i, "kind": "many", "K": r.choice([40, 65, 100, 129, 200, 333]),
             "pc": r.choice([0, 10, 30, 50, 80, 100]), "pm": r.choice([0, 5, 20, 50, 90, 100]), "N": N, "f": "1",
             "seed": r.randrange(1, 10 ** 6)} for i in range(cases)]


def check(c, exe, sc):
    rows = c.run_driver(exe, sc, env={"OMP_NUM_THREADS": "1"}, jobs=vp.NCPU)
    c.samples += sc[:2]
    c.validate("TraceLaw", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)


def factors(r, kind, rep, N):
    out = []
    for _ in range(rep):
        for t in ("efix", "edyn", "emat", "sfix", "sdyn"):
            for b in ("square", "rect") + (("inf",) if kind == "aos" else ()):
                out.append({"name": "%s%d" % (kind, len(out)), "kind": kind, "type": t, "box": b,
                            "dir": r.choice(["less", "greater"]), "K": r.choice([20, 41, 100]), "N": N,
                            "cP": r.choice([4, 5, 8]), "cG": r.choice([3, 4, 8]), "rate": r.choice([10, 30, 50, 80]),
                            "layers": r.choice([2, 3, 4, 5, 6, 12, 17, 24]), "seed": r.randrange(1, 10 ** 6)})
    return out


def check_factors(c, bins, sc):
    rows = []
    for i, ts in enumerate((("efix", "edyn", "emat"), ("sfix", "sdyn"))):
        rows += c.run_driver(bins["swarmlaw%d" % i], [s for s in sc if s["type"] in ts],
                             env={"OMP_NUM_THREADS": "1"}, jobs=vp.NCPU)
    c.samples += sc[:2]
    c.validate("TraceLaw", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)
