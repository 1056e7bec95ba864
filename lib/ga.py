"""Genetic solvers: scenario generation and trace validation against GACore."""
import random
import re
import vp

METHODS = ["RouletteWheel", "Tournament", "Truncation", "MonteCarlo", "Probability", "LinearRank",
           "ExponentialRank", "Boltzmann", "StochasticUniversal", "EliteReserved"]
MAPS = ["int", "neg", "tiny", "huge", "e3", "inf", "pinf"]


def opt(r, kmin=1, kmax=9, gmax=5):
    K = r.randint(kmin, kmax)
    return [K, r.choice([0, 1, 2, 3, gmax]), r.choice([0, 0, 1, 2, 3]),
            r.choice([0, 30, 50, 80, 100]), r.choice([0, 30, 50, 100])]


def ops(r, kmin=1, kmax=9, gmax=5):
    C = lambda o: "C:" + ",".join(map(str, o))
    o = opt(r, kmin, kmax, gmax)
    kind = r.randrange(8)
    if kind < 4:
        return ";".join([C(o), "I", "R"])
    if kind == 4:
        return ";".join([C(o), "I", "R", "R"])
    if kind == 5:
        o2 = opt(r, kmin, kmax, gmax)
        return ";".join([C(o), "I", "R", C(o2), "R"])
    if kind == 6:
        o2 = opt(r, kmin, kmax, gmax)
        return ";".join([C(o), "I", "R", C(o2), "I", "R"])
    return ";".join([C(o), "I", C([max(kmin, o[0] // 2)] + o[1:]), "R"])


def soga(r, n, tag, maps=("int",), th=1, methods=METHODS, variants=True, kmax=9, gmax=5):
    out = []
    for i in range(n):
        m = methods[i % len(methods)]
        var = r.choice(["static", "runtime"]) if variants else "static"
        if m == "EliteReserved" and variants:
            var = r.choice(["static", "runtime", "args", "ct"])
        ts = r.choice([2, 3])
        kmin = ts + 1 if m == "Tournament" else 1
        s = {"name": "%s%d" % (tag, i), "method": m, "dir": r.choice(["less", "greater"]),
             "var": var, "seed": r.randrange(1, 10**6), "D": r.choice([2, 3, 4, 6, 9, 20]),
             "M": 1, "map": maps[i % len(maps)] if len(maps) > 1 else maps[0],
             "vmode": r.choice(["rnd", "rnd", "rnd", "near", "same"]), "th": th,
             "tsize": ts, "elite": r.choice([1, 2, 3]), "custom": r.randrange(2),
             "work": 200 if th > 1 else 0, "ops": ops(r, kmin, max(kmax, kmin), gmax)}
        if s["map"] in ("inf", "pinf") and s["D"] < 3:
            s["D"] = 3
        out.append(s)
    return out


def nsga(r, n, tag, M, kinds=("nsga2", "nsga3"), th=1, D=None, kmax=9, gmax=5, vmodes=None,
         kmin=1):
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        d = "less" if k == "nsga3" else r.choice(["less", "greater"])
        s = {"name": "%s%d" % (tag, i), "kind": k, "dir": d,
             "var": r.choice(["static", "static", "norec"]) if k == "nsga2" else
             r.choice(["static", "double", "norec"]),
             "seed": r.randrange(1, 10**6), "M": M, "D": D or r.choice([2, 3, 5, 9, 30]),
             "map": "int", "vmode": r.choice(vmodes or ["rnd", "rnd", "near", "same"]), "th": th,
             "work": 200 if th > 1 else 0,
             "prec": r.choice([2, 3, 4]), "prec2": r.choice([2, 3, 4]),
             "ops": ops(r, kmin, kmax, gmax)}
        if s["var"] == "norec" and k == "nsga2":
            s["dir"] = "less"
        out.append(s)
    return out


def moved(r, sc, lo, hi, same=False):
    """the objectives of other size and sign: (value + off) * 2^ex"""
    for s in sc:
        if r.randrange(2):
            e = r.randint(lo, hi)
            s["ex"] = ",".join(str(e if same else r.choice([lo, hi, 0, r.randint(lo, hi)])) for _ in range(s["M"]))
            s["off"] = ",".join(str(-r.choice([0, s["D"], s["D"] // 2, 3 * s["D"]])) for _ in range(s["M"]))
    return sc


def niche(r, n, tag, M, kmax):
    """NSGA3 with values small enough for exact 32-bit arithmetic in TLC"""
    out = []
    for s in nsga(r, n, tag, M, kinds=("nsga3",), kmax=kmax, gmax=4, kmin=2 if kmax > 3 else 1,
                  vmodes=["rnd", "rnd", "rnd", "near"]):
        s["D"] = r.choice([2, 4, 9, 25, 45]) if M == 2 else r.choice([2, 3, 5, 8, 11])
        if kmax <= 3:
            s["prec"] = r.choice([1, 2, 3, 4, 5, 6, 7] if M < 5 else [1, 2, 3, 4])
            s["prec2"] = r.choice([2, 3, 4, 5, 6] if M < 5 else [2, 3])
            if s["var"] == "double":
                s["prec"] = max(2, s["prec"])
        if r.randrange(3) == 0:
            parts = s["ops"].split(";")
            k = r.randrange(len(parts))
            parts.insert(k + 1 if parts[k][0] == "R" else k, "P:%d,%d" % (r.randint(2, 4), r.randint(2, 4)))
            # the specification learns of it with the next C
            i = [j for j, x in enumerate(parts) if x[0] == "P"][0]
            c0 = [x for x in parts[:i] if x[0] == "C"]
            if c0 and not (i + 1 < len(parts) and parts[i + 1][0] == "C"):
                parts.insert(i + 1, c0[-1])
            s["ops"] = ";".join(parts)
        out.append(s)
    return out


def binaries(c, parts):
    """parts: list of "soga", 2, 3, 4, 0 (number of objectives; 0 = runtime)"""
    jobs = []
    for p in parts:
        if p == "soga":
            jobs.append(("ga_soga", "ga.cpp", ["-DPART_SOGA"]))
        else:
            jobs.append(("ga_nsga%d" % p, "ga.cpp", ["-DPART_NSGA", "-DVP_PF", "-DVP_M=%d" % p]))
    return c.build_many(jobs, alt=True)


def record(c, bins, plan):
    """plan: list of (binary, scenarios).  One process per thread number."""
    traces, byname = [], {}
    for b, sc in plan:
        groups = {}
        for s in sc:
            groups.setdefault(s["th"], []).append(s)
            byname[s["name"]] = s
        for th, g in sorted(groups.items()):
            traces += c.run_driver(bins[b], g, env={"OMP_NUM_THREADS": str(th)},
                                   jobs=max(1, vp.NCPU // th))
    return traces, byname


def validate(c, traces, byname, ids):
    ev = {}
    for t in traces:
        for e in t["ev"]:
            ev[e["k"]] = ev.get(e["k"], 0) + 1
    c.cov["events"] = ev
    if ev.get("BADARGS"):
        raise vp.Violation("user functions received other arguments than setArgs stored", {})
    c.samples += [dict(byname[t["name"]]) for t in traces[:2]]
    consts = "CONSTANT Enforce = {%s}" % ",".join('"%s"' % i for i in ids)
    c.validate("TraceGA", traces, consts, byname)


def check(c, bins, plan, ids):
    traces, byname = record(c, bins, plan)
    validate(c, traces, byname, ids)


def enlarge(r, sc, lo=40, hi=200, D=(50, 200, 1000)):
    """the same scenarios with many individuals"""
    out = []
    for s in sc:
        K = [None]

        def one(m):
            o = m.group(1).split(",")
            K[0] = r.randint(lo, hi) if K[0] is None or r.randrange(2) else max(lo // 2, K[0] // 2)
            o[0], o[1] = str(K[0]), str(min(int(o[1]), 2))
            return "C:" + ",".join(o)
        s = dict(s, name="big" + s["name"], ops=re.sub(r"C:([\d,]+)", one, s["ops"]))
        if D and s["map"] == "int":
            s["D"] = r.choice(D)
        if "tsize" in s:
            s["tsize"] = r.choice([2, 3, 5, 8])
            s["elite"] = r.choice([1, 2, 5, 20])
        out.append(s)
    return out
