"""Atomic orbital search: scenario generation and trace validation."""
import re
import vp

TYPES = ["efix", "edyn", "emat", "sfix", "sdyn"]


def opt(r, nmax, g):
    n = r.randint(1, nmax)
    return [n, r.choice([0, 1, 2, g, g]), r.choice([1, 2, 3, 50, 50]), r.randint(1, min(n, 6)),
            r.choice([0, 1, 2, 4, 4])]


def ops(r, nmax, gmax):
    C = lambda o: "C:" + ",".join(map(str, o))
    a = opt(r, nmax, gmax)
    kind = r.randrange(6)
    if kind < 3:
        return ";".join([C(a), "I", "R"])
    if kind == 3:
        return ";".join([C(a), "I", "R", "R"])
    if kind == 4:   # go on with a larger limit, possibly fewer electrons
        b = list(a)
        b[1] += r.randint(0, 4)
        b[2] = 60
        b[0] = r.randint(max(1, a[0] // 2), a[0])
        b[3] = min(b[3], b[0])
        return ";".join([C(a), "I", "R", C(b), "R"])
    return ";".join([C(a), "I", "R", C(opt(r, nmax, gmax)), "I", "R"])


def atoms(r, n, tag, th=1, nmax=9, gmax=6, boxes=("square", "rect", "inf"), fmodes=None):
    out = []
    for i in range(n):
        out.append({"name": "%s%d" % (tag, i), "type": TYPES[i % 5], "box": r.choice(boxes),
                    "dir": r.choice(["less", "greater"]), "init": r.choice(["own", "default"]),
                    "seed": r.randrange(1, 10**6), "th": th, "lo": r.choice([13, 20, 30]),
                    "hi": r.choice([9, 20, 30]), "dl4": r.choice([1, 4, 20]),
                    "work": 200 if th > 1 else 0,
                    "fmode": r.choice(fmodes or ["const", "two", "coarse", "coarse", "neg", "fine"]),
                    "ops": ops(r, nmax, gmax)})
        if r.randrange(3) == 0:                 # other energies: (rank + off) * 2^ex
            out[-1].update(off=r.choice([0, -300, 2 ** 31, -2 ** 31]), ex=r.choice([0, -60, -20, 20, 300]))
        if TYPES[i % 5] == "emat" and i % 2:    # a real matrix
            rows = r.choice([2, 3])
            out[-1].update(rows=rows, dim=rows * r.choice([2, 3, 5]))
    return out


def binaries(c):
    return c.build_many([("aos" + t, "aos.cpp", ["-DPART=%d" % i]) for i, t in enumerate(TYPES)], alt=True)


def check(c, bins, sc, ids):
    groups, byname, traces = {}, {}, []
    for s in sc:
        groups.setdefault((s["th"], s["type"]), []).append(s)
        byname[s["name"]] = s
    for (th, t), g in sorted(groups.items()):
        traces += c.run_driver(bins["aos" + t], g, env={"OMP_NUM_THREADS": str(th)},
                               jobs=max(1, vp.NCPU // th))
    ev = {}
    for t in traces:
        for e in t["ev"]:
            ev[e["k"]] = ev.get(e["k"], 0) + 1
    c.cov["events"] = ev
    if ev.get("BADARGS"):
        raise vp.Violation("user functions received other arguments than setArg stored", {})
    c.samples += [dict(byname[t["name"]]) for t in traces[:2]]
    c.validate("TraceAOS", traces,
               "CONSTANT Enforce = {%s}" % ",".join('"%s"' % i for i in ids), byname)


def enlarge(r, sc, lo=30, hi=120):
    """the same scenarios with more of everything: individuals, dimensions, rows"""
    out = []
    for s in sc:
        K = r.randint(lo, hi)

        def one(m):
            o = m.group(1).split(",")
            o[0], o[1] = str(K), str(min(int(o[1]), 3))
            o[3] = str(min(K, r.choice([1, 2, 3, 5, 6, 6, 12, 20, 30])))
            return "C:" + ",".join(o)
        rows = r.choice([1, 2, 3]) if s["type"] == "emat" else 1
        out.append(dict(s, name="big" + s["name"], ops=re.sub(r"C:([\d,]+)", one, s["ops"]), rows=rows,
                        dim=rows * r.choice([1, 2, 3, 4, 7, 12, 25])))
    return out
