"""The operators that come with the genetic solvers."""
import vp

REAL = ["sdfix", "sddyn", "sfdyn", "edfix", "effix", "eddyn", "emfix", "emdyn"]
INT = ["sifix", "sidyn", "eidyn", "eifix", "sudyn", "sbfix"]
DYN = ["sddyn", "sfdyn", "eddyn", "emdyn", "sidyn", "eidyn", "sudyn"]
MAT = ["emfix", "emdyn", "eifix"]
SQUARE = ["sddyn", "edfix", "emdyn", "sifix", "eidyn", "sbfix"]


def j(v):
    return "|".join(str(int(x * 65536)) for x in v)


def one(r, i, op, t, N):
    n = 4 if t not in DYN else 2 * r.choice([1, 2, 3, 4, 33]) if t in MAT else \
        r.choice([1, 2, 3, 5, 9, 18, 60])
    s = {"name": "%s%d" % (op, i), "op": op, "type": t, "seed": r.randrange(1, 10 ** 6), "N": N, "reps": 6,
         "args": r.randrange(2), "form": "X" if t in DYN and t not in MAT and r.randrange(3) else "N",
         "cs": r.randint(1, 7), "ds": r.randint(1, 7)}
    s["p"], s["q"] = r.choice([(1, 2), (1, 4), (3, 4), (9, 10), (1, 5)])
    s["plain"] = int(r.randrange(4) == 0)
    if op == "range":
        s["p"], s["form"] = r.randrange(5), "N"
    if op in ("init", "step", "symbol"):
        s["form"] = "X" if t in DYN and t not in MAT else "N"
    if t == "sbfix":
        lo, hi = [0] * n, [1] * n
    elif t == "sudyn":
        w = r.randrange(3)
        lo = [0 if w else r.randint(0, 9) for _ in range(n)]
        hi = [255 if w == 2 else r.randint(10, 14) for _ in range(n)]
    elif t in INT:
        lo = [r.randint(-9, 0) for _ in range(n)]
        hi = [x + r.randint(1, 9) for x in lo]
    else:
        lo = [r.randint(-300, 300) / 16 for _ in range(n)]
        hi = [x + r.randint(1, 300) / 16 for x in lo]
    if t in SQUARE:
        lo, hi = [lo[0]] * n, [hi[0]] * n
    de = [r.randint(1, 60) / 16 for _ in range(n)]
    if t in SQUARE:
        de = [de[0]] * n

    def inside():
        if t in INT:
            return [r.choice([x, y, r.randint(x, y)]) for x, y in zip(lo, hi)]
        return [r.choice([x, y, x + r.randint(0, int((y - x) * 16)) / 16]) for x, y in zip(lo, hi)]
    s.update(a=j(inside()), b=j(inside()), lo=j(lo), hi=j(hi), de=j(de))
    return s


def scenarios(r, many, N):
    sc, i = [], 0
    for op, ts in (("blend", REAL), ("swap", REAL + INT), ("mix", [t for t in REAL + INT if t not in MAT]),
                   ("range", [t for t in REAL if t not in MAT]), ("init", REAL + INT), ("step", REAL + INT),
                   ("symbol", INT)):
        for t in ts:
            for k in range(many):
                sc.append(one(r, i, op, t, N if k < 3 and op in ("swap", "mix", "range", "symbol") else 0))
                i += 1
    return sc


def check(c, sc):
    exe = c.build_many([("vary", "vary.cpp", [])], alt=True)["vary"]
    rows = c.run_driver(exe, sc, jobs=vp.NCPU)
    c.samples += sc[:2]
    c.validate("TraceVary", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)
