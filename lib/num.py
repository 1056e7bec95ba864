"""The small helpers."""
import vp


def check(c, r, cases, rand, N):
    exe = c.build_many([("num", "num.cpp", [])])["num"]
    sc = [{"name": "comb%d" % t, "kind": "comb", "t": t} for t in range(5)]
    for kind, k in (("ext", cases), ("dom", cases), ("chaos", cases), ("misc", 4), ("rand", rand)):
        sc += [{"name": "%s%d" % (kind, i), "kind": kind, "seed": r.randrange(1, 10 ** 6), "N": N} for i in range(k)]
    sc += [{"name": "edge%d" % i, "kind": "edge", "seed": r.randrange(1, 10 ** 6), "draws": 50000000}
           for i in range(8)]
    rows = c.run_driver(exe, sc, jobs=vp.NCPU)
    c.samples += sc[1:4]
    c.validate("TraceNum", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)
