"""Particle swarm: scenario generation and trace validation against PSO."""
import re
import vp


def opt(r, K, g, num):
    return [K, g, r.choice([0, 0, 1, 2, 3]), r.choice([0, 4, 6, 8, 12]),
            r.choice([0, 4, 8, 16, 16]) if num else r.choice([4, 16]),
            r.choice([0, 4, 8, 16, 16]) if num else r.choice([4, 16])]


def ops(r, num, kmax, gmax):
    C = lambda o: "C:" + ",".join(map(str, o))
    o = lambda: opt(r, r.randint(1, kmax), r.choice([0, 1, 2, gmax, gmax]), num)
    kind = r.randrange(6)
    a = o()
    if kind < 3:
        return ";".join([C(a), "I", "R"])
    if kind == 3:
        return ";".join([C(a), "I", "R", "R"])
    if kind == 4:
        b = o()
        b[0] = a[0]
        return ";".join([C(a), "I", "R", C(b), "R"])
    return ";".join([C(a), "I", "R", C(o()), "I", "R"])


def swarm(r, n, tag, num=0, th=1, kmax=9, gmax=6, maps=("int",), fmodes=None):
    out = []
    for i in range(n):
        out.append({"name": "%s%d" % (tag, i), "type": r.choice(["efix", "edyn", "emat", "sfix", "sdyn"]),
                    "box": r.choice(["square", "rect"]), "dir": r.choice(["less", "greater"]),
                    "init": r.choice(["own", "default"]), "seed": r.randrange(1, 10**6),
                    "num": num, "th": th, "lo": r.choice([13, 20, 30]), "hi": r.choice([9, 20, 30]),
                    "vm4": r.choice([2, 8, 40, 160]), "work": 200 if th > 1 else 0,
                    "fmode": r.choice(fmodes or ["const", "two", "coarse", "coarse", "fine"]),
                    "map": maps[i % len(maps)], "ops": ops(r, num, kmax, gmax)})
    return out


def wide(r, n, tag):
    """long undamped runs: many moves from which both random factors can be told"""
    out = swarm(r, n, tag, num=1, fmodes=["fine"])
    for s in out:
        s.update(vm4=800, ops="C:%d,%d,0,4,16,16;I;R" % (r.randint(10, 20), r.randint(8, 15)))
    return out


def binary(c):
    return c.build_many([("pso", "pso.cpp", [])], alt=True)["pso"]


def check(c, exe, sc, ids):
    groups, byname, traces = {}, {}, []
    for s in sc:
        groups.setdefault(s["th"], []).append(s)
        byname[s["name"]] = s
    for th, g in sorted(groups.items()):
        traces += c.run_driver(exe, g, env={"OMP_NUM_THREADS": str(th)},
                               jobs=max(1, vp.NCPU // th))
    ev = {}
    for t in traces:
        for e in t["ev"]:
            ev[e["k"]] = ev.get(e["k"], 0) + 1
    c.cov["events"] = ev
    if ev.get("BADARGS"):
        raise vp.Violation("user functions received other arguments than setArgs stored", {})
    c.samples += [dict(byname[t["name"]]) for t in traces[:2]]
    c.validate("TracePSO", traces,
               "CONSTANT Enforce = {%s}" % ",".join('"%s"' % i for i in ids), byname)


def enlarge(r, sc, lo=30, hi=120, dims=(1, 2, 3, 4, 7, 16)):
    """the same scenarios with more of everything: individuals, dimensions, rows"""
    out = []
    for s in sc:
        K = r.randint(lo, hi)

        def one(m):
            o = m.group(1).split(",")
            o[0], o[1] = str(K), str(min(int(o[1]), 3))
            return "C:" + ",".join(o)
        rows = r.choice([1, 2, 3]) if s["type"] == "emat" else 1
        out.append(dict(s, name="big%d" % lo + s["name"], ops=re.sub(r"C:([\d,]+)", one, s["ops"]), rows=rows,
                        dim=rows * r.choice(dims)))
    return out
