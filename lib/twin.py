"""Same random stream, different environment: lockstep comparison by TLC."""
import vp

ENVS = (("again", 1, False, True), ("two", 2, False, False), ("three", 3, False, False),
        ("eight", 8, False, False), ("serial", 1, True, False))


def jobs(names):
    """names: (name, source, flags); each is also built without OpenMP"""
    out = []
    for n, s, f in names:
        out.append((n, s, f))
        out.append((n + "_s", s, list(f) + ["-fno-openmp", "-std=c++20", "-DHEU_DO_OUTPUT"]))
    return out


def check(c, bins, plan):
    """plan: list of (binary, scenarios), scenarios without a thread number"""
    pairs, byname, ev = [], {}, {}

    def go(b, sc, th, serial, rev):
        part = [dict(s, th=th, work=0 if th == 1 else 60) for s in sc]
        if rev:
            part.reverse()
        rows = c.run_driver(bins[b + "_s" if serial else b], part,
                            env={"OMP_NUM_THREADS": str(th)}, jobs=max(1, vp.NCPU // th))
        return {r["name"]: r["ev"] for r in rows}

    for b, sc in plan:
        base = go(b, sc, 1, False, False)
        for t in base.values():
            for e in t:
                ev[e["k"]] = ev.get(e["k"], 0) + 1
        for name, th, serial, rev in ENVS:
            other = go(b, sc, th, serial, rev)
            for s in sc:
                n = s["name"] + "~" + name
                byname[n] = dict(s, binary=b, environment=name)
                pairs.append({"name": n, "a": base[s["name"]], "b": other[s["name"]]})
    c.cov["events"] = ev
    c.cov["environments"] = [e[0] for e in ENVS]
    c.samples += [dict(byname[p["name"]]) for p in pairs[:2]]
    c.validate("Twin", pairs, "", byname)
