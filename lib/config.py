"""The configuration of the solvers: histories chosen by TLC from Config,
replayed into the real solvers."""
import vp

PARTS = 5


def part(kind):
    return 0 if kind <= 5 else 1 if kind <= 9 else 2 if kind <= 17 else 3 if kind <= 22 else 4


def text(ops):
    def one(o):
        if o[0] == "set":
            return "set,%d,%s,%s,%d" % (o[1], ":".join(o[2]), ":".join(map(str, o[3])), o[4])
        return ",".join(map(str, o))
    return ";".join(one(o) for o in ops)


def check(c, r, sims, depth):
    bins = c.build_many([("config%d" % p, "config.cpp", ["-DPART=%d" % p]) for p in range(PARTS)])
    hs = c.generate("MCConfig", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nINVARIANTS TypeOK Emit\n"
                    "CHECK_DEADLOCK FALSE\n" % depth, "config", simulate=sims, depth=depth)
    sc = [(part(h["kind"]), {"name": "c%d" % i, "kind": h["kind"], "seed": r.randint(1, 10 ** 6), "ops": text(h["ops"])})
          for i, h in enumerate(hs)]
    kinds = {h["kind"] for h in hs}
    if len(kinds) < 27:
        raise vp.Infra("only %d kinds of solvers generated" % len(kinds))
    rows = []
    for p in range(PARTS):
        rows += c.run_driver(bins["config%d" % p], [s for q, s in sc if q == p],
                             env={"OMP_NUM_THREADS": "1"}, jobs=vp.NCPU)
    c.samples += [s for _, s in sc[:3]]
    ev = [e for t in rows for e in t["ev"]]
    c.cov["operations"] = c.cov.get("operations", 0) + len(ev)
    c.cov["initialisations"] = c.cov.get("initialisations", 0) + sum(e["o"][0] == "init" for e in ev)
    c.cov["runs"] = c.cov.get("runs", 0) + sum(e["o"][0] == "run" for e in ev)
    c.validate("TraceConfig", rows, "", {s["name"]: s for _, s in sc}, chunks=vp.NCPU)
