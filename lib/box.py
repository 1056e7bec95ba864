"""Boxes: behaviours generated from Box by TLC, replayed into the real boxes."""
import vp

PARTS = [
    ["cont/sq/double/efix", "cont/rect/double/edyn", "cont/rect/float/sfix", "cont/sq/double/sdyn",
     "cont/rect/double/emat", "cont/sq/float/ematfix", "cont/sq/double/emat", "cont/rect/float/sdyn",
     "cont/rect/double/sfix:20", "cont/sq/float/efix:20", "cont/rect/float/ematfix:20"],
    ["disc/sq/int32/sfix", "disc/rect/int32/sdyn", "disc/sq/int32/edyn", "disc/rect/int32/ematfix",
     "disc/sq/uint8/sdyn", "disc/rect/int8/sfix", "disc/rect/uint16/emat", "disc/sq/int64/efix",
     "disc/rect/uint32/edyn", "disc/sq/double/sdyn", "disc/rect/int32/efix:20", "disc/sq/int16/sfix:20"],
    ["bool/sq/bool/sfix", "bool/sq/bool/efix", "bool/sq/bool/ematfix",
     "bool/sq/bool/sfix:20", "bool/sq/bool/ematfix:20", "gauss/sq/float/efix:20", "gauss/sq/double/edyn",
     "gauss/sq/float/sdyn", "gauss/sq/double/sfix", "gauss/sq/double/emat", "fdisc/sq/int32/sfix",
     "fdisc/sq/uint8/efix", "fdisc/sq/int8/ematfix", "fdisc/sq/double/sfix", "fcont/sq/double/sfix",
     "fcont/sq/float/ematfix"],
    ["pso/sq/double/efix", "pso/rect/double/edyn", "pso/sq/double/sdyn", "pso/rect/float/sfix",
     "pso/rect/double/emat", "pso/sq/double/emat", "pso/rect/double/sdyn", "pso/sq/float/ematfix",
     "pso/rect/double/erow", "cont/rect/double/erow", "pso/rect/double/sfix:20", "pso/sq/float/efix:20"],
    ["fcont/sq/double/sfix20", "fdisc/sq/double/ematfix20"]]
FIXED = {"fdisc/sq/int32/sfix": ("-3", "12", "0"), "fdisc/sq/uint8/efix": ("0", "255", "0"),
         "fdisc/sq/int8/ematfix": ("-128", "127", "0"), "fdisc/sq/double/sfix": ("-1.5", "6.5", "0"),
         "fcont/sq/double/sfix": ("-1.5", "6.5", "0.25"), "fcont/sq/float/ematfix": ("-2", "0.5", "0.5"),
         "fcont/sq/double/sfix20": ("-1.5", "6.5", "0.25"), "fdisc/sq/double/ematfix20": ("-1.5", "6.5", "0")}
LIMITS = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1),
          "uint32": (0, 2**32 - 1), "int64": (-2**45, 2**45 - 1)}


def traits(t):
    k, sh, sc, cont = t.split("/")
    cont, size = (cont.split(":") + ["4"])[:2]
    return {"kind": k.lstrip("f") if k in ("fdisc", "fcont") else k, "square": sh == "sq", "scalar": sc,
            "dyn": cont in ("edyn", "sdyn", "emat", "erow"), "mat": "mat" in cont, "fixed": t in FIXED,
            "size": int(size)}


def group(x):
    return x["kind"], x["dyn"], x["square"], 0 if x["dyn"] else x["size"]


def scale(r, t):
    """seven ascending numbers, and three steps"""
    sc = t["scalar"]
    if sc == "bool":
        return ["0", "1", "0", "1", "0", "1", "0"], []
    if sc in LIMITS:
        lo, hi = LIMITS[sc]
        w = r.randrange(4)
        if w == 0:
            p = sorted(r.sample(range(lo, min(hi, lo + 40)), 3)) + [hi - 1, hi]
            p[0] = lo
        elif w == 1:
            p = [lo, lo + 1] + sorted(r.sample(range(lo + 2, hi - 1), 1)) + [hi - 1, hi]
        else:
            m = r.randint(max(lo, -60), 60)
            p = sorted(r.sample(range(m, m + 14), 5))
            p = [min(hi, max(lo, x)) for x in p]
            if len(set(p)) < 5:
                p = [0, 1, 2, 3, 4]
        p = [max(lo, p[0] - r.choice([0, 1, 1000]))] + p + [min(hi, p[-1] + r.choice([0, 1, 1000]))]
        return [str(x) for x in p], []
    big = 2 ** 20 if sc == "double" and r.randrange(3) == 0 else 16
    p = sorted(r.sample(range(-big, big), 7))
    q = [str(x / 16.0) for x in p]
    if r.randrange(5) == 0:
        q[0], q[6] = "-inf", "inf"
    return q, [str(x / 16.0) for x in sorted(r.sample(range(1, 60), 3))]


def convert(r, b, t):
    q, d = scale(r, t)
    if t["fixed"]:
        lo, hi, _ = FIXED[t["name"]]
        cut = (lambda x: str(max(LIMITS[t["scalar"]][0], min(LIMITS[t["scalar"]][1], x)))) \
            if t["scalar"] in LIMITS else str
        conv = int if t["scalar"] in LIMITS else float
        lo, hi = conv(lo), conv(hi)
        q = [cut(lo - 1), str(lo), cut(lo + 1), cut(lo + (hi - lo) // 2), str(hi - 1), str(hi), cut(hi + 1)]
    out = []
    for o in b["h"]:
        if o[0] in ("range", "delta") and t["fixed"]:
            continue
        if o[0] == "range":
            out.append("range,%s,%s" % ("|".join(q[x] for x in o[1]), "|".join(q[x] for x in o[2])))
        elif o[0] == "put":
            out.append("put," + "|".join(q[x] for x in o[1]))
        elif o[0] == "delta":
            out.append("delta," + "|".join(d[x - 1] for x in o[1]))
        else:
            out.append(",".join(map(str, o)))
    return ";".join(out)


def laws(r, N):
    out = []
    for t in sum(PARTS, []):
        x = dict(traits(t), name=t)
        if x["kind"] == "pso":
            continue
        n, pre, put = x["size"], [], []
        sc = x["scalar"]
        if x["dyn"]:
            rc = r.choice([(2, 3), (3, 2), (2, 2), (3, 6)]) if x["mat"] else (r.choice([1, 2, 3, 5, 13]), 1)
            n = rc[0] * rc[1]
            pre.append("dims,%d,%d" % rc)
        cases = []
        if x["kind"] == "bool":
            cases.append(([], ["0"] * n, None))
        elif x["kind"] == "gauss":
            cases.append((["delta," + "|".join(["0.5"] * n)], ["1"] * n, None))
        elif x["fixed"]:
            lo, hi, de = FIXED[t]
            if x["kind"] == "cont":
                mid = str((float(lo) + float(hi)) / 2)
            else:
                mid = str(int(float(lo)) + 4)
            cases += [([], [mid] * n, None), ([], [r.choice([lo, hi]) for _ in range(n)], None)]
        elif sc in LIMITS and x["kind"] == "disc":
            L, H = LIMITS[sc]
            for rg in ((L, H), (L, L + r.randint(1, 14)), (H - r.randint(1, 14), H),
                       (max(L, -7), 8 + 16 * r.randint(1, 6) + (0 if L else 8) - 1 - (0 if L else 0))):
                lo, hi = [rg[0]] * n, [rg[1]] * n
                if not x["square"]:
                    for i in range(1, n):
                        if r.randrange(2):
                            lo[i], hi[i] = max(L, -3), 10
                w = [h - l + 1 for l, h in zip(lo, hi)]
                for i in range(n):  # a wide range has a multiple of 16 values
                    if 16 < w[i] < 2 ** 20 and w[i] % 16:
                        hi[i] -= w[i] % 16
                at = [r.choice([l, h, (l + h) // 2]) for l, h in zip(lo, hi)]
                cases.append((["range,%s,%s" % ("|".join(map(str, lo)), "|".join(map(str, hi)))],
                              [str(a) for a in at], None))
        else:
            lo = [r.randint(-9, 0)] * n if x["square"] else [r.randint(-9, 0) for _ in range(n)]
            hi = [r.randint(8, 12)] * n if x["square"] else [r.randint(8, 12) for _ in range(n)]
            de = [2] * n if x["square"] else [r.randint(1, 3) for _ in range(n)]
            at = [r.choice([l, h, (l + h) // 2]) for l, h in zip(lo, hi)]
            ops = ["range,%s,%s" % ("|".join(map(str, lo)), "|".join(map(str, hi)))]
            if x["kind"] == "cont":
                ops.append("delta," + "|".join(map(str, de)))
            cases.append((ops, [str(a) for a in at], None))
        for ops, at, _ in cases:
            out.append(scen("law%d" % len(out), t, ";".join(
                pre + ops + (["init"] if x["kind"] == "gauss" else []) +
                ["put," + "|".join(at), "law,init,%d" % N, "law,mutate,%d" % N]), r))
    return out


def scen(name, t, ops, r):
    lo, hi, de = FIXED.get(t, ("0", "1", "0"))
    return {"name": name, "type": t, "kind": traits(t)["kind"], "ops": ops, "lo": lo, "hi": hi, "de": de,
            "mu": r.choice(["0", "1.5", "-20"]), "sigma": r.choice(["0.5", "1", "3"]), "seed": r.randrange(1, 10 ** 6)}


def cfg(**k):
    return "SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS TypeOK Kept Emit\nPROPERTIES MutateInside\n" \
        "CHECK_DEADLOCK FALSE\n" % " ".join("%s = %s" % kv for kv in k.items())


def check(c, r, depth, share, sims, long, N):
    bins = c.build_many([("box%d" % i, "box.cpp", ["-DPART=%d" % i] + (["-std=c++20"] if i == 4 else []))
                         for i in range(len(PARTS))])
    ex = c.generate("MCBox", cfg(Depth=depth, Rich="FALSE"), "box")
    ex = [b for b in ex if b["c"]["dyn"]]
    seen, uniq = set(), []
    for b in ex:
        k = str(b)
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    uniq.sort(key=str)
    r.shuffle(uniq)
    rich = c.generate("MCBox", cfg(Depth=long, Rich="TRUE").replace("PROPERTIES MutateInside\n", ""), "box_sim",
                      simulate=sims, depth=long)
    sc = {t: [] for t in sum(PARTS, [])}
    for pool, mul in ((uniq[:int(len(uniq) * share)], 1), (rich, 2)):
        groups = {}
        for b in pool:
            groups.setdefault(group(b["c"]), []).append(b)
        for g, bs in groups.items():
            ts = [t for t in sc if group(traits(t)) == g]
            for i, b in enumerate(bs * mul):
                if ts:
                    t = ts[i % len(ts)]
                    sc[t].append(scen("%s:%d" % (t, len(sc[t])), t, convert(r, b, dict(traits(t), name=t)), r))
    for s in laws(r, N):
        sc[s["type"]].append(s)
    rows, flat = [], []
    for i, ts in enumerate(PARTS):
        part = [s for t in ts for s in sc[t] if s["ops"]]
        flat += part
        rows += c.run_driver(bins["box%d" % i], part, jobs=vp.NCPU)
    c.samples += flat[:2]
    c.cov["box_types"] = len(sc)
    c.validate("TraceBox", rows, "", {s["name"]: s for s in flat}, chunks=vp.NCPU)
