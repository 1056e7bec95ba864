"""Floating-point numbers as template arguments."""
import os
import struct
import vp

NAMED = ["Half", "Pi", "Pi_mul_2", "Pi_mul_3", "Pi_mul_4", "Pi_mul_6", "Pi_div_2", "Pi_div_3", "Pi_div_4",
         "Pi_div_6", "Sqrt2", "one_div_Sqrt2", "E"]


def gen(r, path, divs, pows, pairs, consts):
    """template arguments must be in the program: one function per part"""
    lines = ["named<DivCode_%s>(\"%s\");" % (n, n) for n in NAMED]
    big = [0, 1, -1, 2, 7, -7, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1, 2 ** 30]
    den = [1, 2, 3, 7, 10, 2 ** 31, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 31 + 1]
    cases = [(a, b) for a in big for b in den]
    while len(cases) < divs:
        k = r.choice([4, 10, 20, 31])
        cases.append((r.randint(-2 ** k, 2 ** k - 1), r.randint(1, 2 ** r.choice([2, 8, 20, 31, 32]) - 1)))
    lines += ["div<(-2147483647-1),%du>();" % b if a == -2 ** 31 else "div<%d,%du>();" % (a, b) for a, b in cases]

    def sig():
        k = r.randint(1, 16)
        s = r.choice([r.randint(10 ** (k - 1), 10 ** k - 1), r.randint(1, 9) * 10 ** (k - 1), 10 ** k - 1])
        return r.choice([1, 1, -1]) * s
    ps = [(s, p) for s in (1, -1, 2, 18, 19, 5, 9, 10 ** 15, 10 ** 16 - 1, 0, 1919810, 114514, -123456)
          for p in (0, 1, -1, 22, 23, 255, -255)]
    while len(ps) < pows:
        ps.append((sig(), r.choice([0, r.randint(-9, 9), r.randint(-255, 255), r.randint(-30, 30)])))
    lines += ["power<%dLL,%d>();" % x for x in ps]
    for _ in range(pairs):
        s, p = sig(), r.randint(-255, 255)
        t, o = s, p
        k = r.randrange(6)
        if k < 3 and abs(s) < 10 ** 12:
            t = s * 10 ** r.randint(1, 4)
        elif k == 3:
            t = s + 1 if abs(s) < 10 ** 15 else s - 1
            t = t or 2
        elif k == 4:
            o = p - 1 if p > 0 else p + 1
        elif k == 5:
            t = -s
        lines.append("pair<%dLL,%d,%dLL,%d>();" % (s, p, t, o))
    for h in r.sample(patterns(r, "double", 64), consts):
        lines.append("constant<0x%xULL>();" % h)
    parts = [lines[i::16] for i in range(16)]
    with open(path, "w") as f:
        for i, p in enumerate(parts):
            f.write("static void gen%d(){\n%s\n}\n" % (i, "\n".join(p)))
        f.write("static void (*GEN[])()={%s};\n" % ",".join("gen%d" % i for i in range(16)))
    return len(parts)


def patterns(r, fmt, exps):
    """codes over all exponents (or a sample) and telling fractions"""
    eb, mb = (11, 52) if fmt == "double" else (8, 23)
    es = list(range(2 ** eb))
    rest = [(r.randrange(2) << (eb + mb)) | (e << mb) | m for e in es for m in (0, r.randrange(2 ** mb))]
    if exps < len(es):
        es = [0, 1, 2, 2 ** eb - 1, 2 ** eb - 2, 2 ** (eb - 1) - 1] + r.sample(es, exps)
    res = []
    for e in es:
        one = 2 ** mb
        for m in (0, 1, one - 1, one - 2, one // 2, one // 2 - 1, 1 << r.randrange(mb), r.randrange(one),
                  r.randrange(one), (one - 1) ^ (1 << r.randrange(mb))):
            res.append((r.randrange(2) << (eb + mb)) | (e << mb) | m)
    edges = [(e << mb) | m for e in (0, 1, 2 ** eb - 2, 2 ** eb - 1) for m in (0, 1, 2 ** mb - 1)]
    return res + rest + edges + [1 << (eb + mb) | x for x in edges] + [r.randrange(2 ** (1 + eb + mb)) for _ in range(50)]


def check(c, r, dexps, fexps, divs, pows, pairs, consts):
    n = gen(r, c.path("codes_gen.hpp"), divs, pows, pairs, consts)
    exe = c.build_many([("code", "code.cpp", ["-I" + c.dir, "-ftemplate-depth=2000", "-O0",
                                                   "-DVP_CONSTANTS"])])["code"]
    sc = [{"name": "gen%d" % i, "kind": "gen", "part": i} for i in range(n)]
    for fmt, k in (("double", dexps), ("float", fexps)):
        p = patterns(r, fmt, k)
        for enc in (1, 0):
            for i in range(0, len(p), 40):
                sc.append({"name": "%s%d_%d" % (fmt, enc, i), "kind": "bits", "fmt": fmt, "enc": enc,
                           "in": ",".join("%x" % x for x in p[i:i + 40])})
    rows = c.run_driver(exe, sc, jobs=vp.NCPU)
    c.samples += sc[:2] + sc[-1:]
    c.validate("TraceCode", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)
