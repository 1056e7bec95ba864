"""Containers: behaviours generated from a specification by TLC, replayed into
the real classes, and what was observed checked against the specification."""
import vp

BITS = [(1, 64), (3, 64), (7, 64), (8, 64), (13, 64), (32, 64), (33, 64), (63, 64), (64, 64), (5, 32),
        (17, 32), (31, 32), (32, 32), (3, 16), (15, 16), (3, 8), (7, 8), (8, 8)]


def cfg(**k):
    return "SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n" % \
        " ".join("%s = %s" % kv for kv in k.items())


def hexv(x):
    return "%x" % sum(v << (16 * i) for i, v in enumerate(x))


def bits_ops(h):
    return ";".join(",".join(hexv(x) if isinstance(x, list) else str(x) for x in o) for o in h)


def bits(c, r, exhaustive, share, sims, depth):
    exe = c.build_many([("bits", "bits.cpp", ["-fsanitize=address,undefined",
                                              "-fno-sanitize-recover=undefined"])])["bits"]
    sc = []
    if exhaustive:
        hs = c.generate("MCBits", cfg(R=2, Sizes="{0,2,3}", Depth=exhaustive, Rich="FALSE"), "bits")
        hs.sort(key=str)
        r.shuffle(hs)
        hs = hs[:int(len(hs) * share)]
        for i, h in enumerate(hs):
            b, bb = BITS[i % len(BITS)]
            sc.append({"name": "e%d" % i, "bits": b, "bb": bb, "regs": 2, "ops": bits_ops(h)})
    hs = c.generate("MCBits", cfg(R=3, Sizes="{0,1,4,5,9,10,22,130}", Depth=depth, Rich="TRUE"),
                    "bits_sim", simulate=sims, depth=depth)
    for i, h in enumerate(hs):
        b, bb = BITS[i % len(BITS)]
        sc.append({"name": "s%d" % i, "bits": b, "bb": bb, "regs": 3, "ops": bits_ops(h)})
    r.shuffle(sc)
    rows = c.run_driver(exe, sc, jobs=vp.NCPU)
    c.samples += sc[:2]
    c.validate("TraceBits", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)


TYPES = ("double", "int", "byte", "string", "tracked")


def mats(c, r, exhaustive, share, sims, depth):
    exe = c.build_many([("mat", "mat.cpp", ["-fsanitize=address,undefined",
                                            "-fno-sanitize-recover=undefined",
                                            # memcpy(null, null, 0) for an empty matrix harms nobody
                                            "-fno-sanitize=nonnull-attribute"])])["mat"]
    hs = c.generate("MCMat", cfg(Depth=exhaustive, Rich="FALSE"), "mat")
    hs.sort(key=str)
    r.shuffle(hs)
    hs = hs[:int(len(hs) * share)]
    hs += c.generate("MCMat", cfg(Depth=depth, Rich="TRUE"), "mat_sim", simulate=sims, depth=depth)
    sc = [{"name": "x%d" % i, "type": TYPES[i % len(TYPES)],
           "ops": ";".join(",".join(map(str, o)) for o in h)} for i, h in enumerate(hs)]
    r.shuffle(sc)
    rows = c.run_driver(exe, sc, jobs=vp.NCPU)
    c.samples += sc[:2]
    c.validate("TraceMat", rows, "", {s["name"]: s for s in sc}, chunks=vp.NCPU)
