"""Shared machinery of the checks: building drivers against /repo's working
tree, running them, feeding what they recorded to TLC, reporting."""
import traceback
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class Infra(Exception):
    """Something of ours (or the toolchain) failed: no answer."""


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what = what
        self.payload = payload


def thorough():
    return TIER == "thorough"


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


ALT = ["-std=c++20", "-DHEU_NO_THREADS", "-DHEU_DO_OUTPUT"]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(VERIF if REPO == "/repo" else REPO, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known_hit = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ---- building -------------------------------------------------------
    def build_many(self, jobs, alt=False):
        """jobs: list of (name, source, extra flags); alt: each also in the other configuration
        (C++20, threads off, progress output on), which takes part of the scenarios"""
        if alt:
            jobs = list(jobs) + [(n + "_alt", s, list(f) + ALT) for n, s, f in jobs]
        def one(job):
            name, src, flags = job
            out = self.path(name)
            cmd = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-fopenmp", "-I" + REPO,
                   "-I/usr/include/eigen3", "-I" + HARN] + list(flags) + \
                  [os.path.join(HARN, src), "-o", out]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                raise Infra("compile timeout: " + name)
            return name, out, r, flags
        res = {}
        with cf.ThreadPoolExecutor(max(1, min(NCPU, len(jobs)))) as ex:
            for name, out, r, flags in ex.map(one, jobs):
                if r.returncode != 0:
                    errs = [l for l in r.stderr.splitlines() if "error" in l][:5]
                    bad = [l for l in r.stderr.splitlines() if "is not a constant expression" in l]
                    if bad and "-DVP_CONSTANTS" in flags:
                        # the values under test are computed by the compiler: one it cannot
                        # compute (overflow, division by zero) is what the check looks for
                        raise Violation("a value to be computed at compile time is not a constant",
                                        {"errors": bad[:10]})
                    if "-DVP_CALLS" in flags and self.includes():
                        # the driver only calls public functions, in every form they are offered in
                        raise Violation("a call offered by the library does not compile",
                                        {"errors": errs})
                    raise Infra("driver %s does not compile against %s:\n%s" %
                                (name, REPO, "\n".join(errs) or r.stderr[-2000:]))
                res[name] = out
        return res

    def includes(self):
        """do the public headers compile on their own?"""
        src = self.path("includes.cpp")
        with open(src, "w") as f:
            f.write("#include <Eigen/Dense>\n#include <HeuristicFlow/EAGlobal>\nint main() {}\n")
        return subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + REPO, "-I/usr/include/eigen3", src],
                              capture_output=True).returncode == 0

    # ---- running drivers ------------------------------------------------
    def run_driver(self, exe, scenarios, env=None, timeout=600, jobs=4):
        """scenarios: list of dicts (with name).  Returns parsed output lines.
        A hang or crash of the code under test is a violation."""
        if not scenarios:
            return []
        jobs = max(1, min(jobs, len(scenarios)))
        np = max(jobs, min(4, len(scenarios)))
        parts = [scenarios[i::np] for i in range(np)]
        main, alt = exe, exe + "_alt"
        use_alt = os.path.exists(alt) and (env or {}).get("OMP_NUM_THREADS", "1") == "1"

        def one(ipart):
            i, part = ipart
            exe = alt if use_alt and i % 4 == 3 else main
            text = "\n".join(" ".join("%s=%s" % (k, v) for k, v in s.items()) for s in part) + "\n"
            e = dict(os.environ)
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=42"
            e.update(env or {})
            try:
                r = subprocess.run([exe], input=text, capture_output=True, text=True,
                                   timeout=timeout, env=e)
            except subprocess.TimeoutExpired as t:
                n = (t.stdout or b"").count(b"\n")
                s = part[min(n, len(part) - 1)]
                raise Violation("the code under test does not return", {"scenario": s})
            rows = []
            for line in r.stdout.splitlines():
                try:
                    rows.append(json.loads(line))
                except ValueError:
                    pass
            if r.returncode != 0 or len(rows) < len(part):
                s = part[min(len(rows), len(part) - 1)]
                m = re.search(r"VP-(HANG|CRASH)", r.stderr or "")
                what = {"HANG": "does not return", "CRASH": "crashes"}.get(
                    m.group(1) if m else "", "dies (exit %d)" % r.returncode)
                raise Violation("the code under test " + what,
                                {"scenario": s, "stderr": r.stderr[-3000:]})
            return rows
        out = []
        with cf.ThreadPoolExecutor(jobs) as ex:
            for rows in ex.map(one, enumerate(parts)):
                out += rows
        return out

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg_text, tag, env=None, workers=1, timeout=800, heap="2g", extra=(),
            ok_codes=(0, 11, 12, 13)):
        d = self.path("tlc_" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "C.cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m",
               "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", JAR,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "m"),
               "-noGenerateSpecTE", "-config", "C.cfg"] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise Infra("TLC timeout on " + tag)
        out = r.stdout + r.stderr
        shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (0, 0)
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        if r.returncode not in ok_codes:
            with open(os.path.join(d, "out.txt"), "w") as f:
                f.write(out)
            raise Infra("TLC exit %d on %s:\n%s" % (r.returncode, tag, out[-3000:]))
        self.states += dist
        self.transitions += gen
        return r.returncode, out

    def model(self, module, cfg_file, workers=None, timeout=800, heap="6g"):
        """Exhaustive model checking of a design configuration.  The model is
        ours: a failure here is a failure of the machinery."""
        with open(os.path.join(SPEC, cfg_file)) as f:
            text = f.read()
        rc, out = self.tlc(module, text, cfg_file.replace(".cfg", ""), workers=workers or NCPU,
                           timeout=timeout, heap=heap)
        if rc != 0:
            raise Infra("model %s/%s is violated:\n%s" % (module, cfg_file, out[-3000:]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.cov.setdefault("models", {})[cfg_file] = m[-1][1] if m else "?"

    def generate(self, module, cfg_text, tag, simulate=None, depth=100, timeout=400, heap="4g"):
        """Behaviours of a specification: enumerated exhaustively, or simulated
        (simulate = number of behaviours).  The module writes one JSON line per
        behaviour to the file named by OUT."""
        out = self.path("gen_%s.ndjson" % tag)
        if os.path.exists(out):
            os.remove(out)
        extra = ()
        if simulate:
            extra = ("-simulate", "num=%d" % simulate, "-depth", str(depth + 2),
                     "-seed", str(1000 + SEED))
        rc, txt = self.tlc(module, cfg_text, "gen_" + tag, env={"OUT": out}, workers=1,
                           timeout=timeout, heap=heap, extra=extra)
        if rc != 0:
            raise Infra("generation %s failed:\n%s" % (tag, txt[-3000:]))
        with open(out) as f:
            rows = [json.loads(json.loads(l) if l.startswith('"') else l) for l in f]
        os.remove(out)
        self.cov.setdefault("generated_behaviours", {})[tag] = len(rows)
        log("generated %d behaviours (%s)" % (len(rows), tag))
        return rows

    def validate(self, module, traces, consts, scen_by_name, chunks=None, extra_cfg="",
                 timeout=800):
        """Trace validation: each trace must be a behaviour of the spec."""
        if not traces:
            return
        log("validating %d histories with %s" % (len(traces), module))
        chunks = chunks or min(NCPU, max(1, len(traces) // 4))
        parts = [traces[i::chunks] for i in range(chunks)]

        def one(args):
            i, part = args
            p = self.path("trace_%s_%d.ndjson" % (module, i))
            with open(p, "w") as f:
                for t in part:
                    f.write(json.dumps(t, separators=(",", ":")) + "\n")
            cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK TRUE\n%s\n%s" % (consts, extra_cfg)
            return i, part, self.tlc(module, cfg, "%s_%d" % (module, i), env={"TRACE": p},
                                     timeout=timeout)
        bads = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for i, part, (rc, out) in ex.map(one, list(enumerate(parts))):
                if rc == 0:
                    continue
                last = out[out.rfind("\nState "):]
                m, n = re.search(r"\btr = (\d+)", last), re.search(r"\bl = (\d+)", last)
                if not m or "eadlock reached" not in out and "is violated" not in out:
                    raise Infra("unexpected TLC result:\n" + out[-3000:])
                bads.append(("%s event %s" % (part[int(m.group(1)) - 1]["name"],
                                              n.group(1) if n else "?"), part, out))
        if bads:
            bad, part, out = bads[0]
            name = bad.split(" ")[0]
            tr = [t for t in part if t["name"] == name]
            # confirm on that history alone
            p = self.path("confirm.ndjson")
            with open(p, "w") as f:
                f.write(json.dumps(tr[0]) + "\n")
            cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK TRUE\n%s\n%s" % (consts, extra_cfg)
            rc, out2 = self.tlc(module, cfg, "confirm", env={"TRACE": p}, timeout=timeout)
            if rc == 0:
                raise Infra("rejection of %s did not repeat" % bad)
            raise Violation("history not allowed by %s: %s" % (module, bad),
                            {"scenario": scen_by_name.get(name), "history": tr[0],
                             "spec": module, "constants": consts, "at": bad,
                             "last_state": out2[out2.rfind("State "):][:4000]})
        self.traces += len(traces)

    # ---- reporting --------------------------------------------------------
    def evidence(self, level, wall, violations):
        cov = dict(self.cov)
        cov.update({"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.traces,
                    "samples": self.samples[:3] or ["none"]})
        if level != "model_checking":
            cov.setdefault("evaluations", self.traces)
            cov.setdefault("distinct_nontrivial", self.traces)
            cov.setdefault("rule", "see DESIGN.md")
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main(pid, fn, level="model_checking"):
    c = Check(pid)
    t = time.time()
    try:
        fn(c)
    except Violation as v:
        out = os.path.join(VERIF, "out", pid)
        os.makedirs(out, exist_ok=True)
        rp = os.path.join(out, "replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "what": v.what, "seed": SEED, "tier": TIER,
                       "detail": v.payload}, f, indent=1, default=str)
        log(v.what)
        sc = v.payload.get("scenario") if isinstance(v.payload, dict) else None
        if sc:
            log("scenario:", " ".join("%s=%s" % kv for kv in sc.items()) if isinstance(sc, dict) else sc)
        c.evidence(level, time.time() - t, 1)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    except Infra as e:
        log("NO ANSWER:", e)
        return 2
    except Exception:
        traceback.print_exc()
        log("NO ANSWER")
        return 2
    for k, what in c.known_hit:
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, what))
    c.evidence(level, time.time() - t, 0)
    shutil.rmtree(c.dir, ignore_errors=True)
    log("property %s held: %d traces validated, %d states" % (pid, c.traces, c.states))
    return 0


def lengthen(r, sc, cap=None, lo=20, hi=70, kmax=5, fails=(5, 9, 13, 17, 25, 33, 60, 100)):
    """the same scenarios with few individuals, many generations and patient stop conditions"""
    def one(m):
        o = m.group(1).split(",")
        o[0] = str(max(1, min(int(o[0]), kmax)))
        o[1] = str(r.randint(lo, hi))
        o[2] = str(r.choice(fails))
        if cap:
            o[cap] = str(min(int(o[cap]), int(o[0])))
        return "C:" + ",".join(o)
    return [dict(s, name="long%d" % lo + s["name"], ops=re.sub(r"C:([\d,]+)", one, s["ops"])) for s in sc]


def marathon(r, sc, cap=None, never="0", kmax=3):
    """few individuals and generations beyond the small counters"""
    return lengthen(r, sc, cap, 260, 700, kmax, (never, never, "127", "128", "255", "256", "300"))
