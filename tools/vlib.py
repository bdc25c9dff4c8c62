"""Shared machinery of the checks: TLC, the Go harness, evidence, verdicts."""
import glob, json, os, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CPUS = min(8, os.cpu_count() or 4)
CP = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOFLAGS="-mod=mod",
             GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"),
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    return e


DRIVER = {"C22": "replay rns", "C14": "keyreg", "C16": "rns", "C17": "rns", "C18": "keytrace", "C21": "keytrace"}


RACE = {"C22"}       # built with the race detector


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.states = 0          # states TLC generated
        self.distinct = 0        # distinct states of exhaustive searches
        self.traces = 0          # behaviours executed on the implementation / traces validated
        self.steps = 0
        self.checks = 0
        self.ops = {}
        self.outcomes = {}
        self.samples = []
        self.notes = {}
        self.failures = []       # (reason, replay dict)
        self.exhaustive = []
        self.assumptions = []
        self._bin = None
        self.nfile = 0

    def quick(self):
        return self.tier == "quick"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, stem):
        with self.lock:
            self.nfile += 1
            return os.path.join(self.dir, "%s-%d" % (stem, self.nfile))

    # ---- building -------------------------------------------------------
    def harness(self):
        """The Go harness, built against /repo's working tree."""
        with self.lock:
            if self._bin:
                return self._bin
            src = os.path.join(self.dir, "harness")
            os.makedirs(src)
            for f in ["common.go", "main.go"] + [x + ".go" for x in DRIVER.get(self.prop, "replay").split()]:
                shutil.copy(os.path.join(VERIF, "harness", f), src)
            # the dependencies are the repository's
            mod = open(os.path.join(REPO, "go.mod")).read().split("\n")
            out = []
            for line in mod:
                if line.startswith("module "):
                    out.append("module verifharness")
                elif line.startswith("replace ") or line.startswith("toolchain "):
                    out.append(line)
                else:
                    out.append(line)
            out.append("require mk-lr v0.0.0")
            out.append("replace mk-lr => %s" % REPO)
            open(os.path.join(src, "go.mod"), "w").write("\n".join(out) + "\n")
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
            b = os.path.join(self.dir, "h")
            race = ["-race"] if self.prop in RACE else []
            p = subprocess.run(["go", "build"] + race + ["-o", b, "."], cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0:
                raise CheckError("the harness does not build:\n" + p.stdout[-4000:])
            self._bin = b
            return b

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module_text, cfg_text, name, args, extra_files=None, timeout=3600, heap="2g", gc="-XX:+UseSerialGC"):
        d = self.path("tlc")
        os.makedirs(d)
        open(os.path.join(d, name + ".tla"), "w").write(module_text)
        open(os.path.join(d, name + ".cfg"), "w").write(cfg_text)
        for fn, txt in (extra_files or {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        out = os.path.join(d, "out.txt")
        cmd = ["java", gc, "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-nowarning",
               "-metadir", os.path.join(d, "states"), "-config", name + ".cfg"] + args + [name + ".tla"]
        with open(out, "w") as f:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, out

    def tlc_exhaustive(self, name, module_text, cfg_text, workers=CPUS, timeout=3600, heap="6g"):
        rc, out = self.tlc(module_text, cfg_text, name, ["-workers", str(workers)], timeout=timeout, heap=heap, gc="-XX:+UseParallelGC")
        txt = open(out).read()
        if rc != 0 or "Model checking completed. No error has been found" not in txt:
            raise CheckError("TLC did not confirm the specification %s (rc %d):\n%s" % (name, rc, txt[-3000:]))
        gen, dist = parse_states(txt)
        with self.lock:
            self.states += gen
            self.distinct += dist
            self.exhaustive.append({"model": name, "states": gen, "distinct": dist})
        self.log("model %s: %d states, %d distinct, no violation" % (name, gen, dist))
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)

    # ---- failures ---------------------------------------------------------
    def fail(self, reason, replay):
        with self.lock:
            self.failures.append((reason, replay))

    def finish(self, technique_note=""):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = load_known(self.prop)
        viol = []
        for reason, replay in self.failures:
            k = next((x for x in known if x in reason), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
            else:
                viol.append((reason, replay))
        cov = {"states": self.states, "transitions": max(self.states - 1, 0), "traces_validated_against_impl": self.traces,
               "distinct_states_exhaustive": self.distinct, "exhaustive_models": self.exhaustive,
               "implementation_steps": self.steps, "comparisons": self.checks, "operations": self.ops, "outcomes": self.outcomes,
               "samples": self.samples[:3]}
        cov.update(self.notes)
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        json.dump(doc, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        rc = 0
        if viol:
            rd = os.path.join(ev, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (reason, replay) in enumerate(viol[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                json.dump({"property": self.prop, "reason": reason, "replay": replay}, open(p, "w"), indent=1)
                print("  " + reason)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            rc = 1
        self.log("states %d, behaviours on the implementation %d, steps %d, comparisons %d, violations %d" %
                 (self.states, self.traces, self.steps, self.checks, len(viol)))
        return rc

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def parse_states(txt):
    import re
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt):
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    for m in re.finditer(r"The number of states generated: ([\d,]+)", txt):
        gen = int(m.group(1).replace(",", ""))
    return gen, dist


def load_known(prop):
    """Findings recorded rather than repaired: 'finding: property=<id> <text in the failure reason>'."""
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            pre = "finding: property=%s " % prop
            if l.startswith(pre):
                r.append(l[len(pre):])
    except OSError:
        pass
    return r


def pool_map(fn, items, workers=CPUS):
    with ThreadPoolExecutor(max_workers=workers) as ex:
        futs = [ex.submit(fn, x) for x in items]
        return [f.result() for f in futs]


def run_harness(binary, mode, inp, workdir, timeout=1800):
    """Run the harness in its own process. Returns (report or None, stderr tail)."""
    fin, fout = workdir + ".in.json", workdir + ".out.json"
    json.dump(inp, open(fin, "w"))
    env = dict(os.environ)
    env["GOMAXPROCS"] = env.get("GOMAXPROCS", "2")
    env["GOTRACEBACK"] = "single"
    env["GORACE"] = "halt_on_error=1 atexit_sleep_ms=0"
    try:
        p = subprocess.run([binary, mode, fin, fout], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(fin))
        err = p.stderr.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        err, rc = "timeout", -1
    rep = None
    if rc == 0 and os.path.exists(fout):
        rep = json.load(open(fout))
    for f in (fin, fout):
        if os.path.exists(f):
            os.remove(f)
    return rep, rc, err[-3000:]


def drive(run, mode, inp, what, timeout=250):
    """Run a driver; when the code under test kills or hangs its process, and does so again, that is the verdict (None)."""
    rep, rc, err = run_harness(run.harness(), mode, inp, run.path("drv"), timeout=timeout)
    if rep is not None:
        return rep
    if "DATA RACE" in err and "mk-lr/" in err:
        run.fail("%s: the race detector reports a data race between workers with objects of their own" % what, dict(mode=mode, input=inp, stderr=err))
        return None
    r2, rc2, e2 = run_harness(run.harness(), mode, inp, run.path("drv"), timeout=timeout)
    if r2 is not None:
        return r2
    if rc2 == 4 or "HARNESS-ERROR" in e2 or not ("mk-lr/" in e2 or e2 == "timeout"):
        raise CheckError("%s driver died (rc %d): %s" % (mode, rc2, e2))
    line = ([x for x in e2.split("\n") if x.strip()] or ["?"])[0][:300]
    run.fail("%s: the process running it %s" % (what, "does not end" if e2 == "timeout" else "dies: " + line), dict(mode=mode, input=inp, stderr=e2))
    return None
