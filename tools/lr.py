"""The logistic-regression programs, unmodified, run on an ideal implementation of the encryption API (lrfake/) and,
scaled down, on the real one; their recordings are validated by TLC against spec/LRTrain.tla."""
import json, os, random, re, shutil, subprocess
from vlib import *

ONE = 65536
PROGS = {
    "lr": dict(data="data.csv", NF=7, Cols=8, Batch=2048, NBatch=1, Iters=4, Eta=[1, 1.61803, 2.193527, 2.74979], G10=3, Norm="none", NormRows=1, Decs=True, n=10000, tested=None),
    "lr_minibatch": dict(data="data.csv", NF=7, Cols=8, Batch=512, NBatch=4, Iters=4, Eta=[1, 1.61803, 2.193527, 2.74979], G10=3, Norm="none", NormRows=1, Decs=True, n=10000, tested=None),
    "lr_toy": dict(data="toyData.csv", NF=20, Cols=32, Batch=512, NBatch=1, Iters=2, Eta=[1, 0, -0.28175, -0.43404], G10=30, Norm="n", NormRows=512, Decs=False, n=2000, tested=None),
    "lr_minibatch_toy": dict(data="toyData.csv", NF=20, Cols=32, Batch=128, NBatch=4, Iters=3, Eta=[1, 0, -0.28175, -0.43404], G10=30, Norm="n1", NormRows=512, Decs=True, n=2000, tested="all"),
}
NOT_NORMALISED = {1, 3, 5, 17, 18, 19}


# ---- data ------------------------------------------------------------------
def make_data(p, seed, path):
    """Rows in 64ths; a few rows stand far out, so that using the wrong row, feature or label shows."""
    r = random.Random(seed)
    nf, toy = p["NF"], p["Norm"] != "none"
    n = p["n"]
    sep = [r.choice([-1, 1]) * r.randint(8, 48) for _ in range(nf)]      # the classes differ
    off = [r.randint(-200, 200) if toy else r.randint(-20, 20) for _ in range(nf)]
    spread = [r.randint(48, 160) if toy else r.randint(24, 96) for _ in range(nf)]
    edge = set()
    for b in range(p["NBatch"] + 1):
        for d in (-1, 0):
            edge.add(b * p["Batch"] + d)
    edge |= {0, p["NormRows"] - 1, p["NormRows"], p["NBatch"] * p["Batch"] - 1}
    for _ in range(12):
        edge.add(r.randrange(p["NBatch"] * p["Batch"]))
    rows = []
    for i in range(n):
        lab = r.choice([0, 1, 2, 3]) if toy else r.choice([0, 1])
        z = []
        for k in range(nf):
            if toy and k in NOT_NORMALISED:
                z.append(64 * r.randint(0, 1))
            else:
                z.append(off[k] + (sep[k] if lab == 0 else -sep[k] // 3) + int(r.uniform(-1, 1) * spread[k]))
        if i in edge:
            k = r.choice([x for x in range(nf) if not (toy and x in NOT_NORMALISED)])
            if toy:
                z[k] = off[k] + r.choice([-1, 1]) * 6 * spread[k]
            else:
                z = [0] * nf
                z[k] = r.choice([-1, 1]) * r.randint(500, 900)
        if 1900 <= i < 1990:
            f = r.choice([0.05, 0.2, 0.5, 1] if toy else [0.05, 0.2, 0.5, 1, 2])        # also close to the threshold, and labelled either way
            z = [x if toy and k in NOT_NORMALISED else int((x - off[k]) * f) + (off[k] if toy else 0) for k, x in enumerate(z)]
            lab = r.choice([0, 1, 2, 3]) if toy else r.choice([0, 1])
        rows.append((z, lab))
    with open(path, "w") as f:
        f.write(",".join("f%d" % k for k in range(nf)) + ",target\n")
        for z, lab in rows:
            f.write(",".join(repr(x / 64) for x in z) + ",%d\n" % lab)
    return [dict(z=z, y=1 if lab == 0 else 0) for z, lab in rows]


# ---- building -----------------------------------------------------------------
def go(args, cwd, timeout=600):
    p = subprocess.run(["go"] + args, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fake_module(run):
    """Scratch module mk-lr whose mkckks and mkrlwe are the stand-ins."""
    d = run.path("lrmod")
    os.makedirs(d)
    shutil.copytree(os.path.join(VERIF, "lrfake", "mkrlwe"), os.path.join(d, "mkrlwe"))
    shutil.copytree(os.path.join(VERIF, "lrfake", "mkckks"), os.path.join(d, "mkckks"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), d)
    return d


def sources(prog):
    """The program's own file and, should it have been split, helper files beside it that no other program owns."""
    lr = os.path.join(REPO, "lr")
    fs = [os.path.join(lr, prog + ".go")]
    for f in sorted(os.listdir(lr)):
        if f.endswith(".go") and not f.endswith("_test.go") and f[:-3] not in PROGS:
            if "func main()" not in open(os.path.join(lr, f)).read():
                fs.append(os.path.join(lr, f))
    return fs


def copy_prog(prog, d, init=None):
    pd = os.path.join(d, "cmd_" + prog)
    os.makedirs(pd, exist_ok=True)
    for s in sources(prog):
        shutil.copy(s, pd)
    if init:
        open(os.path.join(pd, "zz_verif_scale.go"), "w").write(init)
    # packages of the repository other than the two stood in for
    for pkg in sorted(os.listdir(REPO)):
        src = os.path.join(REPO, pkg)
        if pkg not in ("lr", "mkckks", "mkrlwe") and os.path.isdir(src) and not pkg.startswith(".") and not os.path.exists(os.path.join(d, pkg)):
            if any(f.endswith(".go") for f in os.listdir(src)):
                os.symlink(src, os.path.join(d, pkg))
    return pd


def build_fake(run, d, prog):
    copy_prog(prog, d)
    b = os.path.join(d, prog + ".bin")
    rc, out = go(["build", "-o", b, "./cmd_" + prog], d)
    if rc != 0:
        return None, out
    return b, ""


# ---- running -----------------------------------------------------------------
def events_of(tr):
    ev = []
    if os.path.exists(tr):
        for line in open(tr):
            if len(ev) >= 30000:        # a run takes some two thousand
                break
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
    return ev


def parse_out(prog, p, rc, out):
    m = re.search(r"Correct\??:?\s*(-?\d+)", out)
    ident = re.search(r"Test Data ID:\s*(\d+)", out)
    end = dict(k="end", blind=0, rc=rc, correct=int(m.group(1)) if m else -1, text="" if rc == 0 else out[-300:].replace('"', "'").replace("\\", "/"))
    if p["tested"] == "all":
        tested = list(range(1, p["n"] + 1))
    elif ident:
        tested = [int(ident.group(1)) + 1]
    else:
        tested = [1]
        if rc == 0:
            end["rc"], end["text"] = 99, "no tested row was printed"
    return end, tested


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return str(v)


def validate(run, prog, p, rows, events, tested, tol, tolinf, seen):
    need = max(p["NBatch"] * p["Batch"], p["NormRows"] if p["Norm"] != "none" else 0)
    keep, idx = list(range(need)), {}
    for t in tested:
        if t - 1 >= need:
            idx[t] = len(keep) + 1
            keep.append(t - 1)
        else:
            idx[t] = t
    df, tf = run.path("rows") + ".json", run.path("trace") + ".ndjson"
    json.dump(dict(rows=[rows[i] for i in keep]), open(df, "w"))
    with open(tf, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    c = dict(NF=p["NF"], Cols=p["Cols"], Batch=p["Batch"], NBatch=p["NBatch"], Iters=p["Iters"], G10=p["G10"], Norm=p["Norm"], NormRows=p["NormRows"], Decs=p["Decs"],
             DataFile=df, TraceFile=tf, Tol=tol, TolInf=tolinf, Seen=seen)
    cfg = "CONSTANTS\n  Eta <- cEta\n  Tested <- cTested\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in c.items())
    cfg += "SPECIFICATION Spec\nINVARIANTS InRange Nesterov Progress\nCHECK_DEADLOCK FALSE\n"
    mod = "---- MODULE LT ----\nEXTENDS LRTrain\ncEta == %s\ncTested == %s\n====\n" % (tla([int(round(e * ONE)) for e in p["Eta"]]), tla([idx[t] for t in tested]))
    rc, out = run.tlc(mod, cfg, "LT", ["-workers", "1"], heap="3g")
    txt = open(out).read()
    res = [json.loads(json.loads(l)[4:]) for l in txt.split("\n") if l.startswith('"RES ')]
    if rc != 0 or len(res) != 1:
        raise CheckError("TLC did not read the recording of %s to its end:\n%s" % (prog, txt[-2500:]))
    g, _ = parse_states(txt)
    with run.lock:
        run.states += g
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    os.remove(df)
    os.remove(tf)
    return res[0]


def note(run, prog, kind, events, tested):
    with run.lock:
        run.traces += 1
        run.steps += len(events)
        run.checks += sum(1 for e in events if e["k"] in ("vec", "dec", "op"))
        for e in events:
            k = "%s %s" % (prog, e.get("op", e["k"]))
            run.ops[k] = run.ops.get(k, 0) + 1
        if len(run.samples) < 3:
            run.samples.append(dict(program=prog, kind=kind, events=events[:3] + events[-2:], tested=tested[:3]))


def report(run, prog, kind, res, kinds, replay):
    for cls, why in res:
        if cls in kinds:
            run.fail("%s (%s): %s: %s" % (prog, kind, cls, why[:700]), replay)
            return


def ideal(run, kinds, d, prog, binary, seed):
    p = PROGS[prog]
    cwd = run.path("lrrun")
    os.makedirs(cwd)
    rows = make_data(p, seed * 7919 + len(prog), os.path.join(cwd, p["data"]))
    tr = os.path.join(cwd, "trace.jsonl")
    env = dict(os.environ, VERIF_LR_TRACE=tr, VERIF_LR_COLS=str(p["Cols"]), GOTRACEBACK="none")
    if p["tested"] == "all":
        env["VERIF_LR_SHORT"] = "1"
    try:
        q = subprocess.run([binary], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
        rc, out = q.returncode, q.stdout
    except subprocess.TimeoutExpired:
        rc, out = 98, "the program did not end"
    end, tested = parse_out(prog, p, rc, out)
    ev = events_of(tr) + [end]
    shutil.rmtree(cwd, ignore_errors=True)
    res = validate(run, prog, p, rows, ev, tested, tol=16, tolinf=64, seen=p["Cols"])
    note(run, prog, "ideal", ev, tested)
    run.log("%s seed %d: %d events, tested %s, printed %s, objections %s" % (prog, seed, len(ev), tested[:2] if len(tested) < 3 else "all", end["correct"], [r[0] for r in res]))
    report(run, prog, "ideal API, data seed %d" % seed, res, kinds, dict(mode="lr-ideal", prog=prog, seed=seed, kinds=sorted(kinds)))


# ---- the real library, on a scaled-down ring ----------------------------------------
# The programs' own parameter variables are set by an init function beside them; what the program does with a smaller ring is first
# confirmed on the ideal API (otherwise, or when it does not compile, the run is left out).
def scaled(prog):
    p = dict(PROGS[prog])
    ring = "\tPN15QP880.LogN = %d\n\tPN15QP880.LogSlots = %d\n"
    if prog == "lr":            # sums run over 2048 rows whatever the ring: 16 times the 128 rows there are
        p.update(n=2000, Batch=128)
        body = ring % (11, 10) + "\tslotNum = 1024\n\tnumData = 2000\n\tbatchSize = 128\n\tgamma = 0.3 / 16\n\tnumCompany = 2\n"
    elif prog == "lr_minibatch":
        p.update(n=2000, Batch=256, NBatch=3)
        body = ring % (11, 10) + "\tnumSlots = 1024\n\tnumData = 2000\n\tnumTrain = 768\n\tbatchSize = 256\n\tnumBatch = 3\n\tnumCompany = 3\n"
    elif prog == "lr_minibatch_toy":
        p.update(n=150, Batch=64, NBatch=2, NormRows=128)
        body = ring % (11, 10) + "\tnumSlots = 1024\n\tnumData = 150\n\tnumTrain = 128\n\tbatchSize = 64\n\tnumBatch = 2\n\tnumCompany = 2\n"
    else:
        return None, None
    return p, "package main\n\nfunc init() {\n" + body + "}\n"


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|NaN|Inf)"


def printed_vectors(out):
    """What the program printed of beta and v: the first two coordinates."""
    ev = []
    for m in re.finditer(r"(?:beta|v):\s*\[\((%s)(%s)i\)\s*\((%s)(%s)i\)" % (NUM, NUM, NUM, NUM), out):
        x = [float(g) for g in m.groups()]
        fix = lambda a: max(-2**29, min(2**29, int(round(a * ONE)))) if a == a and abs(a) < 1e9 else 2**29
        v = [fix(x[0]), fix(x[2])]
        if abs(x[1]) > 0.02 or abs(x[3]) > 0.02:
            v = [2**29, 2**29]          # not real at all
        ev += [dict(k="vec", v=v), dict(k="dec", rep=1, v=v)]
    return ev


def run_prog(binary, cwd, env, timeout):
    try:
        q = subprocess.run([binary], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return q.returncode, q.stdout
    except subprocess.TimeoutExpired as e:
        return None, ""


def real(run, kinds, prog, seed):
    p, init = scaled(prog)
    d = fake_module(run)
    copy_prog(prog, d, init)
    fb = os.path.join(d, "fake.bin")
    rc, out = go(["build", "-o", fb, "./cmd_" + prog], d)
    r = run.path("lrreal")
    os.makedirs(r)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), r)
    for pkg in ("mkckks", "mkrlwe"):
        os.symlink(os.path.join(REPO, pkg), os.path.join(r, pkg))
    copy_prog(prog, r, init)
    rb = os.path.join(r, "real.bin")
    rc2, out2 = go(["build", "-o", rb, "./cmd_" + prog], r) if rc == 0 else (1, "")
    if rc != 0 or rc2 != 0:
        run.notes.setdefault("left out", []).append("%s scaled down: does not build (%s)" % (prog, (out + out2)[-200:]))
        return
    cwd = run.path("lrrun")
    os.makedirs(cwd)
    rows = make_data(p, seed * 7919 + len(prog), os.path.join(cwd, p["data"]))
    env = dict(os.environ, GOTRACEBACK="none", GOMAXPROCS="2")
    for binary, kind in ((fb, "ideal"), (rb, "real")):
        rc, out = run_prog(binary, cwd, env, 120 if kind == "ideal" else 400)
        if rc is None:
            run.notes.setdefault("left out", []).append("%s scaled down: no time" % prog)
            return
        end, tested = parse_out(prog, p, rc, out)
        end["blind"] = 1
        ev = printed_vectors(out) + [end]
        tol = 32 if kind == "ideal" else 400
        res = validate(run, prog, p, rows, ev, tested, tol=tol, tolinf=1000, seen=2)
        run.log("%s scaled down, %s API: %d events, printed %s, objections %s" % (prog, kind, len(ev), end["correct"], [x[0] + ": " + x[1][:150] for x in res]))
        if kind == "ideal" and res:
            run.notes.setdefault("left out", []).append("%s scaled down: %s" % (prog, res[0][1][:200]))
            return
    note(run, prog, "real library, scaled down", ev, tested)
    report(run, prog, "real library, ring scaled down, data seed %d" % seed, res, kinds, dict(mode="lr-real", prog=prog, seed=seed, kinds=sorted(kinds)))
    shutil.rmtree(cwd, ignore_errors=True)


def pack(run, name, r, c, nf, vals, iters):
    """The packed iteration refines the clear one, and its depth: every data set over a small ring."""
    cfg = ("CONSTANTS\n  P = 97\n  R = %d\n  C = %d\n  NF = %d\n  Iters = %d\n  L = %d\n  EtaSeq <- cEta\n  G = 2\n  C3 = 3\n  C15 = 7\n  C0 = 5\n  Vals = %s\n"
           "SPECIFICATION Spec\nINVARIANTS Refines Depth Enough Inference\nCHECK_DEADLOCK FALSE\n") % (r, c, nf, iters, 4 * iters + 3, vals)
    run.tlc_exhaustive(name, "---- MODULE %s ----\nEXTENDS LRPack\ncEta == <<1, 3, -2, 4>>\n====\n" % name, cfg)


def plan(kinds):
    def f(run):
        d = fake_module(run)
        bins = {}
        for prog in PROGS:
            b, out = build_fake(run, d, prog)
            if b is None:
                run.log("%s does not build on the stand-in API: %s" % (prog, out[-500:]))
                run.notes.setdefault("left out", []).append("%s does not build on the stand-in API: %s" % (prog, out[-300:]))
                continue
            bins[prog] = b
        q = run.quick()
        pack(run, "MC_pack_2x4", 2, 4, 3, "{0, 1, 5}", 3)
        if not q:
            pack(run, "MC_pack_4x2", 4, 2, 2, "{0, 1, 5}", 3)
            pack(run, "MC_pack_2x4_full", 2, 4, 4, "{0, 1, 2, 5}", 4)
            pack(run, "MC_pack_8x2", 8, 2, 1, "{0, 1, 5}", 3)
        jobs = []
        for prog in ("lr", "lr_minibatch", "lr_minibatch_toy"):
            for s in range(1 if q else 4):
                jobs.append((prog, run.seed * 1000 + 500 + s, "real"))
        for prog in bins:
            for s in range((2 if prog == "lr_minibatch_toy" else 6) if q else 40):
                jobs.append((prog, run.seed * 1000 + s, "ideal"))
        pool_map(lambda j: real(run, kinds, j[0], j[1]) if j[2] == "real" else ideal(run, kinds, d, j[0], bins[j[0]], j[1]), jobs)
        run.notes["verdicts counted"] = sorted(kinds)
    return f


def replay(run, rp):
    kinds = set(rp["kinds"])
    if rp["mode"] == "lr-real":
        real(run, kinds, rp["prog"], rp["seed"])
    else:
        d = fake_module(run)
        b, out = build_fake(run, d, rp["prog"])
        if b is None:
            print(out)
            return 2
        ideal(run, kinds, d, rp["prog"], b, rp["seed"])
    print("\n".join(f[0] for f in run.failures) or "the recording is accepted")
    return 1 if run.failures else 0
