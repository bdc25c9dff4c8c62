"""Tests of spec/KeyReg.tla, run on the real registries and participant sets."""
import json, os, shutil
from vlib import *
from mkhe import PROFILES


def cfg_text(c, emit, depth):
    return ("CONSTANTS\n  Kinds = {%s}\n  NReg = %d\n  NId = %d\n  NAmt = %d\n  NVer = %d\n  NSet = %d\n  Emit = \"%s\"\n  Depth = %d\nSPECIFICATION Spec\nVIEW %s\n"
            "INVARIANTS TypeOK NoReserved Out\nPROPERTIES OneEntry\nCHECK_DEADLOCK FALSE\n") % (
        ", ".join('"%s"' % k for k in c["kinds"]), c["nreg"], c["nid"], c["namt"], c["nver"], c["nset"], emit, depth, "view" if emit != "behaviours" else "vars")


def run_one(run, job):
    name, c, emit, num, seed = job
    depth = c.get("depth", 40)
    mod = "---- MODULE KR ----\nEXTENDS KeyReg\n====\n"
    cfg = cfg_text(c, emit, depth)
    if emit == "behaviours":
        cfg = cfg.replace("VIEW vars\n", "").replace("PROPERTIES OneEntry\n", "")
        args = ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-workers", "1", "-seed", str(seed)]
    else:
        args = ["-workers", "1"]
    rc, out = run.tlc(mod, cfg, "KR", args)
    tests, tail = [], []
    for l in open(out):
        if l.startswith('"TST '):
            tests.append(json.loads(json.loads(l)[4:]))
        else:
            tail.append(l)
    txt = "".join(tail)
    if rc != 0 or not tests:
        raise CheckError("TLC failed on KeyReg (%s):\n%s" % (name, txt[-2000:]))
    gen, dist = parse_states(txt)
    with run.lock:
        run.states += gen
        if emit != "behaviours":
            run.distinct += dist
            run.exhaustive.append({"model": "KeyReg " + name, "states": gen, "distinct": dist, "tests": len(tests)})
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    inp = dict(ring=PROFILES["std"]["rings"][0], kinds=c["kinds"], nreg=c["nreg"], nid=c["nid"], namt=c["namt"], nver=c["nver"], nset=c["nset"],
               names=seed % 5, tests=tests)
    rep = drive(run, "keyreg", inp, "KeyReg " + name)
    if rep is None:
        return
    with run.lock:
        run.traces += rep["behaviours"]
        run.steps += rep["steps"]
        run.checks += rep["checks"]
        for k, v in (rep["ops"] or {}).items():
            run.ops[k] = run.ops.get(k, 0) + v
        if len(run.samples) < 3:
            run.samples.append(tests[-1])
    for f in (rep["failures"] or [])[:3]:
        t = tests[f["behaviour"]]
        run.fail("KeyReg %s: %s; %s" % (name, f["reason"], json.dumps([[o["nm"], o["a"], o["b"], o["c"], o["d"]] for o in t["ops"]])[:600]),
                 dict(mode="keyreg", input=dict(inp, tests=[t]), failure=f))
    run.log("registries %s: %d tests" % (name, len(tests)))


def plan(run):
    jobs = []
    for i, k in enumerate(["sk", "pk", "rlk", "cjk"]):
        jobs.append((k, dict(kinds=[k], nreg=2, nid=2 if run.quick() else 3, namt=1, nver=2, nset=0), "transitions", 0, run.seed + i))
    jobs.append(("rk", dict(kinds=["rk"], nreg=1, nid=2, namt=2 if run.quick() else 3, nver=2, nset=0), "transitions", 0, run.seed + 4))
    jobs.append(("sets", dict(kinds=[], nreg=1, nid=2 if run.quick() else 3, namt=1, nver=1, nset=3), "transitions", 0, run.seed + 5))
    for s in range(3 if run.quick() else 24):
        jobs.append(("mixed%d" % s, dict(kinds=["sk", "pk", "rlk", "cjk", "rk"], nreg=2, nid=3, namt=4, nver=2, nset=3, depth=40), "behaviours",
                     150 if run.quick() else 1000, run.seed * 100 + s))
    run.harness()
    pool_map(lambda j: run_one(run, j), jobs)
