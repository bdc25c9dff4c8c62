"""Tests of spec/RNS.tla (basis conversions) and spec/Gadget.tla (digits, external product), run on the real code."""
import json, os, shutil
from vlib import *

PRIMES = [97, 193, 257, 353, 449, 577, 641, 673, 769, 929]      # = 1 mod 32: NTT-friendly for N = 16


def tla_seq(s):
    return "<<" + ", ".join(str(x) for x in s) + ">>"


def gen(run, module, c, seed):
    """c: dict(q, p, symbolic, mode, nblocks, depth, num, gamma?, maxconv?)"""
    cfg = "CONSTANTS\n  Symbolic = %s\n  Mode = \"%s\"\n  NBlocks = %d\n  Depth = %d\n" % ("TRUE" if c["symbolic"] else "FALSE", c["mode"], c.get("nblocks", 2), c.get("depth", 8))
    cfg += "  QM <- cQM\n  PM <- cPM\n"
    if module == "RNS":
        cfg += "  MaxConv = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK AlgRefines Out\nCHECK_DEADLOCK FALSE\n" % c.get("maxconv", 4)
    else:
        cfg += "  Gamma = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK Shape Recombine Out\nCHECK_DEADLOCK FALSE\n" % c["gamma"]
    mod = "---- MODULE T ----\nEXTENDS %s\ncQM == %s\ncPM == %s\n====\n" % (module, tla_seq(c["q"]), tla_seq(c["p"]))
    if c["mode"] == "walks":
        args = ["-simulate", "num=%d" % c["num"], "-depth", str(c.get("depth", 8) + 1), "-workers", "1", "-seed", str(seed)]
    else:
        args = ["-workers", "1", "-seed", str(seed)]
    rc, out = run.tlc(mod, cfg, "T", args)
    tests, tail = [], []
    for l in open(out):
        if l.startswith('"TST '):
            tests.append(json.loads(json.loads(l)[4:]))
        else:
            tail.append(l)
    txt = "".join(tail)
    if rc != 0 or not tests:
        raise CheckError("TLC failed on %s %s:\n%s" % (module, c, txt[-2000:]))
    gn, dist = parse_states(txt)
    with run.lock:
        run.states += gn
        if c["mode"] != "walks":
            run.distinct += dist
            run.exhaustive.append({"model": "%s q=%s p=%s" % (module, c["q"], c["p"]), "states": gn, "distinct": dist})
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    return tests


def run_one(run, module, c, seed):
    tests = gen(run, module, c, seed)
    inp = dict(logN=c.get("logN", 4), gamma=c.get("gamma", 1), symbolic=c["symbolic"], seed=seed, conc=c.get("conc", 0), tests=tests)
    if c["symbolic"]:
        inp.update(logQ=c["q"], logP=c["p"])
    else:
        inp.update(q=c["q"], p=c["p"])
    mode = "rns" if module == "RNS" else "gadget"
    rep = drive(run, mode, inp, "%s q=%s p=%s" % (module, c["q"], c["p"]))
    if rep is None:
        return
    with run.lock:
        run.traces += rep["behaviours"]
        run.steps += rep["steps"]
        run.checks += rep["checks"]
        for k, v in (rep["ops"] or {}).items():
            run.ops[k] = run.ops.get(k, 0) + v
        if len(run.samples) < 3 and c["symbolic"]:
            run.samples.append(dict(q=c["q"], p=c["p"], test=tests[0]))
        run.notes.setdefault("bases", []).append("%s |Q|=%s |P|=%s%s%s" % (c["mode"], c["q"], c["p"], " gamma %d" % c["gamma"] if "gamma" in c else "", " (bits)" if c["symbolic"] else ""))
    for f in (rep["failures"] or [])[:3]:
        t = tests[f["behaviour"]]
        run.fail("%s q=%s p=%s: %s" % (module, c["q"], c["p"], f["reason"]), dict(mode=mode, input=dict(inp, tests=[t]), failure=f))
    run.log("%s %s q=%s p=%s: %d tests" % (module, c["mode"], c["q"], c["p"], len(tests)))


def shuffles(seed, n, k):
    import random
    r = random.Random(seed)
    out = []
    for _ in range(n):
        p = PRIMES[:7]
        r.shuffle(p)
        out.append((p[:k[0]], p[k[0]:k[0] + k[1]]))
    return out


def plan17(run):
    q = run.quick()
    jobs = [dict(q=[97, 193, 257], p=[353, 449, 577], symbolic=False, mode="blocks", nblocks=60 if q else 1200)]
    jobs.append(dict(q=[97], p=[193], symbolic=False, mode="blocks", nblocks=1172))     # every integer below 97*193, every conversion
    if not q:
        jobs.append(dict(q=[193, 97], p=[257], symbolic=False, mode="blocks", nblocks=3200))
    for i, (a, b) in enumerate(shuffles(run.seed, 3 if q else 20, (3, 3))):
        jobs.append(dict(q=a, p=b, symbolic=False, mode="walks", num=120 if q else 1500, depth=12))
    big = [([60] * 3, [60] * 2), ([55, 45, 45, 45, 45], [60, 60]), ([60, 40, 50, 30, 60, 45], [61, 50, 61]), ([30] * 8, [35] * 4), ([45, 45], [50]), ([60] * 4, [61] * 6),
           ([59] + [52] * 5, [60, 60]), ([60] + [54] * 13, [59, 59]), ([55] + [38] * 20, [50, 50])]
    for i, (a, b) in enumerate(big):
        jobs.append(dict(q=a, p=b, symbolic=True, mode="walks", num=100 if q else 2000, depth=14, logN=5 + i % 3))
    jobs.append(dict(q=[55, 45, 45, 45], p=[60, 60, 60], symbolic=True, mode="walks", num=6 if q else 40, depth=16, logN=11, conc=30, maxconv=4))
    run.harness()
    pool_map(lambda ij: run_one(run, "RNS", ij[1], run.seed * 1000 + ij[0]), list(enumerate(jobs)))


def workers(run):
    """Converters and their copies, used by separate workers at the same time (C22; race detector on)."""
    q = run.quick()
    jobs = [dict(q=[55, 45, 45, 45], p=[60, 60, 60], symbolic=True, mode="walks", num=8 if q else 200, depth=16, logN=6, conc=10, maxconv=4),
            dict(q=[55] + [45] * 11, p=[60, 60], symbolic=True, mode="walks", num=8 if q else 200, depth=16, logN=5, conc=10, maxconv=4),
            dict(q=PRIMES[:3], p=PRIMES[3:6], symbolic=False, mode="walks", num=8 if q else 200, depth=16, conc=10, maxconv=4)]
    pool_map(lambda ij: run_one(run, "RNS", ij[1], run.seed * 1000 + ij[0]), list(enumerate(jobs)))


def plan16(run):
    q = run.quick()
    P = PRIMES
    jobs = []
    # (moduli, special moduli, gamma): digits of 1, 2, 3 moduli, complete and incomplete last digits
    shapes = [(4, 2, 2), (5, 4, 2), (5, 2, 1), (4, 3, 1), (5, 3, 2), (3, 5, 2), (6, 4, 4), (1, 2, 2), (2, 4, 1), (7, 3, 1), (4, 3, 3)]
    for i, (nq, npp, g) in enumerate(shapes):
        jobs.append(dict(q=P[:nq], p=(P[nq:] + P[:2])[:npp] if nq + npp > 10 else P[nq:nq + npp], gamma=g, symbolic=False, mode="blocks", nblocks=30 if q else 400))
        jobs.append(dict(q=P[:nq], p=P[nq:nq + npp], gamma=g, symbolic=False, mode="walks", num=60 if q else 1500, depth=8))
    big = [([55] + [45] * 5, [60, 60], 2), ([55] + [45] * 6, [60] * 4, 2), ([40] * 5, [45] * 3, 2), ([60] * 7, [60] * 3, 1), ([30, 60, 45, 50, 35], [61] * 6, 2),
           ([59] + [52] * 5, [60, 60], 2), ([60] + [54] * 13, [59, 59], 2), ([55] + [38] * 20, [50, 50], 2), ([50] * 4, [60] * 2, 1), ([45] * 6, [55] * 6, 3)]
    for i, (a, b, g) in enumerate(big):
        jobs.append(dict(q=a, p=b, gamma=g, symbolic=True, mode="walks", num=60 if q else 1500, depth=12, logN=5 + i % 4))
    run.harness()
    pool_map(lambda ij: run_one(run, "Gadget", ij[1], run.seed * 1000 + ij[0]), list(enumerate(jobs)))
