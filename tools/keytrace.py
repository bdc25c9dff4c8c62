"""Histories of spec/KeyGen.tla executed on the real code; the recordings are validated by TLC against the same specification."""
import json, os, shutil
from vlib import *
from mkhe import ring

RINGS = [
    (ring("k10p2", 10, 9, [50] + [45] * 4, [50] * 2, 40), 0),
    (ring("k10p4", 10, 9, [50] + [45] * 4, [50] * 4, 40), 0),
    (ring("k10p3", 10, 8, [50] + [45] * 3, [50] * 3, 40), 0),
    (ring("k6p5", 6, 5, [55] + [45] * 6, [60] * 5, 40), 0),
    (ring("k10g1", 10, 9, [50, 45, 45], [50] * 2, 40), 1),
    (ring("k9p6", 9, 8, [60, 30, 45, 50, 40, 35, 55], [61] * 6, 40), 0),
    (ring("k10l0", 10, 9, [50], [50] * 2, 30), 0),
    # errors narrower and wider than the default
    (dict(ring("k10s15", 10, 9, [50] + [45] * 2, [50] * 2, 40), sigma10=15), 0),
    (dict(ring("k9s90", 9, 8, [55] + [45] * 3, [55] * 4, 40), sigma10=90), 0),
    (ring("k12", 12, 11, [55] + [45] * 5, [60] * 2, 45), 0),
]


def cfg(mode, depth, tracefile="none", view=False):
    c = dict(NP=3, NAmt=6, NDef=2, NObj=2, Depth=depth, LevelMax=4)
    if mode == "mc":
        c.update(NP=1, NAmt=2, NDef=1)
    s = "CONSTANTS\n  Mode = \"%s\"\n  TraceFile = \"%s\"\n" % (mode, tracefile) + "".join("  %s = %d\n" % kv for kv in c.items()) + "SPECIFICATION Spec\n"
    if mode == "mc":
        return s + "INVARIANTS TypeOK Prereq\nPROPERTIES NoRepeat\nVIEW mcview\nCHECK_DEADLOCK FALSE\n"
    return s + "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % ("Emit" if mode in ("gen", "genlong") else "Report Done")


MOD = "---- MODULE KT ----\nEXTENDS KeyGen\n====\n"


def gen(run, num, depth, seed):
    rc, out = run.tlc(MOD, cfg("genlong" if depth > 100 else "gen", depth), "KT", ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-workers", "1", "-seed", str(seed)])
    hs = [json.loads(json.loads(l)[4:]) for l in open(out) if l.startswith('"TST ')]
    txt = open(out).read()[-2000:]
    if rc != 0 or not hs:
        raise CheckError("TLC generated no key histories:\n" + txt)
    g, _ = parse_states(txt)
    with run.lock:
        run.states += g
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    return hs


def validate(run, events):
    """TLC's verdict on a recording: list of (event index, reason)."""
    tf = run.path("trace") + ".json"
    json.dump(events, open(tf, "w"))
    rc, out = run.tlc(MOD, cfg("trace", 1, tf), "KT", ["-workers", "1"], heap="4g")
    txt = open(out).read()
    bad = [json.loads(json.loads(l)[4:]) for l in txt.split("\n") if l.startswith('"BAD ')]
    if rc != 0 or '"END %d ' % len(events) not in txt:
        raise CheckError("TLC did not read the recording to its end:\n" + txt[-2500:])
    g, _ = parse_states(txt)
    with run.lock:
        run.states += g
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    os.remove(tf)
    return bad


def one(run, kinds, job):
    (rg, gamma), num, depth, seed = job
    hs = gen(run, num, depth, seed)
    half = (len(hs) + 1) // 2
    events = []
    for k, part in enumerate([hs[:half], hs[half:]]):       # two processes
        if not part:
            continue
        inp = dict(ring=rg, gamma=gamma, names=(seed + k) % 5, seed=seed * 2 + k, hist=part)
        rep = drive(run, "keytrace", inp, "key histories (%s)" % rg["name"])
        if rep is None:
            return
        events += rep
    bad = validate(run, events)
    with run.lock:
        run.traces += len(hs)
        run.steps += len(events)
        for e in events:
            run.ops[e["op"]["nm"]] = run.ops.get(e["op"]["nm"], 0) + 1
            run.checks += len(e["comps"])
        if len(run.samples) < 3:
            run.samples.append(dict(ring=rg["name"], event={k: v for k, v in events[2].items() if k != "comps"}, components=events[2]["comps"][:2]))
    for i, why in bad:
        if why.startswith("machinery"):
            raise CheckError(why)
        if why.split(":")[0] in kinds:
            start = max(j for j in range(i) if events[j]["op"]["nm"] == "process")
            ev = events[i - 1]
            run.fail("key recording (%s): %s: %s" % (rg["name"], json.dumps(ev["op"]), why[:500]), dict(mode="keytrace-events", ring=rg, events=events[start:i]))
            break
    run.log("ring %s: %d histories, %d events, %d rejected" % (rg["name"], len(hs), len(events), len(bad)))


def plan(kinds):
    def f(run):
        run.tlc_exhaustive("MC_keygen", MOD.replace("KT", "MC_keygen"), cfg("mc", 6 if run.quick() else 8))
        q = run.quick()
        jobs = []
        for i, rg in enumerate(RINGS):
            heavy = rg[0]["logN"] > 10
            if heavy and q:
                continue
            n = (10 if q else 40)
            for s in range(1 if q else (4 if heavy else 16)):
                jobs.append((rg, max(4, n // 2) if heavy else n, 30 if q else 45, run.seed * 1000 + i * 50 + s))
        # one object used hundreds of times
        for i, k in enumerate([0, 3] if q else [0, 1, 2, 3, 4, 5]):
            jobs.append((RINGS[k], 2 if q else 6, 240 if q else 600, run.seed * 1000 + 900 + i))
        run.harness()
        pool_map(lambda j: one(run, kinds, j), jobs)
        run.notes["verdicts counted"] = sorted(kinds)
    return f
