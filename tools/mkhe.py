"""Behaviours of spec/MKHE.tla, replayed into mkckks/mkrlwe."""
import json, os, shutil
from vlib import *


def ring(name, logN, logSlots, logQ, logP, scaleB, stride=1, heavy=False):
    return dict(name=name, logN=logN, logSlots=logSlots, logQ=logQ, logP=logP, scaleB=scaleB, stride=stride, heavy=heavy)


# A profile fixes the constants of the model and the concrete parameter sets it stands for.
def prof(Slots, NH, MaxLvl, Q0B, QB, SB, NB, rings, PB=8):
    return dict(Slots=Slots, NH=NH, MaxLvl=MaxLvl, Q0B=Q0B, QB=QB, SB=SB, NB=NB, PB=PB, rings=rings)


Q45 = [55] + [45] * 4
PROFILES = {
    # every residue fully enumerable: N = 16, all slots, 2..6 special primes
    "std": prof(8, 8, 4, 55, 45, 45, 14, [ring("n4p%d" % k, 4, 3, Q45, [55] * k, 45) for k in (2, 3, 4, 5, 6)]),
    # larger rings, each model slot a block of real slots
    "block": prof(8, 8, 4, 55, 45, 45, 19, [ring("n6b", 6, 5, Q45, [55] * 2, 45, stride=4), ring("n8b", 8, 7, Q45, [55] * 3, 45, stride=16),
                                             ring("n7b", 7, 6, Q45, [55] * 4, 45, stride=8)]),
    # fewer slots than the ring has room for
    "sparse": prof(4, 16, 4, 55, 45, 45, 16, [ring("n5s2", 5, 2, Q45, [55] * 2, 45), ring("n5s2p4", 5, 2, Q45, [55] * 4, 45)]),
    "sparse1": prof(2, 8, 4, 55, 45, 45, 15, [ring("n4s1", 4, 1, Q45, [55] * 3, 45)]),
    # all slots of a larger ring, every rotation amount
    "full": prof(32, 32, 3, 55, 45, 45, 17, [ring("n6f", 6, 5, [55] + [45] * 3, [55] * 2, 45)]),
    # long modulus chain: many digits, uneven last digit
    "deep": prof(8, 8, 8, 55, 45, 45, 14, [ring("n4d%d" % k, 4, 3, [55] + [45] * 8, [55] * k, 45) for k in (2, 3, 4, 6)]),
    # the chain of the repository's largest test parameters
    "deeper": prof(8, 8, 13, 60, 54, 54, 14, [ring("n4e%d" % k, 4, 3, [60] + [54] * 13, [59] * k, 54) for k in (2, 3, 5)]),
    # the chain of the training programs: twenty levels
    "tower": prof(8, 8, 20, 55, 38, 38, 14, [ring("n4t%d" % k, 4, 3, [55] + [38] * 20, [50] * k, 38) for k in (2, 5, 8)]),
    # default scale far from the size of the moduli
    "off": prof(8, 8, 4, 58, 48, 40, 14, [ring("n4o%d" % k, 4, 3, [58] + [48] * 4, [58] * k, 40) for k in (2, 3, 4)]),
    # many participants
    "crowd": prof(8, 8, 4, 55, 45, 45, 17, [ring("n4c%d" % k, 4, 3, Q45, [55] * k, 45) for k in (2, 3, 4)]),
    # so many participants, with moduli of the largest size, that sums over all of them exceed a machine word
    "throng": prof(8, 8, 3, 60, 60, 52, 20, [ring("n4h%d" % k, 4, 3, [60] * 4, [60] * k, 52) for k in (2, 4)]),
    # the parameter sets the repository's own tests use, and a ring in between
    "big": prof(8, 8, 4, 55, 45, 45, 23, [ring("n12p%d" % k, 12, 11, Q45, [55] * k, 45, stride=256) for k in (2, 3, 4)]),
    "pn14": prof(8, 8, 5, 59, 52, 52, 24, [ring("PN14QP439", 14, 13, [59] + [52] * 5, [60] * 2, 52, stride=1024)]),
    "pn15": prof(8, 8, 13, 60, 54, 54, 25, [ring("PN15QP880", 15, 14, [60] + [54] * 13, [59] * 2, 54, stride=2048)]),
    # the largest ring in use, with a short chain
    "n16": prof(8, 8, 2, 55, 45, 45, 27, [ring("n16", 16, 15, [55, 45, 45], [55] * 2, 45, stride=4096, heavy=True)]),
    # short chain
    "short": prof(8, 8, 1, 55, 45, 45, 14, [ring("n4l%d" % k, 4, 3, [55, 45], [55] * k, 45) for k in (2, 3)]),
}


def scenario_files(sc, seed):
    p = PROFILES[sc["profile"]]
    name = "Scn"
    mix = ", ".join('"%s"' % c for c in expand(sc["mix"]))
    pre = ", ".join("{%s}" % ", ".join('"%s"' % c for c in (s if isinstance(s, (list, tuple)) else [s])) for s in sc.get("prefix", []))
    mod = "---- MODULE Scn ----\nEXTENDS MKHE\nMixD == <<%s>>\nPrefixD == <<%s>>\n====\n" % (mix, pre)
    c = dict(NP=sc.get("NP", 3), NR=sc.get("NR", 5), NHo=sc.get("NHo", 2), NPt=sc.get("NPt", 2), Slots=p["Slots"], NH=p["NH"], MaxLvl=p["MaxLvl"],
             Q0B=p["Q0B"], QB=p["QB"], SB=p["SB"], NB=p["NB"], PB=p["PB"], KMode='"%s"' % sc.get("keys", "all"), Depth=sc["depth"],
             Gen="TRUE" if not sc.get("enum") else "FALSE", Rec="TRUE")
    cfg = "CONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in c.items()) + "\n  Mix <- MixD\n  Prefix <- PrefixD\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    return name, mod, cfg


def expand(mix):
    """{'add': 3} or list -> sequence with repetition as weight"""
    if isinstance(mix, dict):
        return [c for c, w in mix.items() for _ in range(w)]
    return list(mix)


def behaviours(run, sc, num, seed):
    """Behaviours TLC generates for a scenario."""
    name, mod, cfg = scenario_files(sc, seed)
    if sc.get("enum"):
        args = ["-workers", str(CPUS)]
    else:
        args = ["-simulate", "num=%d" % num, "-depth", str(sc["depth"] + 1), "-workers", "1", "-seed", str(seed)]
    rc, out = run.tlc(mod, cfg, name, args)
    beh = []
    tail = []
    with open(out) as f:
        for l in f:
            if l.startswith('"BEH '):
                beh.append(json.loads(l)[4:])
            else:
                tail.append(l)
    txt = "".join(tail[-40:])
    if rc != 0 or not beh:
        raise CheckError("TLC generated no behaviours for %s (rc %d):\n%s" % (sc["name"], rc, txt[-3000:]))
    gen, dist = parse_states(txt)
    with run.lock:
        run.states += gen
    shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    return beh


def replay_input(sc, beh, seed, rings=None):
    rings = rings or sc.get("rings") or PROFILES[sc["profile"]]["rings"]
    return dict(rings=rings, fresh=bool(sc.get("fresh")), seed=seed, step_limit_s=60, workers=1, only=0,
                ring=[(i + seed) % len(rings) for i in range(len(beh))])


def inp_json(base, beh):
    d = dict(base)
    d["behaviours"] = [json.loads(b) if isinstance(b, str) else b for b in beh]
    return d


def shard(run, sc, num, seed):
    beh = behaviours(run, sc, num, seed)
    base = replay_input(sc, beh, seed)
    inp = inp_json(base, beh)
    rep, rc, err = run_harness(run.harness(), "replay", inp, run.path("rep"))
    if rep is None:
        # the process died: find the behaviour that kills it, in a process of its own
        if rc == 4 or "HARNESS-ERROR" in err:
            raise CheckError("harness: " + err)
        dead = None
        for i in range(len(beh)):
            one = dict(inp, behaviours=[inp["behaviours"][i]], ring=[inp["ring"][i]])
            r1, rc1, e1 = run_harness(run.harness(), "replay", one, run.path("rep"))
            if r1 is None:
                r2, rc2, e2 = run_harness(run.harness(), "replay", one, run.path("rep"))
                if r2 is None and "mk-lr/" in e2:
                    dead = (i, e2)
                    break
        if dead is None and "DATA RACE" in err and "mk-lr/" in err:
            run.fail("%s: the race detector reports a data race between workers with objects of their own" % sc["name"], dict(scenario=sc["name"], input=inp, stderr=err))
            return
        if dead is None:
            raise CheckError("the replay process died (rc %d) and the death did not reproduce: %s" % (rc, err[-800:]))
        i, e2 = dead
        lines = [x for x in e2.split("\n") if x.strip()]
        run.fail("%s: the process running the behaviour dies: %s" % (sc["name"], next((x for x in lines if "RACE" in x or "panic" in x or "fatal" in x), (lines or ["?"])[0])[:300]),
                 dict(scenario=sc["name"], input=dict(inp, behaviours=[inp["behaviours"][i]], ring=[inp["ring"][i]]), stderr=e2))
        return
    with run.lock:
        run.traces += rep["behaviours"]
        run.steps += rep["steps"]
        run.checks += rep["checks"]
        for k, v in (rep["ops"] or {}).items():
            run.ops[k] = run.ops.get(k, 0) + v
        for b in inp["behaviours"]:
            for o in b:
                run.outcomes[o["out"]] = run.outcomes.get(o["out"], 0) + 1
        if len(run.samples) < 3:
            b = inp["behaviours"][0]
            run.samples.append({"scenario": sc["name"], "ring": base["rings"][base["ring"][0]]["name"],
                                "steps": [brief(o) for o in b]})
        run.notes["max_error_to_bound_log2"] = max(run.notes.get("max_error_to_bound_log2", -999), rep["max_err_ratio_log2"])
    seen = 0
    for f in rep["failures"] or []:
        i = f["behaviour"]
        one = dict(inp, behaviours=[inp["behaviours"][i][:f["step"] + 1]], ring=[inp["ring"][i]])
        again = 0
        if seen < 2:
            for _ in range(3):
                r1, _, _ = run_harness(run.harness(), "replay", one, run.path("rep"))
                if r1 is None or r1["failures"]:
                    again += 1
        seen += 1
        op = inp["behaviours"][i][f["step"]]
        run.fail("%s: step %d (%s) on %s: %s [reproduced alone %d/3]" % (sc["name"], f["step"], json.dumps(brief(op)), f["ring"], f["reason"], again),
                 dict(scenario=sc["name"], input=one, failure=f))


def brief(o):
    r = {k: v for k, v in o.items() if k not in ("r", "msg") and not (k == "d" and v == 0)}
    if "sc" in r:
        s = r["sc"]
        r["sc"] = "2^%d*3^%d" % (s["t"], s["th"])
    return r


def run_scenarios(run, scens):
    """scens: list of (scenario, number of behaviours)."""
    run.harness()
    jobs = []
    for si, (sc, num) in enumerate(scens):
        if sc.get("enum"):
            jobs.append((sc, 0, run.seed))
            continue
        per = sc.get("per", 250)
        k = 0
        while num > 0:
            m = min(per, num)
            jobs.append((sc, m, (run.seed * 7919 + si * 101 + k * 13 + 1) % 2147483000))
            num -= m
            k += 1
    def job(j):
        if len(run.failures) >= 10:
            return
        shard(run, *j)
    pool_map(job, jobs)


# ---- exhaustive checks of the machine itself -------------------------------
MC_INV = ["TypeOK", "InvGood", "InvSum", "InvProd", "InvRot", "InvHo", "InvPDec"]
MC_PROP = ["Frame", "CrsGrows", "KeysStay", "LeaveFrame"]


def model_check(run, name, mix, prefix, depth, invs=None, props=None, NP=2, NR=3, Slots=2, NH=4, MaxLvl=2, keys="all"):
    mod = "---- MODULE %s ----\nEXTENDS MKHE\nMixD == <<%s>>\nPrefixD == <<%s>>\nASSUME InvBits\n====\n" % (
        name, ", ".join('"%s"' % c for c in mix),
        ", ".join("{%s}" % ", ".join('"%s"' % c for c in (s if isinstance(s, (list, tuple)) else [s])) for s in prefix))
    c = dict(NP=NP, NR=NR, NHo=1, NPt=1, Slots=Slots, NH=NH, MaxLvl=MaxLvl, Q0B=55, QB=45, SB=45, NB=14, PB=8, KMode='"%s"' % keys,
             Depth=depth, Gen="FALSE", Rec="FALSE")
    cfg = "CONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in c.items()) + "\n  Mix <- MixD\n  Prefix <- PrefixD\nSPECIFICATION Spec\n"
    cfg += "INVARIANTS " + " ".join(invs or MC_INV) + "\n"
    if props:
        cfg += "PROPERTIES " + " ".join(props) + "\n"
    cfg += "CHECK_DEADLOCK FALSE\n"
    run.tlc_exhaustive(name, mod, cfg)


# ---- the scheme below the interface ----------------------------------------
SHARE_INV = "INVARIANTS StandsFor Participants HoistedAgrees PadLaw Opened\n"


def share_files(name, mods, S, parties, NCt, NKeys, NEnc, msgs, MaxOps):
    mod = "---- MODULE %s ----\nEXTENDS MKShare\nModsD == <<%s>>\nMsgsD == {%s}\n====\n" % (
        name, ", ".join(map(str, mods)), ", ".join("[k \\in Slots |-> (%s) %% Q]" % m for m in msgs))
    cfg = "CONSTANTS\n  Mods <- ModsD\n  Msgs <- MsgsD\n  S = %d\n  Parties = {%s}\n  NCt = %d\n  NKeys = %d\n  NEnc = %d\n  MaxOps = %d\n" % (
        S, ", ".join(str(i + 1) for i in range(parties)), NCt, NKeys, NEnc, MaxOps)
    return mod, cfg + "SPECIFICATION Spec\n" + SHARE_INV + "CHECK_DEADLOCK FALSE\n"


def share_model(run):
    """MKShare: the equations of the implementation against the messages of the abstract machine."""
    if run.quick():
        run.tlc_exhaustive("Share22", *share_files("Share22", [2, 3], 2, 2, 2, 1, 1, ["1 + 3 * k"], 3))
        return
    run.tlc_exhaustive("Share22", *share_files("Share22", [2, 3], 2, 2, 2, 3, 1, ["1 + 3 * k", "5"], 3))
    run.tlc_exhaustive("Share43", *share_files("Share43", [2, 3], 4, 3, 2, 2, 1, ["1 + 3 * k"], 2))
    def sim(j):
        k, (mods, S, P, NCt) = j
        name = "ShareSim%d" % k
        mod, cfg = share_files(name, mods, S, P, NCt, 1, 1, ["1 + 7 * k * k", "5 + k", "2 * k + 1"], 7)
        rc, out = run.tlc(mod, cfg, name, ["-simulate", "num=8", "-depth", "8", "-workers", "1", "-seed", str(run.seed * 31 + k)])
        txt = open(out).read()
        if rc != 0:
            raise CheckError("TLC did not confirm MKShare (%s):\n%s" % (name, txt[-3000:]))
        gen, _ = parse_states(txt)
        with run.lock:
            run.states += gen
    pool_map(sim, list(enumerate([((3, 5), 2, 3, 3), ((3, 5, 7), 4, 3, 3), ((2, 5, 7), 4, 4, 3), ((5, 7, 11), 8, 3, 4), ((3, 4, 5, 7), 2, 4, 4)])))


# ---- workers ----------------------------------------------------------------
def workers_model(run):
    """Every interleaving of separate workers; and, as a check of the model, that sharing either object breaks it."""
    def files(name, W, jobs, vals, pool, scr):
        return ("---- MODULE %s ----\nEXTENDS Workers\n====\n" % name,
                "CONSTANTS\n  W = %d\n  NJobs = %d\n  Vals = {%s}\n  OwnPool = %s\n  OwnScratch = %s\nSPECIFICATION Spec\nINVARIANT Alone\nCHECK_DEADLOCK FALSE\n"
                % (W, jobs, ", ".join(map(str, range(1, vals + 1))), pool, scr))
    run.tlc_exhaustive("Workers2", *files("Workers2", 2 if run.quick() else 3, 2, 2, "TRUE", "TRUE"))
    for pool, scr in (("FALSE", "TRUE"), ("TRUE", "FALSE")):
        rc, out = run.tlc(*files("WorkersX", 2, 1, 2, pool, scr), "WorkersX", ["-workers", "1"])
        if "Invariant Alone is violated" not in open(out).read():
            raise CheckError("the model of workers does not notice shared objects")
