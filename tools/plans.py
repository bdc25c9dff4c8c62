"""What each check runs."""
import json
from vlib import *
import mkhe, keyreg, rns, keytrace, lr
from mkhe import run_scenarios, model_check, share_model, workers_model, MC_PROP

J3 = ["join", "join", "join"]
J2 = ["join", "join"]


def scn(name, profile, mix, depth=25, prefix=None, **kw):
    d = dict(name=name, profile=profile, mix=mix, depth=depth, prefix=prefix or (J2 + ["encnew", "encnew"]))
    d.update(kw)
    return d


def spread(name, mix, quick, thorough, run, profiles=("std", "block", "sparse", "deep", "deeper", "tower", "off", "short", "sparse1", "full"), depth=25, **kw):
    """The same mix over several profiles; the first gets most of the behaviours."""
    n = quick if run.quick() else thorough
    w = {"std": 10, "block": 3, "sparse": 3, "deep": 3, "deeper": 1, "tower": 2, "off": 3, "short": 2, "sparse1": 1, "full": 1}
    tot = sum(w[p] for p in profiles)
    return [(scn(name + "-" + p, p, mix, depth=depth, **kw), max(10, n * w[p] // tot)) for p in profiles]


def crowd(name, mix, run, quick=120, thorough=4000, depth=30, tail=(), **kw):
    """Ten parties, eight of them there from the start; and thirty-six, thirty-four from the start."""
    q = run.quick()
    mix = dict(mix, gather=2)
    return [(scn(name + "-crowd", "crowd", mix, depth=depth, NP=10, prefix=["join"] * 8 + ["gather", "encexp", "gather", ["add", "mul"]] + list(tail), per=60, **kw), quick if q else thorough),
            (scn(name + "-throng", "throng", mix, depth=depth + 26, NP=36, prefix=["join"] * 34 + ["gather", "encexp", "gather", ["add", "mul"]] + list(tail), per=12, **kw), 24 if q else 600)]


def real(name, mix, run, **kw):
    """Rings of the size in use: N = 4096, and the parameter sets of the repository's tests."""
    kw = dict(dict(prefix=["join", "join", "encnew", "encexp"]), **kw)
    kw["NP"] = 2
    q = run.quick()
    mix = {c: k for c, k in mix.items() if c != "other"}
    r = [(scn(name + "-big", "big", mix, depth=25, per=2, **kw), 16 if q else 300), (scn(name + "-pn14", "pn14", mix, depth=25, per=1, **kw), 4 if q else 40)]
    if not q or name in ("encdec", "prod", "rot", "conj", "hoist"):
        r.append((scn(name + "-n16", "n16", mix, depth=22, per=1, **kw), 2 if q else 20))
    if not q:
        r.append((scn(name + "-pn15", "pn15", mix, depth=30, per=1, **kw), 6))
    return r


def long(name, mix, run, depth=220, **kw):
    """Few, long behaviours: the same objects used hundreds of times."""
    kw = dict(dict(prefix=["join", "join", "encnew", "encexp"], NP=4), **kw)
    return [(scn(name + "-long", "std", mix, depth=depth if run.quick() else 3 * depth, per=4, **kw), 24 if run.quick() else 600)]


ENC = {"encnew": 2, "encexp": 2, "encpt": 3}


def mc(run, name, mix, prefix=("join", "encnew"), dq=4, dt=6, **kw):
    model_check(run, name, mix, list(prefix), dq if run.quick() else dt, props=[x for x in MC_PROP if x != "Frame" or "par" not in mix], **kw)


def c01(run):
    mc(run, "MC_encdec", ["join", "encnew", "encexp", "encinto", "encpt", "dec", "rdec", "drop", "pdec", "copy", "leave", "return"], dq=5, dt=7)
    mix = {"encnew": 3, "encexp": 4, "encinto": 6, "encpt": 6, "encntt": 4, "dec": 5, "rdec": 7, "pdec": 1, "drop": 2, "pad": 1, "add": 1, "mul": 1,
           "setscale": 1, "join": 1, "copy": 1, "rescale": 1, "sub": 1, "decreg": 1}
    run_scenarios(run, spread("encdec", mix, 2200, 60000, run, prefix=["join", "join", "encnew"], NP=4) + real("encdec", mix, run) + long("encdec", mix, run))


def c02(run):
    mc(run, "MC_sum", ["encnew", "encpt", "add", "sub", "drop", "pdec", "pad", "setscale", "copy"], prefix=("join", "join", "encnew"), dq=5, dt=7)
    mix = {"encnew": 1, "encexp": 2, "encpt": 5, "add": 7, "sub": 9, "drop": 2, "pdec": 2, "pad": 1, "setscale": 3, "mul": 1, "mulc": 1, "rescale": 1, "copy": 1, "dec": 1}
    run_scenarios(run, spread("sum", mix, 2600, 80000, run, prefix=["join", "join", "encpt", "encnew"], NP=4) + crowd("sum", mix, run) + real("sum", mix, run) + long("sum", mix, run))


def c03(run):
    share_model(run)
    mc(run, "MC_prod", ["encnew", "encpt", "mul", "mulks", "add", "drop", "rescale", "conj"], prefix=("join", "join", "encnew"), dq=5, dt=6, MaxLvl=3)
    mix = {"encnew": 3, "encexp": 2, "encpt": 2, "mul": 8, "mulks": 4, "mulh": 2, "mulhks": 2, "add": 2, "sub": 2, "drop": 3, "pdec": 1, "pad": 1, "rot": 1, "conj": 1,
           "mulc": 1, "rescale": 1, "setscale": 1, "dec": 1, "hoist": 1}
    run_scenarios(run, spread("prod", mix, 2600, 80000, run, prefix=["join", "join", "encnew", "encnew"], NP=4) + crowd("prod", mix, run) + real("prod", mix, run) + long("prod", mix, run))


def c04(run):
    mc(run, "MC_const", ["encnew", "encpt", "encode", "mulpt", "mulc", "rescale", "drop", "add"], prefix=("join", "encnew"), dq=5, dt=6, MaxLvl=3)
    mix = {"encnew": 3, "encexp": 2, "encpt": 2, "encode": 4, "mulpt": 7, "mulc": 12, "rescale": 3, "drop": 3, "add": 1, "mul": 1, "pdec": 1, "pad": 1, "copy": 1,
           "setscale": 1, "dec": 1}
    run_scenarios(run, spread("const", mix, 2600, 80000, run, prefix=["join", "join", "encnew", "encode"]) + real("const", mix, run))


def c05(run):
    share_model(run)
    mc(run, "MC_rot", ["encnew", "rot", "rotks", "addcrs", "genrk", "drop", "conj"], prefix=("join", "join", "encnew"), dq=5, dt=6, Slots=4, NH=4)
    mix = {"encnew": 2, "encexp": 2, "encpt": 1, "rot": 14, "rotks": 4, "rothks": 1, "hoist": 1, "addcrs": 4, "genrk": 5, "add": 1, "mul": 1, "drop": 2, "conj": 1, "pdec": 1, "pad": 1, "rescale": 1, "dec": 1}
    run_scenarios(run, spread("rot", mix, 2400, 80000, run, prefix=["join", "join", "encnew", "encexp"], profiles=("std", "sparse", "full", "block", "deep", "deeper", "tower", "sparse1", "short")) + crowd("rot", mix, run) + real("rot", mix, run) + long("rot", mix, run))


def c06(run):
    share_model(run)
    mc(run, "MC_conj", ["encnew", "encpt", "conj", "rot", "drop", "mulc", "add"], prefix=("join", "join", "encnew"), dq=5, dt=6)
    mix = {"encnew": 2, "encexp": 2, "encpt": 3, "conj": 9, "conjks": 5, "rot": 1, "drop": 3, "mulc": 1, "add": 1, "mul": 1, "pdec": 2, "pad": 1, "rescale": 1, "dec": 1, "setscale": 1, "gencjk": 1}
    run_scenarios(run, spread("conj", mix, 2400, 80000, run, prefix=["join", "join", "encnew", "encexp"], NP=4) + crowd("conj", mix, run) + real("conj", mix, run) + long("conj", mix, run))


def c07(run):
    share_model(run)
    mc(run, "MC_hoist", ["encnew", "hoist", "mulh", "roth", "drop", "add", "addcrs", "genrk"], prefix=("join", "join", "encnew", "hoist"), dq=6, dt=7)
    mix = {"encnew": 2, "encexp": 2, "encpt": 1, "hoist": 6, "mulh": 7, "roth": 8, "mulhks": 3, "rothks": 4, "drop": 4, "add": 1, "mul": 1, "rot": 1, "addcrs": 2, "genrk": 3, "pdec": 1, "pad": 1,
           "delrk": 1, "delrlk": 1, "genrlk": 1, "copy": 1}
    run_scenarios(run, spread("hoist", mix, 2400, 80000, run, prefix=["join", "join", "encnew", "hoist", "encexp", "hoist"], NHo=3, NR=4, fresh=True) + crowd("hoist", mix, run, tail=["hoist", "hoist", "mulh"]) + real("hoist", mix, run, fresh=True, NHo=3, NR=4, prefix=["join", "join", "encnew", "hoist", "encexp", "hoist"]) + long("hoist", mix, run, NHo=3, NR=4, prefix=["join", "join", "encnew", "hoist", "encexp", "hoist"]))


def c08(run):
    mc(run, "MC_meta", ["encnew", "encpt", "mul", "mulc", "rescale", "rescaleerr", "drop", "add", "setscale"], prefix=("join", "encnew"), dq=5, dt=6, MaxLvl=3)
    mix = {"encnew": 2, "encexp": 1, "encpt": 4, "mul": 4, "mulh": 1, "mulc": 5, "encode": 2, "mulpt": 4, "rescale": 10, "rescaleerr": 3, "drop": 4, "add": 3, "sub": 3,
           "setscale": 3, "rot": 1, "conj": 1, "copy": 1, "copyto": 1, "mulks": 1, "roth": 1, "dec": 1}
    run_scenarios(run, spread("meta", mix, 2600, 80000, run, profiles=("std", "deep", "deeper", "tower", "off", "short", "block", "sparse")) + real("meta", mix, run))


def c09(run):
    share_model(run)
    mc(run, "MC_parts", ["join", "encnew", "encexp", "add", "mul", "pad", "pdec", "dec", "decreg", "leave", "return"], prefix=("join", "encnew"), dq=5, dt=6, NP=3)
    mix = {"join": 2, "encnew": 2, "encexp": 3, "add": 3, "sub": 3, "mul": 3, "mulks": 1, "rot": 1, "conj": 1, "copyto": 1, "mulc": 1, "pad": 4, "pdec": 3, "dec": 9, "decreg": 3, "rdec": 5,
           "leave": 2, "return": 2, "copy": 1, "encntt": 1, "drop": 1}
    run_scenarios(run, spread("parts", mix, 2600, 80000, run, profiles=("std", "block", "sparse", "deep", "deeper", "tower", "off"), NP=5, prefix=["join", "join", "encexp"]) + crowd("parts", mix, run) + real("parts", mix, run))


def c10(run):
    share_model(run)
    mc(run, "MC_pdec", ["encnew", "encexp", "pdec", "add", "rot", "dec", "copy"], prefix=("join", "join", "encexp"), dq=6, dt=7, NP=3)
    mix = {"encnew": 1, "encexp": 4, "encpt": 3, "encntt": 3, "pdec": 14, "dec": 3, "rdec": 3, "add": 3, "sub": 3, "mul": 2, "rot": 2, "conj": 1, "conjks": 1, "rotks": 1, "mulc": 1, "drop": 2, "rescale": 1,
           "copy": 1, "pad": 2, "encinto": 1}
    run_scenarios(run, spread("pdec", mix, 2600, 80000, run, profiles=("std", "block", "sparse", "deep", "deeper", "tower", "off", "short"), NP=4, prefix=["join", "join", "join", "encexp"]) + crowd("pdec", mix, run) + real("pdec", mix, run) + long("pdec", mix, run))


ALLMIX = {"encnew": 2, "encexp": 2, "encinto": 2, "encpt": 3, "add": 4, "sub": 4, "mul": 4, "mulks": 2, "mulh": 4, "hoist": 3, "roth": 4, "encode": 2, "mulpt": 3,
          "mulc": 4, "rot": 4, "rotks": 2, "mulhks": 2, "rothks": 2, "conj": 3, "conjks": 2, "copyto": 2, "drop": 3, "rescale": 4, "rescaleerr": 1, "pdec": 2, "dec": 2, "decreg": 1, "rdec": 2, "copy": 2, "pad": 1,
          "setscale": 1, "encntt": 1, "addcrs": 1, "genrk": 1}


def c11(run):
    mc(run, "MC_frame", ["encnew", "add", "mul", "mulh", "hoist", "rot", "conj", "drop", "rescale", "pdec", "copy", "scribble", "encinto", "mulc"], prefix=("join", "encnew"), dq=4, dt=5)
    mix = dict(ALLMIX, scribble=4, scribho=1, scribpt=1, rescale=5, copy=3, drop=4, leave=1, delrlk=1, delrk=1, delcjk=1)
    mix["return"] = 1
    run_scenarios(run, spread("frame", mix, 2600, 80000, run, prefix=["join", "join", "encnew", "encexp"], NR=6) + real("frame", mix, run) + long("frame", mix, run))


def c12(run):
    mc(run, "MC_fresh", ["encnew", "encpt", "add", "mul", "mulh", "hoist", "rot", "conj", "drop", "mulc", "dec"], prefix=("join", "encnew"), dq=4, dt=5)
    mix = dict(ALLMIX, leave=1, delrlk=1, delrk=1, join=1, encinto=3, dec=4, rdec=3, encntt=2, other=2)
    mix["return"] = 2
    run_scenarios(run, spread("fresh", mix, 1800, 60000, run, prefix=["join", "join", "encnew", "encexp"], fresh=True, depth=40, NP=4) + real("fresh", mix, run, fresh=True) + long("fresh", mix, run, fresh=True))


def c13(run):
    mc(run, "MC_dyn", ["join", "leave", "return", "addcrs", "genrk", "encnew", "add", "mul", "rot"], prefix=("join", "encnew"), dq=5, dt=6, NP=3)
    mix = {"join": 4, "leave": 4, "return": 4, "addcrs": 6, "genrk": 6, "genrlk": 1, "gencjk": 1, "encnew": 3, "encexp": 2, "add": 3, "sub": 2, "mul": 5, "rot": 5, "conj": 2,
           "hoist": 1, "roth": 2, "mulh": 1, "dec": 2, "decreg": 4, "pdec": 2, "drop": 1, "other": 2}
    a = spread("dyn", mix, 1600, 50000, run, profiles=("std", "block", "sparse", "deep", "deeper", "tower"), NP=5, prefix=["join", "encnew"], depth=35)
    b = spread("dynbare", dict(mix, genrlk=4, gencjk=3, genrk=8), 800, 30000, run, profiles=("std", "sparse"), NP=4, prefix=["join", "encnew"], depth=40, keys="mixed")
    run_scenarios(run, a + b + crowd("dyn", mix, run) + real("dyn", mix, run) + long("dyn", mix, run, NP=6))


def c15(run):
    mc(run, "MC_keys", ["genrlk", "gencjk", "genrk", "delrlk", "delcjk", "delrk", "encnew", "mul", "rot", "conj", "addcrs"], prefix=("join", "encnew"), dq=4, dt=5, keys="bare")
    mix = {"genrlk": 3, "gencjk": 3, "genrk": 7, "delrlk": 3, "delcjk": 2, "delrk": 4, "encnew": 2, "encexp": 2, "encpt": 1, "mul": 5, "mulks": 3, "mulh": 3, "hoist": 2, "roth": 4,
           "rot": 6, "rotks": 3, "rothks": 2, "mulhks": 2, "conj": 5, "conjks": 3, "addcrs": 3, "add": 1, "drop": 1, "leave": 1, "join": 1, "pdec": 1, "pad": 1}
    mix["return"] = 2
    a = spread("keys", mix, 1500, 50000, run, profiles=("std", "block", "sparse", "deep", "deeper", "tower"), NP=4, prefix=["join", "join", "encnew", "encexp"], depth=30, keys="mixed")
    b = spread("nokeys", mix, 1000, 30000, run, profiles=("std", "sparse"), NP=3, prefix=["join", "join", "encnew", "encexp"], depth=30, keys="bare")
    run_scenarios(run, a + b + real("keys", mix, run, keys="mixed") + long("keys", mix, run, keys="mixed"))


def c22(run):
    workers_model(run)
    mc(run, "MC_par", ["encnew", "par", "drop", "hoist"], prefix=("join", "join", "encnew"), dq=4, dt=5, NR=4, invs=mkhe.MC_INV + ["ParSerial"])
    mix = dict(ALLMIX, par=60, leave=1, join=1)
    mix["return"] = 1
    prefix = ["join", "join", "join", "encnew", "encexp", "encexp"]
    q = run.quick()
    run_scenarios(run, [(scn("par-" + p, p, mix, depth=30, prefix=prefix, NR=8, NHo=3, NP=4, per=30), n if q else 25 * n)
                        for p, n in (("std", 140), ("block", 40), ("sparse", 24), ("deep", 40), ("off", 24))] +
                  [(scn("par-big", "big", mix, depth=16, prefix=prefix, NR=8, NP=3, per=1), 3 if q else 60)])
    rns.workers(run)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12,
         "C13": c13, "C14": keyreg.plan, "C15": c15, "C16": rns.plan16, "C17": rns.plan17,
         "C18": keytrace.plan({"fresh", "law", "both"}), "C19": lr.plan({"values"}), "C20": lr.plan({"budget", "verdict"}), "C21": keytrace.plan({"relation", "both"}), "C22": c22}


def replay(path):
    d = json.load(open(path))
    run = Run(d["property"], "quick", 1)
    try:
        rp = d["replay"]
        if rp.get("mode") == "keytrace-events":
            bad = keytrace.validate(run, rp["events"])
            print("\n".join("event %d: %s" % (i, w) for i, w in bad) or "the recording is accepted")
            return 1 if bad else 0
        if rp.get("mode", "").startswith("lr-"):
            return lr.replay(run, rp)
        rep, rc, err = run_harness(run.harness(), rp.get("mode", "replay"), rp["input"], run.path("rep"))
        print(json.dumps(rep, indent=1) if rep else "process died (rc %d)\n%s" % (rc, err))
        return 1 if rep is None or rep["failures"] else 0
    finally:
        run.close()
