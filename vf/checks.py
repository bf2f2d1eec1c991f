"""What each property's check runs."""
from .core import Check, build, CheckError, TOOLS

CHECKS = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

CALIB_INV = ["TruthExplains", "TruthInFront", "BaseFrameFree", "OrderFree", "PairingVisible", "GuessShape", "CountsResiduals"]

def calib(c, mode, n, limit=60):
    binp = build("opt")
    cases = c.model("CalibGen", {"MODE": mode, "SEED": c.seed, "N": n}, CALIB_INV)
    return c.conform(binp, cases, "CalibTrace", {"MODE": mode}, limit=limit)

def circle(c, mode, n):
    binp = build("opt")
    cases = c.model("CircleGen", {"MODE": mode, "SEED": c.seed, "N": n}, ["OnCircle", "Translated"])
    return c.conform(binp, cases, "CircleTrace", {"MODE": mode}, tag="circle")

@check("C01")
def c01(c): calib(c, "C01", c.n(120, 2400))

@check("C02")
def c02(c): calib(c, "C02", c.n(120, 2400))

@check("C03")
def c03(c): calib(c, "C03", c.n(160, 4000)); circle(c, "C03", c.n(150, 4000))

@check("C04")
def c04(c): calib(c, "C04", c.n(140, 3000)); circle(c, "C04", c.n(80, 2000)); intrinsics(c, "C04", c.n(32, 500))

@check("C05")
def c05(c): calib(c, "C05", c.n(120, 2400))

def simple(c, gen, trace, n, inv, group="opt", consts=None, tconsts=None, limit=60, tag="t", env=None):
    """generate from one module, replay, judge with another"""
    binp = build(group)
    cases = c.model(gen, dict({"SEED": c.seed, "N": n}, **(consts or {})), inv, tag=tag)
    return c.conform(binp, cases, trace, dict(tconsts or {}), limit=limit, tag=tag, env=env)

@check("C06")
def c06(c): simple(c, "ProjGen", "ProjTrace", c.n(420, 8400), ["Inverse", "OnPlane", "ChainHolds"])

@check("C22")
def c22(c): simple(c, "ConvGen", "ConvTrace", c.n(560, 11000), ["Rigid", "Undone", "StepIsTurn"])

@check("C07")
def c07(c): simple(c, "CovGen", "CovTrace", c.n(600, 12000), ["Sound", "Informative", "PoorIsRefused"])

@check("C08")
def c08(c):
    binp = build("opt")
    n = c.n(90, 1800)
    cases = c.model("CalibGen", {"MODE": "C08", "SEED": c.seed, "N": n}, CALIB_INV)
    c.conform(binp, cases, "CalibCovTrace", {})
    circle(c, "C08", c.n(60, 1500))
    intrinsics(c, "C08", c.n(8, 160))

INTR_INV = ["Explained", "Ahead", "Undistorted", "Monotone"]
def intrinsics(c, mode, n):
    binp = build("opt")
    cases = c.model("IntrGen", {"MODE": mode, "SEED": c.seed, "N": n}, INTR_INV)
    return c.conform(binp, cases, "IntrTrace", {"MODE": mode}, tag="intr")

@check("C14")
def c14(c):
    intrinsics(c, "C14", c.n(60, 1200))
    simple(c, "SplitGen", "SplitTrace", c.n(150, 3000), ["ChainGuess", "Ahead", "Halves"], tag="split")

@check("C13")
def c13(c): simple(c, "HomoGen", "HomoTrace", c.n(320, 6400), ["Ahead", "Determined", "CornersFit"])

@check("C15")
def c15(c): simple(c, "NoiseGen", "NoiseTrace", c.n(180, 3600), ["SignFree", "Lone", "AngleSym"])

DOC_INV = ["Written", "OrderFree", "NoneOptional", "NoneAdded"]
@check("C09")
def c09(c): simple(c, "DocGen", "DocTrace", c.n(560, 8400), DOC_INV, consts={"MODE": "C09"})

@check("C10")
def c10(c): simple(c, "DocGen", "DocTrace", c.n(1120, 16800), DOC_INV, consts={"MODE": "C10"})

@check("C11")
def c11(c): simple(c, "DhGen", "DhTrace", c.n(240, 4800), ["Product", "Rigid", "OwnVariable", "Classical"])

@check("C16")
def c16(c): simple(c, "TargetGen", "TargetTrace", c.n(360, 7200), ["Distinct", "OrderFree", "Spoiled", "Pitch"], group="img")

@check("C19")
def c19(c): simple(c, "MarkerGen", "MarkerTrace", c.n(200, 4000), ["TwoMarkers", "Monotone", "StrangersIgnored", "Between"], group="img")

@check("C18")
def c18(c): simple(c, "BlobGen", "BlobTrace", c.n(600, 9000), ["Counted", "Demanding", "Off", "Negative", "NoDoubt", "Cones"], group="img")

@check("C17")
def c17(c): simple(c, "GridGen", "GridTrace", c.n(160, 3200), ["Marked", "Handed", "Incomplete"], group="img", limit=60)

@check("C12")
def c12(c): simple(c, "KinCalGen", "KinCalTrace", c.n(120, 2400), ["TruthExplains", "BaseFree", "OffsetIsParameter", "Indexed"], group="kin")

@check("C20")
def c20(c):
    simple(c, "StoreGen", "StoreTrace", c.n(300, 6000), ["Kept", "NeverMixed", "Unsure"], group="ros", tag="store")
    simple(c, "CorrSetGen", "CorrSetTrace", c.n(160, 3200), ["Told", "Shots"], group="ros", tag="corr")
    simple(c, "ConfigGen", "ConfigTrace", c.n(300, 6000), ["Needed", "There"], group="ros", tag="conf")

@check("C24")
def c24(c): simple(c, "CollectGen", "CollectTrace", c.n(400, 8000), ["OnlyReceived", "InOrder", "PerRequest", "Granted", "NothingBefore"], group="ros")

@check("C23")
def c23(c):
    from concurrent.futures import ThreadPoolExecutor
    build("tool_wrist")  # what the tools share
    with ThreadPoolExecutor(4) as ex:
        binp = dict(zip(TOOLS, ex.map(lambda k: build("tool_" + k), TOOLS)))
    cases = c.model("ToolGen", {"SEED": c.seed, "N": c.n(360, 7200)}, ["Once", "True", "Explained", "Nested", "OnlyFound"])
    c.conform(binp, cases, "ToolTrace", {})

# the calls of histories: (generator, constants, group of the operation, calls, parts that describe the object called)
POOL = [
    ("CalibGen", {"MODE": "C01"}, []), ("CalibGen", {"MODE": "C02"}, []), ("KinCalGen", {}, []), ("CircleGen", {"MODE": "C03"}, []), ("IntrGen", {"MODE": "C14"}, []), ("SplitGen", {}, []),
    ("ProjGen", {}, []), ("ConvGen", {}, []), ("CovGen", {}, []), ("HomoGen", {}, ["sampler"]), ("NoiseGen", {}, []),
    ("DocGen", {"MODE": "C09"}, []), ("DhGen", {}, ["links", "base"]), ("TargetGen", {}, []),
    ("MarkerGen", {}, ["t"]), ("BlobGen", {}, ["p"]), ("GridGen", {}, ["t"]),
]

@check("C21")
def c21(c):
    from .core import run_harness
    import json, os, re
    binp = build("hist")
    per = c.n(14, 60)
    kinds = []
    for gen, consts, parts in POOL:
        cases = c.model(gen, dict({"SEED": c.seed, "N": per * 2}, **consts), [], tag="pool")
        # "all blocks" means in the order of their addresses, which are the caller's
        cases = [x for x in cases if not (x["op"] == "cov" and x["req"]["all"])][:per]
        # every second call is made on the object of the one before
        for a, b in zip(cases[::2], cases[1::2]):
            if parts and a["op"] == b["op"]:
                b.update({k: a[k] for k in parts})
        for k, x in enumerate(cases):
            x["id"] = "%s%s-%d" % (gen, consts.get("MODE", ""), k)
            if x["op"] == "kincal":
                x["iters"] = 2        # (where a solve of that many parameters ends is up to rounding)
        kinds.append(cases)
    alone = run_harness(binp, [x for k in kinds for x in k], c.work, tag="alone", limit=60)
    good = {}
    for t in alone:
        if t["out"].get("status") in ("ok", "throw"):
            good[t["id"]] = t
    kinds = [[x for x in k if x["id"] in good] for k in kinds]
    most = min(len(k) for k in kinds)
    if most < 4:
        raise_short = [POOL[i][0] for i, k in enumerate(kinds) if len(k) < 4]
        from .core import CheckError
        raise CheckError("too few calls are answered at all: %s" % raise_short)
    pool = [kinds[i % len(kinds)][i // len(kinds)] for i in range(most * len(kinds))]
    path = os.path.join(c.work, "pool.ndjson")
    with open(path, "w") as f:
        for x in pool:
            f.write(json.dumps(x) + "\n")
    env = {"VF_POOL": path}
    # answers of the calls made alone
    ref = run_harness(binp, [{"id": "alone-%d" % i, "op": "history", "share": False, "lanes": [[{"n": i}]]} for i in range(len(pool))], c.work, tag="ref", limit=60, env=env)
    env["VF_ALONE"] = os.path.join(c.work, "alone.ndjson")
    with open(env["VF_ALONE"], "w") as f:
        for t in ref:
            f.write(json.dumps((t["out"].get("ends") or [{"d": "?", "got": []}])[0]) + "\n")
    c.model("HistGen", {"SEED": c.seed, "N": c.n(8, 60), "POOL": len(pool), "KINDS": len(kinds), "SCHED": True}, ["OneAnswer", "Answered", "Alive"], tag="sched")
    cases = c.model("HistGen", {"SEED": c.seed, "N": c.n(150, 2000), "POOL": len(pool), "KINDS": len(kinds), "SCHED": False}, ["OneAnswer", "Answered", "Alive"])
    for x in cases:
        for l in x["lanes"]:
            for n in l:
                n["op"] = pool[n["n"]]["op"]
    c.conform(binp, cases, "HistTrace", {}, limit=120, env=env, jobs=3, tries=8)
    # a replay is of use only with the calls it makes
    for t, why, module in c.rejects:
        t["calls"] = {str(n["n"]): pool[n["n"]] for l in t["in"]["lanes"] for n in l}
