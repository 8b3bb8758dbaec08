"""which models and which trace stages decide each property"""
import props_gs, props_mv, props_srt, props_num, props_fp, props_cm, gen_model as gm
from gen_gs import deviates, under, ONE, NARROW, NONBC
FAM = dict(props_gs.FAM); FAM.update(props_mv.FAM); FAM.update(props_srt.FAM); FAM.update(props_num.FAM); FAM.update(props_fp.FAM); FAM.update(props_cm.FAM)

def stage(name, n, fam, module, consts=None, **kw):
    return dict(name=name, n=n, fam=fam, module=module, consts=consts or {}, **kw)

GSN = {"G01": 1500, "G02": 1400, "G03": 700, "G04": 1000, "G05": 900, "G06": 1200, "G07": 1000, "G08": 1500}
MVN = {"M01": 1500, "M03": 1300, "M04": 1500, "M05": 1800}
SRN = {"S01": 2500, "S02": 2500, "S03": 3000}
NUN = {"N01": 2500, "N02": 3000, "N03": 3000, "N04": 1500}
FPN = {"F01": 4000, "F02": 2500, "F03": 2500, "F04": 2500, "F05": 4000, "F06": 1500}
def gs(prop, n, counting=False): return stage("gs-" + prop, n, FAM[prop], "GSTrace", {"Counting": "TRUE" if counting else "FALSE"})
def mv(prop, n, counting=False): return stage("mv-" + prop, n, FAM[prop], "MVTrace", {"Counting": "TRUE" if counting else "FALSE"})
# the same executions on other build configurations of the library
KIND = {"gs": (["G01", "G03", "G04", "G05", "G07", "G08"], "GSTrace"), "mv": (["M01", "M03", "M04", "M05", "M06"], "MVTrace"), "cm": (["M07"], "CommTrace"),
        "srt": (["S01", "S02", "S03"], "SortTrace"), "fp": (["F01", "F02", "F03", "F04", "F05", "F06"], "FPTrace"), "num": (["N01", "N02", "N03", "N04"], "NumTrace")}
def config(variant, flag, k, **n):
    def mix(names):
        f = lambda rng, sid: FAM[rng.choice(names)](rng, sid)
        return under(flag, f) if flag else f
    return [stage("%s-%s" % (variant, kind), c * k, mix(KIND[kind][0]), KIND[kind][1], {"Counting": "FALSE"} if kind in ("gs", "mv", "cm") else {}, variant=variant) for kind, c in n.items()]
CFN = ["C01", "C02", "C03"]
def configs(prop, k):
    if prop == "C01": return config("serial", ONE, k, gs=700, mv=700, cm=200, srt=500, fp=800, num=300)
    if prop == "C02": return config("int", NARROW, k, gs=300, mv=300, cm=60, srt=300, fp=350, num=80) + config("long", None, k, gs=300, mv=300, cm=60, srt=300, fp=350, num=80) + config("llong", None, k, gs=150, mv=150, srt=150, fp=150)
    if prop == "C03": return config("nonbc", NONBC, k, gs=700, mv=600, cm=150, fp=250)
def sampled(prop, tier):
    k = 1 if tier == "quick" else 12
    if prop in CFN: return configs(prop, k)
    if prop in GSN: return [stage(prop, GSN[prop] * k, FAM[prop], "GSTrace", {"Counting": "TRUE" if prop == "G04" else "FALSE"})]
    if prop in MVN: return [mv(prop, MVN[prop] * k)]
    if prop == "M02": return [gs("G04", 500 * k, True), gs("G01", 300 * k, True), mv("M01", 600 * k, True), mv("M03", 500 * k, True)]
    if prop == "M06": return [mv("M06", 1200 * k), gs("G05", 300 * k), gs("G07", 300 * k), stage("F06", 200 * k, FAM["F06"], "FPTrace"), stage("F04", 300 * k, FAM["F04"], "FPTrace")]
    if prop == "M07": return [stage(prop, 500 * k, FAM[prop], "CommTrace", {"Counting": "FALSE"})]
    if prop in SRN: return [stage(prop, SRN[prop] * k, FAM[prop], "SortTrace")]
    if prop == "N04": return [stage(prop + v, NUN[prop] * k, FAM[prop], "NumTrace", variant=v) for v in VARIANTS]
    if prop in NUN: return [stage(prop, NUN[prop] * k, FAM[prop], "NumTrace")]
    if prop in FPN: return [stage(prop, FPN[prop] * k, FAM[prop], "FPTrace")]
    raise SystemExit("no plan for " + prop)


# models: (module, constants, invariants, note, use) ; with "use" the behaviours TLC enumerates are replayed on the code
def model(module, consts, inv, spec="Spec", deadlock=True, use=None, note=""):
    cfg = "SPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK %s\n" % (spec, " ".join(inv), "TRUE" if deadlock else "FALSE")
    if consts: cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
    return dict(module=module, cfg=cfg, use=use, note=note or ", ".join("%s=%s" % kv for kv in consts.items()))
def gsmodel(n): return model("GSModel", dict(MaxCalls=n, Gen="TRUE"), ["Meaning", "Untouched", "Clean", "Tables", "Emit"], "MSpec", use="prog")
def gsproto(np, lo, hi, labs, flags=True): return model("GSProto", dict(NP=np, MinLen=lo, MaxLen=hi, Labs=labs, Flags="TRUE" if flags else "FALSE", Gen="TRUE"), ["Refines", "Agree", "Elects", "Emit"], "PSpec", deadlock=False, use="cfg")
def router(np, groups="none"): return model("Router", dict(NP=np, Groups='"%s"' % groups), ["NothingLost", "Logarithmic", "Delivered", "Summed", "NoStray"])
def tree(np, alg): return model("TreeReduce", dict(NP=np, Alg='"%s"' % alg), ["Totals", "Scans", "Cheap"])

def sortmodel(n, k, st): return model("SortModel", dict(MaxLen=n, K=k, StartLen=st, Algs='{"merge", "heap", "radix"}', Gen="TRUE"), ["Correct", "HeapOrder", "RadixPartial", "Emit"], deadlock=False, use="sort")
def permmodel(n, m, k): return model("PermModel", dict(MaxLen=n, MaxRec=m, K=k, Gen="TRUE"), ["Correct", "Emit"], deadlock=False, use="perm")
def transfer(np, m): return model("TransferModel", dict(NP=np, MaxRec=m, Gen="TRUE"), ["Held", "Transferred", "Routed", "Emit"], "TSpec", deadlock=False, use="dest")
def commmodel(np, cols, keys, msg): return model("CommModel", dict(NP=np, Cols="{%s}" % ", ".join(map(str, range(cols))), Keys="{%s}" % ", ".join(map(str, range(keys))), MaxMsg=msg, Gen="TRUE"), ["Parts", "Matched", "Emit"], deadlock=False, use="split")
def find(np, shape, ims, match, cells, field): return model("FindModel", dict(NP=np, Shape=shape, Ims=ims, Match=match, Cells=cells, Field='"%s"' % field, Gen="TRUE"), ["Right", "Asked", "Emit"], deadlock=False, use="find")
def evalmodel(np, args, ops): return model("EvalModel", dict(NP=np, Args="{%s}" % ", ".join(map(str, range(1, args + 1))), MaxOps=ops, Gen="TRUE"), ["Current", "Together", "Emit"], use="eval")
def handle(before, live, ops): return model("HandleModel", dict(Before=before, MaxLive=live, MaxOps=ops, Gen="TRUE"), ["Checked", "Right", "Fits", "Emit"], deadlock=False, use="hnd")
def nummodel(n, s): return model("NumModel", dict(MaxN=n, MaxS=s, Gen="TRUE"), ["Staged", "Arithmetic", "Chebyshev", "Emit"], deadlock=False, use="num")
def arraymodel(n): return model("ArrayModel", dict(MaxOps=n, Gen="TRUE"), ["Room", "Amortised", "Emit"], use="arr", deadlock=False)

def models(prop, tier):
    q = tier == "quick"
    if prop == "S01": return [sortmodel(6, 3, 4)] + ([] if q else [sortmodel(7, 3, 5), sortmodel(9, 2, 0), sortmodel(5, 5, 0)])
    if prop == "S02": return [permmodel(5, 4, 2)] + ([] if q else [permmodel(7, 3, 3), permmodel(0, 5, 2)])
    if prop in NUN: return [nummodel(12 if q and prop in ("N02", "N04") else 20, 2)] + ([] if q else [nummodel(28, 1)])
    if prop == "S03": return [arraymodel(3 if q else 4)]
    TR = [transfer(2, 3), transfer(3, 1), transfer(4, 1)] + ([transfer(3, 2)] if q else [transfer(3, 2), transfer(2, 4), transfer(5, 1)])
    if prop == "M01": return [router(p) for p in ((2, 3, 4, 5) if q else range(1, 8))] + TR
    HM = [handle(1, 2, 3), handle(5, 2, 2)] + ([] if q else [handle(1, 3, 4), handle(2, 3, 3), handle(8, 2, 2)])
    if prop == "M04": return TR + HM
    if prop == "F06": return HM
    if prop == "M03": return TR
    if prop == "M02": return [router(p) for p in ((3, 4, 5) if q else range(1, 8))] + [tree(p, a) for a in ("scan", "allreduce") for p in ((5, 6) if q else range(1, 10))] + [router(3, "all")]
    if prop == "M05": return [tree(p, a) for a in ("scan", "allreduce") for p in ((3, 5, 6, 7) if q else range(1, 12))]
    if prop == "M06": return [router(p) for p in ((4, 5) if q else range(1, 8))] + [tree(p, a) for a in ("scan", "allreduce") for p in ((5, 7) if q else range(1, 10))]
    if prop == "M07": return [commmodel(3, 2, 3, 4), commmodel(4, 2, 2, 0)] + ([] if q else [commmodel(5, 2, 2, 0), commmodel(4, 3, 2, 0), commmodel(2, 2, 3, 5)])
    if prop == "F01": return [find(2, 1, 0, 0, 3, "same"), find(3, 2, 0, 0, 4, "same")] + ([] if q else [find(4, 2, 0, 0, 7, "same"), find(1, 2, 0, 0, 1, "same")])
    if prop == "F02": return [find(3, 1, 0, 0, 2, "same"), find(2, 2, 0, 0, 3, "same")] + ([] if q else [find(3, 2, 0, 0, c, "same") for c in (1, 2, 5, 9)])
    if prop == "F05": return [find(3, 1, 0, 0, 5, "same")] + ([] if q else [find(3, 2, 0, 0, 11, "same"), find(4, 1, 0, 0, 3, "same")])
    if prop == "F03": return [evalmodel(2, 2, 4), evalmodel(3, 2, 3)] + ([] if q else [evalmodel(2, 3, 4), evalmodel(4, 2, 3)])
    if prop == "F04": return [find(2, 3, 1, 0, 3, "cross"), find(2, 4, 1, 1, 2, "const"), find(3, 3, 1, 0, 4, "cross")] + ([] if q else [find(3, 4, 1, m, c, f) for m, c, f in ((0, 4, "cross"), (1, 3, "cross"), (0, 1, "const"))])
    if prop == "G01": return [gsproto(3, 0, 2, "{1}", False), gsproto(2, 0, 2, "{1, 2}", False), gsproto(5, 0, 1, "{1}", False)] + ([] if q else [gsproto(3, 0, 2, "{1, 2}", False), gsproto(4, 0, 1, "{1, 2}", False), gsproto(7, 1, 1, "{1}", False), gsproto(2, 0, 3, "{1, 2}", False)])
    if prop == "G02": return [gsproto(2, 0, 2, "{1, 2}"), gsproto(4, 0, 1, "{1}")] + ([] if q else [gsproto(3, 2, 2, "{1}"), gsproto(4, 1, 1, "{1, 2}"), gsproto(5, 0, 1, "{1}"), gsproto(2, 3, 3, "{1}")])
    if prop == "G03": return [gsproto(2, 1, 2, "{1}"), gsproto(3, 0, 1, "{1, 2}"), router(3, "all")] + ([] if q else [gsproto(2, 0, 2, "{1, 2}"), gsproto(4, 1, 1, "{1, 2}"), gsproto(5, 1, 1, "{1}"), router(4, "all")])
    if prop == "G06": return [gsproto(3, 0, 1, "{1, 2}"), gsproto(4, 0, 1, "{1}")] + ([] if q else [gsproto(2, 0, 2, "{1, 2}"), gsproto(5, 0, 1, "{1}"), gsproto(3, 2, 2, "{1}")])
    if prop == "G05": return [gsmodel(6 if q else 7)]
    if prop == "G07": return [gsmodel(5 if q else 6)]
    if prop == "G08": return [gsmodel(5)] + HM
    return []

def stages(prop, tier):
    q = tier == "quick"; out = []
    if prop == "G03": out = [stage("enum", 600 if q else -1, lambda rng, it: gm.configs(rng, [c for c in it if not deviates(dict(enumerate(c)))]), "GSTrace", {"Counting": "FALSE"}, use="cfg")]
    if prop in ("G01", "G02"): out = [stage("enum", 600 if q else -1, gm.configs, "GSTrace", {"Counting": "FALSE"}, use="cfg")]
    if prop == "G06": out = [stage("enum", 600 if q else -1, lambda rng, it: gm.configs(rng, it, unique=True), "GSTrace", {"Counting": "FALSE"}, use="cfg")]
    if prop == "G05": out = [stage("enum", -1, gm.programs, "GSTrace", {"Counting": "FALSE"}, use="prog")]
    if prop == "G07": out = [stage("enum", -1, lambda rng, it: gm.programs(rng, it, live=True), "GSTrace", {"Counting": "FALSE"}, use="prog")]
    if prop == "G08": out = [stage("enum", -1, lambda rng, it: gm.programs(rng, it, fort=True), "GSTrace", {"Counting": "FALSE"}, use="prog")]
    for p, what in (("M01", "route"), ("M03", "array"), ("M04", "bounded")):
        if prop == p: out = [stage("enum", 900 if q else -1, lambda rng, it, what=what: gm.transfers(rng, it, what), "MVTrace", {"Counting": "FALSE"}, use="dest")]
    if prop == "M05": out = [stage("grid", -1, lambda rng, it: gm.grid(rng, [1, 2, 3, 4, 5, 6, 7] if q else range(1, 17)), "MVTrace", {"Counting": "FALSE"}, use="")]
    if prop in ("F01", "F02", "F04", "F05"): out = [stage("enum", 500 if q else -1, gm.finds, "FPTrace", use="find")]
    if prop == "F03": out = [stage("enum", 700 if q else -1, gm.evals, "FPTrace", use="eval")]
    if prop == "M07": out = [stage("enum", -1, props_cm.splits, "CommTrace", {"Counting": "FALSE"}, use="split")]
    if prop == "S01": out = [stage("enum", -1, lambda rng, it: gm.sorts(rng, it, 250 if q else 1500), "SortTrace", use="sort")]
    if prop == "S02": out = [stage("enum", -1, gm.perms, "SortTrace", use="perm")]
    if prop == "S03": out = [stage("enum", -1, gm.arrays, "SortTrace", use="arr")]
    if prop == "N04": out = [stage("enum-" + v, -1, lambda rng, it: gm.nums(rng, it, "N04"), "NumTrace", use="num", variant=v) for v in VARIANTS]
    elif prop in NUN: out = [stage("enum", -1, lambda rng, it: gm.nums(rng, it, prop), "NumTrace", use="num")]
    for p, what, mod in (("G08", "gs", "GSTrace"), ("M04", "cr", "MVTrace"), ("F06", "fp", "FPTrace")):
        if prop == p: out.append(stage("handles", 350 if q else 4000, lambda rng, it, what=what: gm.handles(rng, it, what), mod, {} if mod == "FPTrace" else {"Counting": "FALSE"}, use="hnd"))
    return sampled(prop, tier) + out


def assumptions(prop):
    return ["the simulated MPI (harness/sim.c) implements the MPI calls the library uses faithfully",
            "values are exact integers in the harness's encoding; TLC and the Json/IOUtils modules are trusted"]
CLAIMED = sorted(["M07"] + CFN + list(GSN) + list(MVN) + list(SRN) + list(NUN) + list(FPN) + ["M02", "M06"])
NA = {}
VARIANTS = ["std", "blas", "mxm"]
