"""scenario family: communicators and user messages among the library's own traffic"""
from gen_gs import *

class CM:
    """comms: slot -> [parts]; a part is the list of world ranks in id order"""
    def __init__(g, rng, sid, np=None):
        g.rng = rng; g.np = np or pick_np(rng, 1, 9); g.s = new_scn(rng, sid, g.np); g.c = {}; g.w = 0; g.aw = 0; g.k = 0; g.routers = {}
    def create(g, k, how, frm, cols=None, keys=None):
        rng = g.rng; parts = [list(range(g.np))] if frm < 0 else g.c[frm]; new = []; lab = 0; spec = {}
        for part in parts:
            if how != "split": new.append(part); spec.update({r: (0, 0, lab) for r in part}); lab += 1; continue
            col = cols or {}; key = keys or {}
            if not cols:
                nc = rng.choice([1, 2, 2, 3, len(part)]); base = rng.choice([0, 0, 5, 1 << 20]); step = rng.choice([1, 1, 2, 256, 65536, 1 << 24]); st = rng.choice(["same", "any", "rev", "few", "neg"])
                col = {r: base + step * rng.randrange(nc) for r in part}
                key = {r: {"same": 0, "any": rng.randrange(100), "rev": -i, "few": rng.randrange(2), "neg": rng.randrange(-3, 4)}[st] for i, r in enumerate(part)}
            for c in sorted(set(col[r] for r in part)):
                mem = sorted([r for r in part if col[r] == c], key=lambda r: (key[r], part.index(r)))
                new.append(mem); spec.update({r: (c, key[r], lab) for r in mem}); lab += 1
        for r in range(g.np): g.s.at(r, "mk %d %s %d %d %d %d" % (k, how, frm, spec[r][0], spec[r][1], spec[r][2]))
        g.c[k] = new
    def messages(g, ks, n):
        """n messages on communicators ks; every process posts its ends in an order of its own; -> rank -> request numbers"""
        if ONE[0]: return {}          # no messages without MPI
        rng = g.rng; ops = {r: [] for r in range(g.np)}; tags = rng.choice([[0], [0, 1], [0, 1, 2, 3, 7], [1, 257], [255, 256, 32767], [rng.randrange(1000)]]); order = rng.random() < .5
        for _ in range(n):
            k = rng.choice(ks); i = rng.randrange(len(g.c[k])); part = g.c[k][i]
            if len(part) > 16: continue
            a, b = rng.randrange(len(part)), rng.randrange(len(part)); tag = rng.choice(tags); size = [3, 0, 1, 8, 17][(tag + a + 2 * b) % 5]
            g.w += 1; x = " ".join(str(rng.randrange(256)) for _ in range(size))
            ops[part[a]].append("ps %d %d %d %d %d %s" % (g.w, k, b, tag, size, x)); g.w += 1
            ops[part[b]].append("pr %d %d %d %d %d" % (g.w, k, a, tag, size))
        out = {}
        for r, v in ops.items():
            if not order: rng.shuffle(v)
            for x in v: g.s.at(r, x)
            out[r] = [int(x.split()[1]) for x in v]
        return out
    def wait(g, pend):
        for r, v in pend.items():
            g.rng.shuffle(v)
            while v:
                m = g.rng.choice([1, 2, len(v)]); g.s.at(r, "pw " + " ".join(map(str, v[:m][:60]))); del v[:min(m, 60)]
    def blocking(g, k, n):
        for _ in range(n):
            part = g.rng.choice(g.c[k])
            if len(part) < 2: continue
            a, b = g.rng.sample(range(len(part)), 2); tag = g.rng.randrange(3); size = g.rng.choice([0, 1, 5, 33]); g.w += 1
            g.s.at(part[a], "bs %d %d %d %d %d %s" % (g.w, k, b, tag, size, " ".join(str(g.rng.randrange(256)) for _ in range(size)))); g.w += 1
            g.s.at(part[b], "br %d %d %d %d %d" % (g.w, k, a, tag, size))
    def collective(g, k):
        rng = g.rng; kind = rng.choice(["bar", "gsum", "gsum", "scan", "allred", "route", "bcast"]); w = g.aw; g.aw = (g.aw + 1) % 60
        if kind == "bar": g.s.all("bar %d %d" % (w, k)); return
        if kind == "gsum":
            me = rng.choice([1, 2, 3, 0])
            for r in range(g.np): g.s.at(r, "gsum %d %d %d %d" % (w, k, me, rng.randrange(-1000, 1000)))
            return
        if kind == "route":
            if k not in g.routers: g.routers[k] = len(g.routers); g.s.all("crnew %d %d" % (g.routers[k], k))
            for part in g.c[k]:
                for r in part:
                    n = rng.choice([0, 1, 3]); g.s.at(r, "route %d %d %s" % (g.routers[k], n, " ".join("%d %d %d" % (rng.randrange(len(part)), rng.randrange(4), rng.randrange(1 << 20)) for _ in range(n))))
            return
        for part in g.c[k]:
            n = rng.choice([1, 2, 3]); root = rng.randrange(len(part))
            for r in part:
                if kind == "bcast": g.s.at(r, "bcast %d %d %d %d %s" % (w, k, root, n, " ".join(str(rng.randrange(256)) for _ in range(n))))
                else: g.s.at(r, "%s %d %d 3 0 %d 0 0 %s" % (kind, w, k, n, " ".join(str(rng.randrange(-99, 99)) for _ in range(n))))
    def finish(g):
        for k in g.routers.values(): g.s.all("crdel %d" % k)
        g.s.all("live 0"); ks = list(g.c); g.rng.shuffle(ks)
        for k in ks: g.s.all("cfree %d" % k)
        g.s.all("live 1"); return g.s

def f_m07(rng, sid):
    g = CM(rng, sid); g.create(0, rng.choice(["init", "init", "check", "dup"]), -1); pend = []
    if ONE[0]: g.s.all("needs")
    for _ in range(rng.randrange(2, 6)):
        if len(g.c) < 6 and rng.random() < .6: g.create(len(g.c), rng.choice(["split", "split", "split", "dup", "init", "check"]), rng.choice(list(g.c)))
        if rng.random() < .8 and g.w < 150: pend.append(g.messages(rng.sample(list(g.c), min(len(g.c), 2)), rng.choice([1, 4, 10, 25])))
        if rng.random() < .3 and g.w < 200: g.blocking(rng.choice(list(g.c)), 3)
        for _ in range(rng.randrange(3)): g.collective(rng.choice(list(g.c)))
        if pend and rng.random() < .6: g.wait(pend.pop(rng.randrange(len(pend))))
        if rng.random() < .3: g.s.all("live 2")
    for p in pend: g.wait(p)
    if rng.random() < .08:
        k = rng.choice(list(g.c)); g.s.all("bar %d %d" % (g.aw, 0))
        for part in g.c[k]:
            for r in part: g.s.at(r, "mkbad %d %d" % (k, rng.choice([len(part) + 1, 0, len(part) - 1, 1000])))
        return g.s
    return g.finish()
def splits(rng, items):
    """every way to split (CommModel): colours and keys per rank"""
    out = []
    for i, (col, key) in enumerate(items):
        np = len(col); g = CM(rng, "split-%d" % i, np=np); g.create(0, "init", -1)
        a = rng.choice([0, 3]); st = rng.choice([1, 1, 256, 65536, 1 << 24]); ks = rng.choice([1, 1, 1000, 1 << 20]); ka = rng.choice([0, 0, -1, -2, 1 << 28]); keys = {r: ka + ks * k for r, k in enumerate(key)}
        g.create(1, "split", 0, {r: a + st * c for r, c in enumerate(col)}, keys)
        p = g.messages([0, 1], 8); g.collective(1); g.s.all("bar 50 1"); g.wait(p)
        if rng.random() < .5: g.create(2, "dup", 1); g.collective(2)
        out.append(g.finish())
    return out
FAM = {"M07": f_m07}
