"""scenario families: crystal router, transfers, tuple interface, reductions and scans"""
from gen_gs import *

class MV(GS):
    def __init__(g, rng, sid, hi=16, lo=1):
        GS.__init__(g, rng, sid, hi=hi, lo=lo); g.k = {}; g.fk = {}; g.arrs = {}; g.w = 0
        g.bulk = rng.choice([300, 700]) if g.np < 5 and rng.random() < .08 else 0; g.per = 4096 if g.bulk else 64      # many records, messages, values at once
        if rng.random() < 0.3: g.split(1)
        if rng.random() < 0.15: g.dup(2, rng.choice(list(g.comms)))
    def comm(g): return g.rng.choice([0] + list(g.comms))
    def router(g, k=None, c=None):
        k = len(g.k) if k is None else k; c = g.comm() if c is None else c
        g.s.all("crnew %d %d" % (k, c)); g.k[k] = c; return k
    def frouter(g, k=None, c=None):
        k = len(g.fk) if k is None else k; c = g.comm() if c is None else c
        g.s.all("fcset %d %d" % (k, c)); g.fk[k] = c; return k
    def finish(g):
        for k in list(g.k): g.s.all("crdel %d" % k)
        for a in g.arrs: g.s.all("sadel %d" % a)
        for k in list(g.fk): g.s.all("fcdel %d" % k)
        for c in sorted(g.comms, reverse=True): g.s.all("cfree %d" % c)
        g.comms = {}; return g.s
    def dests(g, part, n):
        """n destinations within a communicator of len(part) processes"""
        rng = g.rng; P = len(part); st = rng.choice(["any", "any", "one", "shift", "self", "last", "few", "hot"])
        one = rng.randrange(P); few = [rng.randrange(P) for _ in range(2)]
        f = {"any": lambda i: rng.randrange(P), "one": lambda i: one, "shift": lambda i: i % P, "self": lambda i: None, "last": lambda i: P - 1,
             "few": lambda i: rng.choice(few), "hot": lambda i: one if rng.random() < .8 else rng.randrange(P)}[st]
        return [f(i) for i in range(n)]
    def route(g, k):
        rng = g.rng; style = rng.choice(["small", "small", "zero", "long", "mixed"]); nm = rng.choice([0, 1, 2, 5, 12])
        if g.bulk: style, nm = rng.choice(["small", "zero"]), g.bulk
        if rng.random() < .025 and g.np < 8: style = "huge"; nm = rng.choice([1, 2])
        for part in g.comms[g.k[k]]:
            for j, r in enumerate(part):
                n = rng.choice([0, nm, nm, rng.randrange(nm + 1)]); d = g.dests(part, n); o = []
                for i in range(n):
                    ln = {"small": rng.randrange(4), "zero": 0, "long": rng.choice([0, 1, 300, 900]), "mixed": rng.choice([0, 0, 1, 7, 64, 257]), "huge": rng.choice([3, 32769, 65536, 65539, 70000, 131075])}[style]
                    o += [j if d[i] is None else d[i], ln, rng.randrange(1 << 20)]
                g.s.at(r, "route %d %d %s" % (k, n, " ".join(map(str, o))))
                if rng.random() < .1: g.s.at(r, "pause 2")
    # records: g.arrs[a] = rank -> list of (destination, tag); a is bound to a communicator
    def newarr(g, a, c, ext=False):
        rng = g.rng
        if ext: size = rng.choice([1, 2, 3, 4, 5, 8, 12, 17]); poff = -1; pay = size
        else: size = 4 * rng.choice([1, 2, 2, 3, 4, 6]); poff = 4 * rng.randrange(size // 4); pay = size - 4
        if rng.random() < .02 and g.np < 8: size += 4 * rng.choice([17000, 66000]); pay = 9
        cap = 1 << min(24, 8 * pay); A = {"size": size, "poff": poff, "c": c, "rec": {}}
        nm = 2 if size > 60000 else g.bulk or rng.choice([0, 1, 3, 6, 15])
        for part in g.comms[c]:
            for j, r in enumerate(part):
                n = rng.choice([0, nm, nm, rng.randrange(nm + 1)]); d = g.dests(part, n); rec = []
                for i in range(n):
                    t = r * g.per + i + 1
                    rec.append((j if d[i] is None else d[i], t if t < cap else rng.randrange(cap) if cap > 1 else 0))
                A["rec"][r] = rec
                g.s.at(r, "sa %d %d %d %d %s" % (a, size, poff, n, " ".join("%d %d" % x for x in rec)))
        g.arrs[a] = A; return a
    def satr(g, a, k, ss):
        A = g.arrs[a]; new = {r: [] for r in A["rec"]}
        for part in g.comms[A["c"]]:
            for j, r in enumerate(part):
                for (p, t) in A["rec"][r]: new[part[p]].append((j if ss else p, t))
        A["rec"] = new; g.s.all("satr %d %d %d" % (a, k, ss))
    def saext(g, a, k):
        rng = g.rng; A = g.arrs[a]; new = {r: [] for r in A["rec"]}; st = 4 * rng.choice([1, 1, 2, 5])
        for part in g.comms[A["c"]]:
            for j, r in enumerate(part):
                d = g.dests(part, len(A["rec"][r])); d = [j if x is None else x for x in d]
                for p, (_, t) in zip(d, A["rec"][r]): new[part[p]].append((-1, t))
                g.s.at(r, "saext %d %d %d %d %s" % (a, k, st, len(d), " ".join(map(str, d))))
        A["rec"] = new
    def samany(g, k, cap=False):
        rng = g.rng; c = g.k[k]; An = rng.choice([1, 2, 3, 4]); ext = rng.randrange(2); ss = 0 if ext else rng.randrange(2)
        sizes = [rng.choice([0, 1, 3, 4, 8, 12, 20]) for _ in range(An)]
        if ext: sizes[0] = rng.choice([1, 4, 6, 8]); poff = 0
        else: sizes[0] = 4 * rng.choice([1, 2, 3]); poff = 4 * rng.randrange(sizes[0] // 4)
        st = 4 * rng.choice([1, 2, 3]); full = sizes[0] - (0 if ext else 4) >= 4 or any(x >= 4 for x in sizes[1:]); nm = g.bulk or rng.choice([0, 2, 6, 12])
        for part in g.comms[c]:
            for j, r in enumerate(part):
                n = rng.choice([0, nm, nm, rng.randrange(nm + 1)]); d = g.dests(part, n)
                cp = -1
                if cap: cp = rng.choice([n, n + 1, n + 3, max(n, nm), n + 40])
                o = " ".join("%d %d" % (j if d[i] is None else d[i], r * g.per + i + 1 if full else 0) for i in range(n))
                g.s.at(r, "samany %d %d %d %d %d %s %d %d %d %s" % (k, An, ext, ss, cp, " ".join(map(str, sizes)), poff, st, n, o))
    def fct(g, h):
        rng = g.rng; c = g.fk[h]; al = rng.randrange(2); mi = rng.choice([1, 2, 3, 5]); kp = rng.randrange(mi) + 1; ml = rng.randrange(3) if al else 0; md = rng.randrange(3) if al else 0
        nm = g.bulk or rng.choice([0, 2, 6, 12]); lim = rng.choice([0, 0, 1, 3, 40])
        for part in g.comms[c]:
            for j, r in enumerate(part):
                n = rng.choice([0, nm, nm, rng.randrange(nm + 1)]); d = g.dests(part, n)
                o = " ".join("%d %d" % (j if d[i] is None else d[i], r * g.per + i + 1) for i in range(n))
                g.s.at(r, "fct %d %d %d %d %d %d %d %d %s" % (h, al, max(n + lim, 1) if rng.random() < .9 else max(1, n), mi, ml, md, kp, n, o))
    def fsort(g, h):
        rng = g.rng; al = rng.randrange(2); mi = rng.choice([1, 2, 3]); ml = rng.randrange(3) if al else 0; md = rng.randrange(3) if al else 0
        if al and rng.random() < .2: mi = 0
        if mi + ml + md == 0: mi = 1
        if mi + ml == 0: mi = 1
        nk = rng.randrange(1, min(4, mi + ml) + 1); keys = [rng.randrange(mi + ml) + 1 for _ in range(nk)]      # reals are never keys
        if rng.random() < .7: keys = rng.sample(range(1, mi + ml + 1), nk)
        shift = rng.choice([0, 31, 33]); w = rng.choice([2, 10, 100000])
        for part in g.comms[g.fk[h]]:
            for r in part:
                n = rng.choice([0, 1, 2, 7, 30, 30, 300] if r == part[0] else [0, 3])
                rows = []
                neg = rng.random() < .4        # integer keys are compared as unsigned numbers, so integers are not negative
                for _ in range(n): rows += [rng.randrange(w) for _ in range(mi)] + [rng.randrange(w) for _ in range(ml)] + [rng.randrange(-w if neg else 0, w) for _ in range(md)]
                g.s.at(r, "fcsort %d %d %d %d %d %d %d %s %d %s" % (h, al, mi, ml, md, shift, nk, " ".join(map(str, keys)), n, " ".join(map(str, rows))))
    def reduce(g, pend):
        rng = g.rng; c = g.comm(); kind = rng.choice(["allred", "allred", "scan", "scan", "red", "dot", "bcast", "gather", "iallred", "iallred"]); w = g.w; g.w = (g.w + 1) % 60
        if NONBC[0] and kind == "iallred": kind = "allred"
        if kind in ("bcast", "gather"):
            for part in g.comms[c]:
                root = rng.randrange(len(part)); n = rng.choice([0, 1, 5, 200])
                for r in part: g.s.at(r, "%s %d %d %d %d %s" % (kind, w, c, root, n, " ".join(str(rng.randrange(256)) for _ in range(n))))
            return
        dom = rng.randrange(5); op = rng.randrange(5)
        if kind == "dot":
            sh = rng.choice([0, -20, 7])
            for part in g.comms[c]:
                for r in part:
                    n = rng.choice([0, 1, 4, 9]); g.s.at(r, "dot %d %d 0 0 %d %d 0 %s" % (w, c, n, sh, " ".join(str(rng.randrange(-3000, 3001)) for _ in range(2 * n))))
            return
        if kind == "red": lens = {r: rng.choice([0, 1, 2, 5, 9]) for r in range(g.np)}
        else: n = g.bulk + 1 if g.bulk and rng.random() < .5 else rng.choice([0, 1, 1, 2, 5, 17]); lens = {r: n for r in range(g.np)}
        sh, mod, vals = gen_vals(rng, dom, op, lens, 1)
        for part in g.comms[c]:
            for r in part: g.s.at(r, "%s %d %d %d %d %d %d %d %s" % (kind, w, c, dom, op, lens[r], sh, mod, " ".join(map(str, vals[r]))))
        if kind == "iallred":
            if rng.random() < 0.4: g.s.all("cwait %d" % w)
            else:
                for r in range(g.np): pend[r].append(w)

def f_m01(rng, sid):
    g = MV(rng, sid); g.router()
    if rng.random() < .4: g.router()
    for _ in range(rng.randrange(2, 6)): g.route(rng.choice(list(g.k)))
    return g.finish()
def f_m03(rng, sid):
    g = MV(rng, sid); k = g.router()
    for i in range(rng.randrange(2, 4)):
        x = rng.random()
        if x < .4:
            a = g.newarr(i, g.k[k]); g.satr(a, k, rng.randrange(2))
            for _ in range(rng.randrange(3)): g.satr(a, k, 1)
            if rng.random() < .3: g.satr(a, k, 0)
        elif x < .7:
            a = g.newarr(i, g.k[k], ext=True)
            for _ in range(rng.randrange(1, 3)): g.saext(a, k)
        else: g.samany(k)
        if rng.random() < .2: g.route(k)
    return g.finish()
def f_m04(rng, sid):
    g = MV(rng, sid, hi=9); h = g.frouter()
    if rng.random() < .3: g.router()
    for step in range(rng.randrange(3, 8)):
        x = rng.random()
        if x < .15 and len(g.fk) < 5: g.frouter(max(list(g.fk) + [step]) + 1)
        elif x < .25 and len(g.fk) > 1: k = rng.choice(list(g.fk)); del g.fk[k]; g.s.all("fcdel %d" % k)
        elif x < .6: g.fct(rng.choice(list(g.fk)))
        elif x < .75 and g.k: g.samany(0, cap=True)
        else: g.fsort(rng.choice(list(g.fk)))
    if rng.random() < .3:
        g.s.all("barrier 0"); fn = rng.choice(["isort", "sort", "itr", "tr", "free"]); kind = rng.choice(["neg", "big", "freed", "key", "np"]); h = rng.choice(list(g.fk))
        if kind == "np": g.s.all("fcraw setup %d" % rng.choice([1, -1, 5, -g.np]))
        elif kind == "neg": g.s.all("fcraw %s %d" % (fn, rng.choice([-1, -7, -100000])))
        elif kind == "big": g.s.all("fcraw %s %d" % (fn, rng.choice([40, 99, 9999])))
        elif kind == "key": g.s.all("fcraw badkey %d %d" % (10000 + h, rng.choice([0, -1, 3, 4, 50])))
        else: g.s.all("fcdel %d" % h); g.s.all("barrier 0"); g.s.all("fcraw %s %d" % (fn, 10000 + h))
        return g.s
    return g.finish()
def f_m05(rng, sid):
    g = MV(rng, sid); pend = {r: [] for r in range(g.np)}
    for _ in range(rng.randrange(4, 10)): g.reduce(pend)
    for r in range(g.np):
        rng.shuffle(pend[r])
        for w in pend[r]: g.s.at(r, "cwait %d" % w)
    return g.finish()
def f_m06(rng, sid):
    """everything at once on a few communicators"""
    g = MV(rng, sid); pend = {r: [] for r in range(g.np)}
    g.s.eager = rng.choice([0, 0, 0, 16]); g.s.pol = rng.choice([2, 3, 4, 5, 1]); g.s.fill = rng.choice([0xA5, 0xFF])
    g.router(); g.router(); g.frouter(); a = None
    for i in range(rng.randrange(4, 8)):
        x = rng.random()
        if x < .3: g.route(rng.randrange(2))
        elif x < .55: g.reduce(pend)
        elif x < .7: a = g.newarr(i, g.k[0]); g.satr(a, 0, rng.randrange(2))
        elif x < .85: g.samany(1, cap=rng.random() < .3)
        else: g.fct(0)
        if rng.random() < .3:
            for r in range(g.np):
                if rng.random() < .5: g.s.at(r, "pause %d" % rng.randrange(4))
    for r in range(g.np):
        rng.shuffle(pend[r])
        for w in pend[r]: g.s.at(r, "cwait %d" % w)
    return g.finish()
FAM = {"M01": f_m01, "M03": f_m03, "M04": f_m04, "M05": f_m05, "M06": f_m06}
