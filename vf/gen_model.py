"""scenarios from behaviours and configurations enumerated by TLC"""
from gen_gs import *
import props_gs
IDS = {1: {0: [5, 5, 0], 1: [7, -5]}, 2: {0: [3], 1: [4, 3, -3]}}      # the id lists of GSModel

def relabel(rng, ids):
    """the same pattern of equal ids under other numbers"""
    lab = sorted(set(abs(x) for v in ids.values() for x in v if x)); m = rng.choice([1, 1, 1, 3, (1 << 31) - 1, (1 << 40) + 1])
    new = dict(zip(lab, rng.sample(range(1, 4 * len(lab) + 3), len(lab))))
    return {r: [0 if not x else (1 if x > 0 else -1) * new[abs(x)] * m for x in v] for r, v in ids.items()}

def programs(rng, items, live=False, fort=False):
    """every program of collective calls of GSModel on the real code"""
    out = []
    for n, prog in enumerate(items):
        g = GS(rng, "prog-%d" % n, np=2); hh = {}; last = None
        if live: g.fixed_plan = True
        for f, h, w, t in prog:
            if f == "setup": hh[h] = g.setup(0, relabel(rng, IDS[h]), rng.choice([1, 2, 3, 1, 2, 3, 0]), fort=int(fort))
            elif f == "free": g.free(hh.pop(h), int(fort))
            elif f == "wait": g.s.all("%s %d" % ("fwait" if fort else "wait", w))
            else:
                op = rng.randrange(4 if fort else 5); m, k, lay = g.mode(); a = g.array(hh[h], rng.choice([DOUBLE, INT, LL] if fort else range(5)), op, k, lay, fort=int(fort))
                if f == "op": g.op(hh[h], a, op, t, m, rng.choice([-1, 0]), fort=int(fort))
                else: g.issue(w, hh[h], a, op, t, m, -1, fort=int(fort))
        out.append(props_gs.finish(g))
    return out

def configs(rng, items, unique=False):
    """every pattern of ids of GSProto, all exchanges, both directions"""
    out = []
    for n, cfg in enumerate(items):
        np = len(cfg); g = GS(rng, "cfg-%d" % n, np=np); ids = relabel(rng, {r: list(v) for r, v in enumerate(cfg)})
        if unique:
            i = g.nid; g.nid += 1
            for r, v in ids.items(): g.s.at(r, "ids %d %d %s" % (i, len(v), " ".join(map(str, v))))
            g.s.all("uniq %d %d %d" % (g.nu, i, 0)); g.nu += 1
        ops = [(rng.randrange(5), rng.randrange(5), t) + g.mode() for t in (0, 1)]
        for me in (1, 2, 3):
            h = g.setup(0, ids, me, unique=int(unique))
            for dom, op, t, m, k, lay in ops:
                a = g.array(h, dom, op, k, lay); g.op(h, a, op, t, m, rng.choice([-1, 0]))
        out.append(props_gs.finish(g))
    return out

# ---------------------------------------------------------------- local sorts, permutations, arrays
def small_codec(rng, K):
    """a codec that can tell 0..K-1 apart, and increasing tokens for them"""
    from props_srt import codec
    while 1:
        c, (lo, hi), inf = codec(rng)
        if hi - lo + 1 >= K: break
    st = rng.random()
    if st < .4: v = list(range(lo, lo + K)) if rng.random() < .5 else list(range(hi - K + 1, hi + 1))
    else: v = sorted(rng.sample(range(lo, hi + 1), K) if hi - lo < 10**6 else {rng.randint(lo, hi) for _ in range(9 * K)})[:K]
    if lo < 0 and rng.random() < .2: v = list(range(0, K)) if rng.random() < .5 else list(range(-K + 1, 1))
    if inf and K >= 2 and rng.random() < .3: v[0] = -1000000
    if inf and K >= 2 and rng.random() < .3: v[-1] = 1000000
    return c, v
def sorts(rng, items, big=250):
    """every small array (and starting permutation) of SortModel through the real sorts; some repeated to the radix range"""
    lines = []
    def emit(A, start, rep=1):
        K = max(A + [1]) + 1; c, v = small_codec(rng, K); w = 8 if c[0] in "13" else 4; n = len(A) * rep
        k = " ".join(str(v[x]) for x in A * rep); pad = rng.choice([0, 0, w, 8])
        if start:
            p = [x + b * len(A) for b in rng.sample(range(rep), rep) for x in start]
            lines.append("sp %s %d 1 %d %d %s %s" % (c, pad, rng.randrange(3), n, k, " ".join(map(str, p)))); return
        for f in range(3):
            if f == 0: lines.append("sv %s %d 0 %d %d %s" % (c, pad, rng.randrange(3), n, k))
            elif f == 1: lines.append("sv %s 0 1 %d %d %s" % (c, rng.randrange(3), n, k))
            else: lines.append("sp %s %d 0 %d %d %s " % (c, pad, rng.randrange(3), n, k))
    for A, start in items: emit(A, start)
    long = [x for x in items if len(x[0]) >= 2]
    for A, start in rng.sample(long, min(big, len(long))): emit(A, start, rng.randrange(-(-256 // len(A)), 300 // len(A) + 2))
    return pack(rng, "sorts", lines, 14, ["bfree %d" % b for b in range(3)])
def pack(rng, name, lines, per, tail=()):
    rng.shuffle(lines); out = []
    for i in range(0, len(lines), per):
        s = new_scn(rng, "%s-%d" % (name, i // per), 1)
        for x in lines[i:i + per]: s.at(0, x)
        for x in tail: s.at(0, x)
        out.append(s)
    return out
def perms(rng, items):
    lines = []
    for kind, d in items:
        if kind == "perm":
            for how in (0, 1, 2):
                size = rng.choice([1, 2, 3, 4, 7, 8, 12, 24, 33]); al = rng.choice([x for x in (1, 2, 4, 8) if size % x == 0])
                lines.append("pm %d %d %d %d %d %s" % (how, rng.randrange(3), size, al, len(d), " ".join(map(str, d))))
        else:
            for _ in range(2):
                ks = rng.sample(range(4), 2); cs = [small_codec(rng, 3) for _ in ks]
                lines.append("rs %d %d 2 %s %d %s" % (rng.randrange(3), rng.randrange(3), " ".join("%d %s" % (k, c[0]) for k, c in zip(ks, cs)), len(d), " ".join(str(cs[f][1][x[f]]) for x in d for f in (0, 1))))
    return pack(rng, "perms", lines, 12, ["bfree %d" % b for b in range(3)])
def arrays(rng, items):
    """every history of ArrayModel; several arrays alive at once"""
    out = []
    items = list(items); rng.shuffle(items)
    for i in range(0, len(items), 12):
        s = new_scn(rng, "arrays-%d" % i, 1); todo = [[g] + list(h) for g, h in enumerate(items[i:i + 12])]
        while todo:
            h = rng.choice(todo); g = h[0]
            if len(h) == 1: s.at(0, "af %d" % g); todo.remove(h); continue
            op, n = h.pop(1)
            s.at(0, "ai %d %d %d" % (g, rng.choice([1, 2, 4, 6, 8, 12, 40]), n if n or rng.random() < .5 else -1) if op == "init" else "%s %d %d" % ({"reserve": "ar", "cat": "ac", "resize": "az"}[op], g, n))
        out.append(s)
    return out

# ---------------------------------------------------------------- routing and transfers
def transfers(rng, items, what):
    """every way to address a few records (TransferModel), as messages, as records, as bounded tuples"""
    from props_mv import MV
    out = []
    for n, dest in enumerate(items):
        np = len(dest); g = MV.__new__(MV); GS.__init__(g, rng, "tr-%d" % n, np=np); g.k = {}; g.fk = {}; g.arrs = {}; g.w = 0
        k = g.router(0, 0)
        rec = [[(d, p * 64 + i + 1) for i, d in enumerate(v)] for p, v in enumerate(dest)]
        if what == "route":
            for _ in range(2):
                ln = rng.choice([lambda: 0, lambda: 1, lambda: rng.randrange(4), lambda: rng.choice([0, 1, 300])])
                for p in range(np): g.s.at(p, "route 0 %d %s" % (len(rec[p]), " ".join("%d %d %d" % (d, ln(), rng.randrange(1 << 20)) for d, t in rec[p])))
        if what == "array":
            for a, ss in ((0, 0), (1, 1)):      # with the return trip when senders are recorded
                size = 4 * rng.choice([2, 3, 4]); poff = 4 * rng.randrange(size // 4); g.arrs[a] = 1
                for p in range(np): g.s.at(p, "sa %d %d %d %d %s" % (a, size, poff, len(rec[p]), " ".join("%d %d" % x for x in rec[p])))
                for _ in range(1 + ss): g.s.all("satr %d 0 %d" % (a, ss))
            size = rng.choice([2, 3, 4, 5, 8, 12]); st = 4 * rng.choice([1, 2, 3]); g.arrs[2] = 1
            for p in range(np): g.s.at(p, "sa 2 %d -1 %d %s" % (size, len(rec[p]), " ".join("%d %d" % x for x in rec[p]))); g.s.at(p, "saext 2 0 %d %d %s" % (st, len(rec[p]), " ".join(str(x[0]) for x in rec[p])))
        if what in ("array", "bounded"):
            for cap in ([-1] if what == "array" else [max(map(len, rec)), rng.choice([0, 1, 2])]):
                An = rng.choice([2, 3]); ext = rng.randrange(2); ss = 0 if ext else rng.randrange(2); sizes = [rng.choice([8, 12]) if not ext else rng.choice([4, 6])] + [rng.choice([0, 1, 4, 8]) for _ in range(An - 1)]
                poff = 0 if ext else 4 * rng.randrange(sizes[0] // 4); st = 4 * rng.choice([1, 2])
                for p in range(np): g.s.at(p, "samany 0 %d %d %d %d %s %d %d %d %s" % (An, ext, ss, cap if cap < 0 else max(cap, len(rec[p])), " ".join(map(str, sizes)), poff, st, len(rec[p]), " ".join("%d %d" % x for x in rec[p])))
        if what == "bounded":
            g.frouter(0, 0)
            for lim in (0, 1, rng.choice([2, 9])):
                al = rng.randrange(2); mi = rng.choice([1, 2, 3]); kp = rng.randrange(mi) + 1; ml = rng.randrange(3) if al else 0; md = rng.randrange(3) if al else 0
                for p in range(np): g.s.at(p, "fct 0 %d %d %d %d %d %d %d %s" % (al, max(1, len(rec[p]) + (lim if lim < 9 else 9)) if lim else max(1, len(rec[p])), mi, ml, md, kp, len(rec[p]), " ".join("%d %d" % x for x in rec[p])))
        out.append(g.finish())
    return out
def grid(rng, nps):
    """reductions: every process count x kind x operation x type"""
    from props_mv import MV
    out = []
    for np in nps:
        for kind in ("allred", "scan", "red", "iallred"):
            for op in range(5):
                g = MV.__new__(MV); GS.__init__(g, rng, "grid-%d-%s-%d" % (np, kind, op), np=np); g.k = {}; g.fk = {}; g.arrs = {}; w = 0; ws = []
                for dom in range(5):
                    for n in (1, rng.choice([0, 2, 3, 7])):
                        sh, mod, vals = gen_vals(rng, dom, op, {r: n for r in range(np)}, 1)
                        for r in range(np): g.s.at(r, "%s %d 0 %d %d %d %d %d %s" % (kind, w, dom, op, n, sh, mod, " ".join(map(str, vals[r]))))
                        ws.append(w); w += 1
                if kind == "iallred":
                    for r in range(np):
                        for x in rng.sample(ws, len(ws)): g.s.at(r, "cwait %d" % x)
                out.append(g.finish())
    return out

# ---------------------------------------------------------------- point location
def finds(rng, items, how=None):
    """every way to deal a few elements (and sessions) of FindModel; every process asks for a row of points"""
    import props_fp as pf
    out = []
    for n, it in enumerate(items):
        np = len(it["sess"]); g = pf.FP(rng, "find-%d" % n, np=np); dim = rng.choice([2, 2, 2, 3]); ax = rng.randrange(dim); off = rng.randint(-9, 3); sc = rng.choice([1, 1, 2]); hi = [1, 1, 1]
        if rng.random() < .3: hi[(ax + 1) % dim] = 2
        phi = pf.Phi(rng, dim, rng.choice(["id", "id", "diag", "aff", "quad", None])); own = {r: [] for r in range(np)}
        for e, r in enumerate(it["own"]):
            b = [(0, hi[d]) for d in range(dim)]; b[ax] = (off + sc * it["shape"][e][0], off + sc * it["shape"][e][1]); own[r].append(b)
        names = rng.sample([0, 1, 2, 5, 70], 4); sess = {r: names[s] for r, s in enumerate(it["sess"])}
        df = {s: [(rng.choice([0, 3, 3, 40, -7]), 0, 0, 0)] + ([(rng.choice([-2, -1, 1, 2]),) + pf.U(ax)] if rng.random() < .6 else []) for s in names}
        ts = rng.choice([1, 2, 3, 7]) if it["ims"] or phi.curved else rng.choice([-1, 1, 2, 3, 7])
        k = g.mesh(rng.choice("cccf"), dim, phi=phi, own=own, ims=it["ims"], sess=sess, df=df, ts=ts)
        lo_, hi_ = min(a for a, b in it["shape"]), max(b for a, b in it["shape"]); P = {}
        for r in range(np):
            P[r] = []
            for u in range(2 * (off + sc * lo_) - 2, 2 * (off + sc * hi_) + 3):
                p = [rng.choice([0, 1, 1, 2, 2 * hi[d], rng.choice([-1, 2 * hi[d] + 1])]) for d in range(dim)]; p[ax] = u; P[r].append(p)
            if rng.random() < .5: rng.shuffle(P[r])
            if rng.random() < .3: P[r] = P[r][:rng.randrange(len(P[r]))]
        S = g.query(k, P=P, q=1, sids=names, match=it["match"])
        if rng.random() < .4: g.eval(k, S)
        out.append(g.done())
    return out
def evals(rng, items):
    """every history of searches and evaluations of EvalModel, with two ways for each process to give points"""
    import props_fp as pf
    out = []
    for n, hist in enumerate(items):
        np = max([len(h) for h in hist] + [2]); g = pf.FP(rng, "eval-%d" % n, np=np)
        k = g.mesh(rng.choice("cccf"), rng.choice([2, 2, 3])); f = g.K[k]; S = g.query(k, "in"); T = g.query(k, "in")
        way = {}
        for r in range(np):
            for a in (1, 2, 3):
                s = rng.choice([S, S, S, T]) if a > 1 else S; m = f["res"][s][r]; ix = list(range(m)); x = rng.choice(["all", "perm", "drop", "rep", "none", "other"]) if a > 1 else "all"
                if x == "perm": rng.shuffle(ix)
                elif x == "drop" and ix: ix.pop(rng.randrange(m))
                elif x == "rep" and ix: ix[rng.randrange(m)] = rng.randrange(m)
                elif x == "none": ix = []
                way[r, a] = (s, ix)
        for h in hist:
            if not h: g.query(k, rng.choice(["in", "mix"]), cnt=rng.choice([0, 1, 3])); continue
            t = g.field(f); sh = rng.choice([0, 2]); eo = rng.choice([0, 1, -2])
            for r in range(np):
                s, ix = way[r, h[r]]
                g.s.at(r, "fe %d %d %s %d %d %d %d %s" % (k, sh, t, eo, rng.randrange(32) if rng.random() < .5 else 0, s, len(ix), pf.J(ix)))
        out.append(g.done())
    return out

# ---------------------------------------------------------------- Fortran handles
def handles(rng, items, what):
    """every history of HandleModel; a freed number may be given out again, so it is only tried before the next set-up"""
    import props_mv as pm, props_fp as pf
    out = []
    for n, hist in enumerate(items):
        op, h = hist[-1]; fr = max([i for i, x in enumerate(hist[:-1]) if x == ["free", h]] + [-1]); news = [i for i, x in enumerate(hist) if x[0] == "new"]
        live = ["new", h] in hist[:-1] and fr < 0
        if fr >= 0 and news[-1] > fr: continue
        bad = op != "new" and not live; np = rng.choice([1, 2, 2, 3]); sid = "hnd-%d" % n; slot = {}
        if what == "gs": g = GS(rng, sid, np=np); a = None
        elif what == "cr": g = pm.MV(rng, sid); g.fk = {}
        else: g = pf.FP(rng, sid, np=np); ms = {}
        for i, (op, h) in enumerate(hist):
            if bad and i == len(hist) - 1:
                v = 10000 + slot[h] if h in slot else h if h < 0 else h + rng.choice([0, 0, 1, 40]); g.s.all("barrier 0")
                if what == "gs": g.s.all("raw %s %d %d %d %d" % ("free" if op == "free" else rng.choice(["gs", "vec", "many", "fields", "igs", "ivec", "imany"]), v, rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), a))
                elif what == "cr": g.s.all("fcraw %s %d" % ("free" if op == "free" else rng.choice(["isort", "sort", "itr", "tr"]), v))
                else: g.s.all("fbad %s%s %d" % ("free" if op == "free" else rng.choice(["find", "eval", "evloc"]), "ms" if (ms.get(h) if h in ms else rng.random() < .4) else "", v))
                break
            if op == "new":
                if what == "gs":
                    ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3])); undeviate(rng, ids); slot[h] = g.setup(rng.choice(list(g.comms)), ids, rng.choice([-1, 0, 1, 2, 3]), fort=1)
                    if a is None: a = g.array(slot[h], DOUBLE, ADD, 1, "v", fort=1)
                elif what == "cr": slot[h] = g.frouter(h)
                else:
                    ms[h] = rng.random() < .3
                    if ms[h]: dim = rng.choice([2, 3]); own = pf.deal(rng, pf.boxes(rng, dim)[:4], range(g.np)); slot[h] = g.mesh("f", dim, own=own, ims=1, sess={r: 4 for r in range(g.np)}, df={4: [(3, 0, 0, 0)]}, ts=rng.choice([1, 3, 7]), n=[2 + rng.randrange(2)] * dim, phi=pf.Phi(rng, dim, "id"))
                    else: dim = rng.choice([2, 2, 3]); slot[h] = g.mesh("f", dim, els=pf.boxes(rng, dim)[:4], n=[2 + rng.randrange(2)] * dim, phi=pf.Phi(rng, dim, "id"))
            elif op == "free":
                if what == "gs": g.free(slot[h], 1)
                elif what == "cr": g.s.all("fcdel %d" % slot[h]); del g.fk[slot[h]]
                else: g.free(slot[h])
            elif what == "gs":
                o = rng.randrange(4); dom = rng.choice([DOUBLE, INT, LL]); mode = rng.choice("pvm"); k = 1 if mode == "p" else 2; ar = g.array(slot[h], dom, o, k, {"p": "v", "v": "v", "m": "m"}[mode], fort=1)
                if rng.random() < .4: g.issue(0, slot[h], ar, o, rng.choice([0, 1]), mode, -1, fort=1); g.s.all("fwait 0")
                else: g.op(slot[h], ar, o, rng.choice([0, 1]), mode, -1, fort=1)
            elif what == "cr": (g.fct if rng.random() < .6 else g.fsort)(slot[h])
            else:
                f = g.K[slot[h]]; S = g.query(slot[h], "mix", cnt=2, **(dict(sids=[4, 5], match=rng.randrange(2)) if ms[h] else {}))
                if rng.random() < .5: g.eval(slot[h], S)
        out.append(g.s if bad else props_gs.finish(g) if what == "gs" else g.finish() if what == "cr" else g.done())
    return out

# ---------------------------------------------------------------- numerical kernels
def nums(rng, items, prop):
    """the cases of NumModel on the real kernels"""
    import props_num as pn
    out = []; J = pn.J
    scn = lambda n: new_scn(rng, "num-%d" % n, 1)
    if prop == "N03":
        for n in range(1, 41):
            s = scn(n); s.at(0, "qd 0 %d %d" % (n, 2 * n - 1)); n > 1 and s.at(0, "qd 1 %d %d" % (n, 2 * n - 3)); out.append(s)
    for i, (kind, a) in enumerate(items):
        s = scn(1000 + i); go = False
        if kind == "t" and prop == "N01" and a[0] > 1:
            n, k = a; c = [0] * n; c[k] = rng.choice([-3, -2, -1, 1, 2]); c[0] += rng.choice([0, 0, 4, -7]) if k else 0
            ms = sorted({2 * n, 2 * n + 1, rng.randrange(2 * n, 4 * n), 3 * n, 4 * n, rng.choice([5 * n, 8 * n])} if k else {2 * n, 3 * n})
            for m in ms: s.at(0, "b1 %d %d 1 %d %d %s" % (n, m, n - 1, 16, J(c)))
            go = True
        elif kind == "t" and prop == "N03":
            n, k = a; c = [0] * n; c[k] = rng.choice([-2, -1, 1, 3]); q = [(j, rng.choice([0, 1, 2, 2])) for j in [-16, 16, 0] + rng.sample(range(-15, 16), 3)] + [(1000 + j, rng.choice([0, 1, 2, 2])) for j in rng.sample(range(n), min(n, 3))]
            for gll in ((1,) if n > 8 else (0, 1)):
                if gll and n < 2: continue
                s.at(0, "lg %d %d %s %d %s %d %s" % (gll, n, "" if gll else J(rng.sample(range(-8, 9), n)), n - 1, J(c), len(q), " ".join(J(x) for x in q))); go = True
        elif kind == "or" and prop == "N02":
            perm, sg = a; dim = len(perm); n = [rng.choice([2, 3, 4, 5] if dim == 2 else [2, 3, 4]) for _ in perm]; m = [rng.randrange(2 * k, 4 * k + 1) for k in n]
            for ts in (-1, 0, 3, 7):
                els = []
                for _ in range(2):
                    sz = [rng.choice([1, 3, 8, 16, 31]) for _ in perm]      # a box with sides in any proportion, axes permuted and turned
                    els += ["2 %d 0 0 0 %d %s" % (rng.randint(-300, 300), sg[d] * sz[d], J(1 if e == perm[d] - 1 else 0 for e in range(3))) for d in range(dim)]
                s.at(0, "ob %d %s %s %d 6 2 %s" % (dim, J(n), J(m), ts, " ".join(els)))
            go = True
        elif kind == "tn" and prop == "N04":
            I = lambda n: J(rng.randint(-9, 9) for _ in range(n)); big = rng.choice([0, 0, rng.randrange(1, 18)])
            for op in ("dot", "mxv", "mtxv", "mxm", "mtxm", "i1", "i2", "i3", "ig1", "ig2", "ig3", "2t", "3t"):
                d = list(a)
                if op[0] != "3" and op[-1] != "3" and big: d[rng.randrange(4)] = big
                if op == "dot": v = 2 * d[0]
                elif op in ("mxv", "mtxv"): v = d[0] * d[1] + d[1]
                elif op in ("mxm", "mtxm"): v = d[0] * d[1] + d[1] * d[2]
                elif op[0] == "i":
                    for x in range(int(op[-1]), 3): d[x] = 1
                    v = (2 if op[1] == "g" else 1) * sum(d[:3]) + d[0] * d[1] * d[2]
                else:
                    if op == "2t": d[4] = d[5] = 1
                    v = d[1] * d[0] + d[3] * d[2] + d[5] * d[4] + d[1] * d[3] * d[5]
                s.at(0, "tn %s %s %s" % (op, J(d), I(v)))
            go = True
        if go: out.append(s)
    return out
