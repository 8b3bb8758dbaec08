"""scenario families: point location (distributed, Fortran, multi-session, local) and evaluation"""
from gen_gs import *
J = lambda v: " ".join(map(str, v))
def U(d): return tuple(1 if i == d else 0 for i in range(3))
def terms(t): t = [x for x in t if x[0]] or [(0, 0, 0, 0)]; return "%d %s" % (len(t), " ".join(J(x) for x in t))
def det(A, n): return A[0][0] * A[1][1] - A[0][1] * A[1][0] if n == 2 else sum(A[0][i] * (A[1][(i + 1) % 3] * A[2][(i + 2) % 3] - A[1][(i + 2) % 3] * A[2][(i + 1) % 3]) for i in range(3))
class Phi:
    def __init__(f, rng, dim, kind=None):
        f.kind = kind = kind or rng.choice(["id", "id", "diag", "aff", "quad", "quad", "quadaff"]); f.sh = sh = 4 if kind in ("hair", "bent", "warp") else rng.choice([3, 4]) if kind != "id" else rng.choice([0, 2]); u = 2 ** sh
        rows = []      # polynomials: dict exponent -> coefficient
        for d in range(dim):
            p = {U(d): u}
            if kind == "diag": p = {U(d): rng.choice([-1, 1]) * rng.choice([3, 5, 8, 17, 40]), (0, 0, 0): rng.randint(-99, 99)}
            if kind == "warp":
                p[(0, 0, 0)] = rng.randint(-20, 20)
                for _ in range(rng.choice([1, 1, 2])):
                    k = [0, 0, 0]; a, b = rng.choice([(0, 1)] if dim == 2 else [(0, 1), (1, 2), (0, 2)]); k[a] = k[b] = 1; p[tuple(k)] = rng.choice([-1, 1]) * rng.randint(7, 12)
            if kind == "bent":
                for e in range(d + 1, dim):
                    if rng.random() < .8: k = [0, 0, 0]; k[e] = 2; p[tuple(k)] = rng.choice([-1, 1]) * rng.randint(7, 12)
            if kind == "hair": p = {U(d): rng.choice([-5, -3, 3, 5]), (0, 0, 0): rng.randint(-60, 60)}
            if kind in ("quad", "quadaff"):
                for e in range(d + 1, dim):
                    if rng.random() < .7: k = [0, 0, 0]; k[e] = 2; p[tuple(k)] = p.get(tuple(k), 0) + rng.choice([-1, 1]) * (1 if sh == 4 or rng.random() < .3 else 0)
                if dim == 3 and d == 0 and rng.random() < .5: p[(0, 1, 1)] = p.get((0, 1, 1), 0) + rng.choice([-1, 1])
            rows.append(p)
        if kind in ("aff", "quadaff"):
            while 1:
                A = [[rng.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(dim)] for _ in range(dim)]; nrm = [sum(A[i][d] ** 2 for i in range(dim)) ** .5 for d in range(dim)]
                if min(nrm) and abs(det(A, dim)) > .5 * nrm[0] * nrm[1] * (nrm[2] if dim == 3 else 1): break
            new = []
            for i in range(dim):
                p = {(0, 0, 0): rng.randint(-200, 200)}
                for d in range(dim):
                    for k, c in rows[d].items(): p[k] = p.get(k, 0) + A[i][d] * c
                new.append(p)
            rows = new
        f.rows = [terms([(c,) + k for k, c in p.items()]) for p in rows]; f.curved = kind in ("quad", "quadaff", "bent", "warp")
def boxes(rng, dim, at=None, many=False):
    """disjoint integer boxes covering a block, some left out, some split"""
    cuts = []
    for d in range(dim):
        k = rng.choice([1, 2, 2, 3, 4] if dim == 2 else [1, 2, 2, 3]) if not many else rng.choice([7, 9, 12]) if dim == 2 else rng.choice([3, 4, 5]); w = [rng.choice([1, 2, 2, 3, 4, 6] if not many else [1, 1, 2, 2, 3]) for _ in range(k)]; x = rng.randint(-12, 2) if at is None else at + rng.randint(-3, 1); c = [x]
        for a in w:
            if c[-1] + a <= 16: c.append(c[-1] + a)
        if len(c) == 1: c.append(c[0] + 2)
        cuts.append(c)
    out = [[]]
    for c in cuts: out = [b + [(c[i], c[i + 1])] for b in out for i in range(len(c) - 1)]
    drop = rng.choice([0, 0, .15, .4]); out = [b for b in out if rng.random() >= drop]
    if rng.random() < .4:
        new = []
        for b in out:
            d = rng.randrange(dim)
            if b[d][1] - b[d][0] > 1 and rng.random() < .4: m = rng.randrange(b[d][0] + 1, b[d][1]); new += [b[:d] + [(b[d][0], m)] + b[d + 1:], b[:d] + [(m, b[d][1])] + b[d + 1:]]
            else: new.append(b)
        out = new
    lim = 100 if many else 14 if dim == 2 else 9
    if len(out) > lim: out = rng.sample(out, lim)
    return out
def orient(rng, b):
    dim = len(b); p = list(range(dim)); s = [1] * dim
    if rng.random() < .6: rng.shuffle(p)
    if rng.random() < .6: s = [rng.choice([-1, 1]) for _ in p]
    return "%s %s %s %s" % (J(x[0] for x in b), J(x[1] for x in b), J(p), J(s))
def deal(rng, items, ranks):
    """items to ranks"""
    style = rng.choice(["rand", "block", "one", "some", "rr"]); own = {r: [] for r in ranks}; rs = list(ranks); some = rng.sample(rs, max(1, len(rs) // 2)); one = rng.choice(rs)
    for i, x in enumerate(items):
        r = rng.choice(rs) if style == "rand" else rs[i * len(rs) // max(1, len(items))] if style == "block" else one if style == "one" else rng.choice(some) if style == "some" else rs[i % len(rs)]
        own[r].append(x)
    for v in own.values(): rng.shuffle(v)
    return own
def pts(rng, dim, els, n, q, style):
    """logical query points in units 2^-q"""
    u = 1 << q; out = []; lo = [min([b[d][0] for b in els] or [0]) for d in range(dim)]; hi = [max([b[d][1] for b in els] or [1]) for d in range(dim)]
    for _ in range(n):
        k = style if style in ("far", "hair") else rng.choice(["in", "in", "in", "face", "vert"] if style == "in" else ["in", "face", "vert", "out", "out", "near", "near", "far"] if style == "mix" else ["in", "face", "vert", "out", "out", "near", "near", "side"] if style == "solve" else ["out", "near", "near", "near", "gap", "gap", "far", "face"])
        if not els and k in ("in", "face", "vert", "near", "gap", "hair", "side"): k = "out"
        b = rng.choice(els) if els else None
        if k == "in": p = [rng.randrange(a * u + 1, c * u) for a, c in b]
        elif k == "face": p = [rng.choice([a * u, c * u, rng.randint(a * u, c * u), rng.randint(a * u, c * u)]) for a, c in b]
        elif k == "vert": p = [rng.choice([a, c]) * u for a, c in b]
        elif k == "hair":     # a hair's breadth (some 2^-22) beyond the faces or within them
            p = [rng.randint(a * u, c * u) for a, c in b]
            for d in rng.sample(range(dim), rng.randint(1, dim)): i = rng.randrange(2); p[d] = b[d][i] * u + rng.choice([0, 1, 1, 2, 3, 5, 8]) * rng.choice([1, -1])
        elif k == "near":
            p = [rng.randint(a * u, c * u) for a, c in b]
            for d in rng.sample(range(dim), rng.randint(1, dim)): p[d] = rng.choice([b[d][0] * u - rng.choice([1, 2, 3, u // 2]), b[d][1] * u + rng.choice([1, 2, 3, u // 2])])
        elif k == "gap":      # (almost) equally far from two elements
            p = [rng.randint(a * u, c * u) for a, c in b]; o = rng.choice(els); ds = [d for d in range(dim) if b[d][1] < o[d][0] or o[d][1] < b[d][0]]
            for d in ds:
                x, y = (b[d][1], o[d][0]) if b[d][1] < o[d][0] else (o[d][1], b[d][0]); p[d] = (x + y) * u // 2 + rng.choice([-1, 0, 0, 1, 2])
            for d in range(dim):
                if d not in ds and max(b[d][0], o[d][0]) < min(b[d][1], o[d][1]): p[d] = rng.randint(max(b[d][0], o[d][0]) * u, min(b[d][1], o[d][1]) * u)
        elif k == "side":     # beyond some faces, level with the others' corners or between
            p = [rng.choice([x * u for x in (a, c)] + [rng.randint(a * u, c * u), (a - rng.randint(1, 6)) * u, (c + rng.randint(1, 6)) * u]) for a, c in b]
        elif k == "out": p = [rng.randint((lo[d] - 4) * u, (hi[d] + 4) * u) for d in range(dim)]
        else: p = [rng.randint(-40 * u, 40 * u) for d in range(dim)]
        out.append(p)
    return out
class FP:
    def __init__(g, rng, sid, np=None, lo=1, hi=6):
        g.rng = rng; g.np = 1 if ONE[0] else np or rng.choice([x for x in [1, 2, 2, 3, 3, 4, 5, 6] if lo <= x <= hi]); g.s = new_scn(rng, sid, g.np); g.K = {}; g.nk = 0; g.nres = 0; g.comms = {0: [list(range(g.np))]}
        g.s.all("comm 0 init -1"); g.s.all("live 1"); g.bad = False
    def split(g, slot):
        rng = g.rng; k = rng.choice([1, 2, 2, 3]); col = {r: rng.randrange(k) for r in range(g.np)}; groups = [[r for r in range(g.np) if col[r] == c] for c in range(k)]; groups = [x for x in groups if x]; lab = {c: i for i, c in enumerate(sorted(set(col.values())))}
        for r in range(g.np): g.s.at(r, "comm %d split 0 %d %d %d" % (slot, col[r], r, lab[col[r]]))
        g.comms[slot] = groups; return groups
    def mesh(g, how="c", dim=None, ranks=None, comm=0, phi=None, els=None, ims=0, sess=None, own=None, ts=None, n=None, df=None):
        """sets up one finder on the given processes; returns its number"""
        rng = g.rng; dim = dim or rng.choice([2, 2, 3]); ranks = list(range(g.np)) if ranks is None else ranks; phi = phi or Phi(rng, dim); els = boxes(rng, dim) if els is None else els
        own = own or deal(rng, els, ranks); lo = 3 if phi.curved else 2; n = n or [rng.choice([lo, lo, lo + 1, 4, 5, 6] if dim == 2 else [lo, lo, lo + 1, 4]) for _ in range(dim)]; m = [rng.randint(2 * a, 4 * a) for a in n]
        ts = (rng.choice([0, 1, 3, 5, 7, 7] + ([-1] if not phi.curved else []))) if ts is None else ts; k = g.nk; g.nk += 1; ntot = 1
        for a in n: ntot *= a
        for r in ranks:
            nel = len(own[r]); lhs = rng.choice([nel + 2, nel + 2 + rng.randrange(9), 3 * nel + 20, nel * ntot + 2, 400]); ghs = rng.choice([1, 2, 7, 30, max(1, nel * ntot), 200]); npm = rng.choice([1, 2, 3, 7, 16, 256])
            dterms = terms(df[sess[r]]) if ims else "1 0 0 0 0"
            g.s.at(r, "fm %d %d %s %d %s %s %d %d %d %d %d %s %d %d %s %d %s" % (k, comm, how, dim, J(n), J(m), ts, lhs, ghs, npm, phi.sh, " ".join(phi.rows), ims, sess[r] if ims else 0, dterms, nel, " ".join(orient(rng, b) for b in own[r])))
        g.K[k] = dict(how=how, dim=dim, ranks=ranks, phi=phi, els=[b for v in own.values() for b in v], own=own, ims=ims, sess=sess, res={}, n=n, ts=ts); return k
    def query(g, k, style="mix", cnt=None, P=None, sids=None, match=0, q=None):
        rng = g.rng; f = g.K[k]; S = g.nres % 16; g.nres += 1; q = (rng.choice([1, 3, 4]) if q is None else q); f["res"][S] = {}
        for r in f["ranks"]:
            n = (rng.choice([0, 1, 3, 6, 10]) if cnt is None else cnt); p = P[r] if P else pts(rng, f["dim"], (f["own"][r] if f["how"] == "l" else f["els"]), n, q, style); f["res"][S][r] = len(p)
            g.s.at(r, "fq %d %d %d %d %d %d %s" % (k, S, len(p), q, rng.randrange(1024) if rng.random() < .6 else 0, match, " ".join(J(x) + (" %d" % rng.choice(sids) if f["ims"] else "") for x in p)))
        return S
    def field(g, f):
        rng = g.rng; dim = f["dim"]; o = [(rng.randint(-99, 99), 0, 0, 0)]; mx = min(f["n"]) - 1
        for _ in range(rng.randrange(1, 5)):
            e = [0, 0, 0]
            for _ in range(rng.randrange(0, 3)): e[rng.randrange(dim)] += 1
            if max(e) <= mx: o.append((rng.randint(-9, 9),) + tuple(e))
        return terms(o)
    def eval(g, k, S=None, local=False, eo=None, same=None):
        rng = g.rng; f = g.K[k]; t = g.field(f); sh = rng.choice([0, 0, 2]); eo = rng.choice([0, 1, 1, -2]) if eo is None else eo; syn = S is None; made = {}
        if f["how"] == "l": local = True
        for r in f["ranks"]:
            st = rng.randrange(32) if rng.random() < .6 else 0; body = ""
            if syn:
                src = [r] if local else f["ranks"]; cand = [(i, j) for i in range(len(f["ranks"])) if f["ranks"][i] in src for j in range(len(f["own"][f["ranks"][i]]))]; c = rng.choice([0, 1, 4, 9]) if cand else 0; L = []
                for _ in range(c):
                    i, j = rng.choice(cand); L.append([rng.choice([0, 0, 1]), i, j] + [rng.choice([-64, 64, 0, rng.randint(-64, 64), rng.randint(-64, 64)]) for _ in range(f["dim"])])
                    if rng.random() < .1 and not local: L[-1][0] = 2
                body = "-1 %d %s" % (len(L), " ".join(J(x) for x in L)); made[r] = L
            else:
                n = f["res"][S][r]; how = rng.choice(["all", "all", "all", "sub", "perm", "rep", "none"]) if same is None else same; ix = list(range(n))
                if how == "sub": ix = [i for i in ix if rng.random() < .5]
                elif how == "perm": rng.shuffle(ix)
                elif how == "rep": ix = [rng.randrange(n) for _ in range(rng.randrange(2 * n + 1))] if n else []
                elif how == "none": ix = []
                body = "%d %d %s" % (S, len(ix), J(ix))
            g.s.at(r, "%s %d %d %s %d %d %s" % ("fl" if local else "fe", k, sh, t, eo, st, body))
        # again, with one point of one process changed in a single respect
        hit = [r for r in made if made[r]]
        if hit and not local and rng.random() < .7:
            x = rng.choice(made[rng.choice(hit)]); w = rng.choice(["r", "r", "e", "p", "c", "-"]); i = x[1]; n = len(f["own"][f["ranks"][i]])
            if w == "r": d = 3 + rng.randrange(f["dim"]); x[d] += rng.choice([1, -1]) * rng.choice([1, 30]); x[d] = max(-64, min(64, x[d]))
            elif w == "e" and n: x[2] = rng.randrange(n)
            elif w == "p":
                c = [j for j, q in enumerate(f["ranks"]) if len(f["own"][q]) > x[2]]
                if c: x[1] = rng.choice(c)
            elif w == "c": x[0] = 2 - x[0] if x[0] != 1 else 0
            for r in f["ranks"]: g.s.at(r, "fe %d %d %s %d %d -1 %d %s" % (k, sh, t, eo, rng.randrange(32), len(made[r]), " ".join(J(x) for x in made[r])))
    def local_ms(g):
        """each process's own search among its elements, all of one of several meshes"""
        rng = g.rng; dim = rng.choice([2, 3]); own = deal(rng, boxes(rng, dim), range(g.np)); df = {s: [(rng.randint(-9, 9), 0, 0, 0)] + [(rng.choice([0, 1, -1, 3]),) + U(d) for d in range(dim)] for s in (4, 5)}
        return g.mesh("l", dim, own=own, ims=1, sess={r: rng.choice([4, 5]) for r in range(g.np)}, df=df, ts=rng.choice([0, 1, 3, 7]))
    def solve(g, k, hair=False):
        """the search of one element alone, for points on all sides of it"""
        rng = g.rng; f = g.K[k]; q = 22 if hair else rng.choice([1, 3, 4])
        for r in f["ranks"]:
            if f["own"][r] and rng.random() < .6:
                e = rng.randrange(len(f["own"][r])); npm = rng.choice([1, 2, 5, 12, 40]); runs = []
                for _ in range(rng.randrange(1, 4)):
                    P = pts(rng, f["dim"], [f["own"][r][e]], rng.choice([1, 3, 12, 40]), q, "hair" if hair else "solve")[:npm]; runs.append("%d %s" % (len(P), " ".join(J(x) for x in P)))
                g.s.at(r, "fs %d %d %d %d %d %s" % (k, e, npm, q, len(runs), " ".join(runs)))
    def free(g, k):
        for r in g.K[k]["ranks"]: g.s.at(r, "ff %d" % k)
        del g.K[k]
    def done(g):
        for k in sorted(g.K, key=lambda _: g.rng.random()): g.free(k)
        for S in range(16): g.s.all("rfree %d" % S)
        for c in sorted(g.comms, reverse=True):
            if c: g.s.all("cfree %d" % c)
        g.s.all("live 99"); g.s.all("cfree 0"); return g.s

def f_f01(rng, sid):
    if rng.random() < .07: return f_hair(rng, sid)
    if rng.random() < .02: return f_bulk(rng, sid)
    g = FP(rng, sid); k = g.mesh("c" if rng.random() < .85 else "f")
    for _ in range(rng.randrange(1, 3)): g.query(k, rng.choice(["in", "in", "mix"]))
    return g.done()
def f_f02(rng, sid):
    """one mesh and one list of points, given out in several ways"""
    g = FP(rng, sid, lo=2); dim = rng.choice([2, 2, 3]); phi = Phi(rng, dim); els = boxes(rng, dim); q = rng.choice([1, 3, 4]); P = pts(rng, dim, els, rng.choice([5, 12, 20]), q, "mix"); ts = rng.choice([0, 1, 3, 7] + ([-1] if not phi.curved else []))
    for _ in range(rng.randrange(2, 4)):
        k = g.mesh("c", dim, phi=phi, els=list(els), ts=ts); D = deal(rng, list(P), range(g.np)); g.query(k, P=D, q=q)
        if rng.random() < .5: g.query(k, P=deal(rng, list(P), range(g.np)), q=q)
        if rng.random() < .6: g.free(k)
    return g.done()
def f_f03(rng, sid):
    if rng.random() < .02: return f_bulk(rng, sid)
    g = FP(rng, sid); k = g.mesh("c" if rng.random() < .7 else "f"); S = []
    for _ in range(rng.randrange(3, 8)):
        x = rng.random()
        if x < .25 or not S: S.append(g.query(k, rng.choice(["in", "mix"])))
        elif x < .4: g.eval(k)
        elif x < .7: g.eval(k, S[-1], same="all")
        else: g.eval(k, rng.choice(S))
        S = S[-8:]
    return g.done()
def f_f04(rng, sid):
    g = FP(rng, sid, lo=1); dim = rng.choice([2, 2, 3]); phi = Phi(rng, dim); ns = rng.choice([1, 2, 2, 2, 3, 4]); names = rng.sample([0, 1, 2, 3, 5, 9, 1000000], ns); sess = {r: rng.choice(names) for r in range(g.np)}; own = {r: [] for r in range(g.np)}; df = {}
    at = rng.randint(-6, 2)
    for s in names:
        rs = [r for r in range(g.np) if sess[r] == s]; els = boxes(rng, dim, at=at)
        df[s] = [(rng.randint(-9, 9), 0, 0, 0)] + [(rng.choice([0, 0, 1, -1, 3]),) + U(d) for d in range(dim)]
        if rs:
            for r, v in deal(rng, els, rs).items(): own[r] = v
    if rng.random() < .25: kl = g.local_ms(); g.query(kl, "mix", sids=[4, 5, 77], match=rng.randrange(2))
    k = g.mesh("c" if rng.random() < .8 else "f", dim, phi=phi, own=own, ims=1, sess=sess, df=df, ts=rng.choice([0, 1, 3, 5, 7]))
    for _ in range(rng.randrange(1, 4)):
        S = g.query(k, rng.choice(["in", "mix", "mix"]), sids=names + [77], match=rng.choice([0, 0, 1]))
        if rng.random() < .5: g.eval(k, S)
        if rng.random() < .2: g.eval(k)
    return g.done()
def f_hair(rng, sid):
    """points very close to the faces of a mesh, beyond them and within"""
    g = FP(rng, sid); dim = rng.choice([2, 2, 3]); k = g.mesh("c", dim, phi=Phi(rng, dim, "hair"), ts=rng.choice([0, 1, 2]))
    if rng.random() < .4: g.solve(k, hair=True)
    g.query(k, "hair", q=22); return g.done()
def f_bulk(rng, sid):
    """many elements, hundreds of points"""
    g = FP(rng, sid, hi=4); dim = rng.choice([2, 2, 3]); els = boxes(rng, dim, many=True); k = g.mesh("c" if rng.random() < .8 else "f", dim, els=els, n=[rng.choice([3, 3, 4]) for _ in range(dim)])
    for _ in range(rng.choice([1, 2])):
        S = g.query(k, rng.choice(["in", "mix", "mix"]), cnt=rng.choice([100, 300]))
        if rng.random() < .7: g.eval(k, S, same="all")
    return g.done()
def f_f05(rng, sid):
    if rng.random() < .15: return f_hair(rng, sid)
    if rng.random() < .2:
        g = FP(rng, sid); dim = rng.choice([2, 2, 3]); k = g.mesh("c", dim, phi=Phi(rng, dim, rng.choice(["bent", "warp", "warp"]))); g.solve(k); return g.done()
    g = FP(rng, sid); k = g.mesh("c" if rng.random() < .85 else "f")
    if rng.random() < .35: g.solve(k)
    for _ in range(rng.randrange(1, 3)): g.query(k, "outs")
    return g.done()
def f_f06(rng, sid):
    g = FP(rng, sid); ks = []
    for _ in range(rng.randrange(1, 5)):
        how = rng.choice(["f", "f", "f", "l", "l", "c"]); ims = 0
        if how == "l" and rng.random() < .5: k = g.local_ms()
        elif how == "f" and rng.random() < .3:
            dim = rng.choice([2, 3]); own = deal(rng, boxes(rng, dim), range(g.np)); k = g.mesh("f", dim, own=own, ims=1, sess={r: 4 for r in range(g.np)}, df={4: [(3, 0, 0, 0)]}, ts=rng.choice([1, 3, 7]))
        else: k = g.mesh(how)
        ks.append(k)
    for _ in range(rng.randrange(2, 7)):
        k = rng.choice(ks); f = g.K[k]
        if f["res"] and rng.random() < .5:
            S = rng.choice(list(f["res"]))
            if f["how"] == "f" and rng.random() < .4: g.eval(k, S, local=True)
            else: g.eval(k, S)
        elif rng.random() < .2: g.eval(k, local=rng.random() < .3 and f["how"] != "c")
        else: g.query(k, "mix", sids=[4, 5], match=rng.randrange(2)) if f["ims"] else g.query(k, "mix")
        if rng.random() < .15 and len(ks) > 1: ks.remove(k); g.free(k)
    if rng.random() < .3:
        g.s.all("barrier 0"); kind = rng.choice(["neg", "big", "freed", "freed", "dim", "np"]); ms = rng.choice(["", "ms"])
        fn = rng.choice(["find", "eval", "evloc", "free"])
        if kind == "freed":
            c = [k for k in g.K if g.K[k]["how"] == "f"]
            if c: k = rng.choice(c); g.free(k); g.s.all("barrier 0"); g.s.all("fbad %s%s %d" % (fn, ms, 10000 + k)); return g.s
        if kind == "neg": g.s.all("fbad %s%s %d" % (fn, ms, rng.choice([-1, -2, -1000000])))
        elif kind == "dim": g.s.all("fbad dim%s %d" % (ms, rng.choice([0, 1, 4, -2, 5])))
        elif kind == "np": g.s.all("fbad np%s %d" % (ms, rng.choice([1, -1, 3])))
        else: g.s.all("fbad %s%s %d" % (fn, ms, rng.choice([20, 99, 9999])))
        return g.s
    return g.done()
FAM = {"F01": f_f01, "F02": f_f02, "F03": f_f03, "F04": f_f04, "F05": f_f05, "F06": f_f06}
