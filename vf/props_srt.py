"""scenario families: local sorts, record sorts, permutations, growable arrays"""
from gen_gs import *

def codec(rng, ty=None):
    """-> (text, list of candidate tokens generator)"""
    ty = rng.randrange(4) if ty is None else ty
    if ty <= 1:
        a = rng.choice([1, 2, 4, 8, 8, 8]); bits = 32 if ty == 0 else 64
        ns = rng.randrange(1, min(30 // a, bits // a) + 1)
        st = rng.choice(["low", "high", "spread", "zero"])
        if st == "zero": ns = 1
        if st == "low": sh = [i * a for i in range(ns)]
        elif st == "high": sh = [bits - (ns - i) * a for i in range(ns)]
        else: sh = sorted(x * a for x in rng.sample(range(bits // a), ns))
        top = 1 << (a * ns)
        if st == "zero": top = 1
        return "%d %d %d %s" % (ty, a, ns, " ".join(map(str, sh))), (0, top - 1), False
    lim = 1 << 19; sc = rng.choice([0, 0, -3, 5, -140, 100] if ty == 2 else [0, 0, -3, 9, -1060, 900]); nz = rng.randrange(2)
    if sc < -130 and ty == 2: lim = 1 << 10
    if sc < -1000: lim = 1 << 12
    inf = rng.random() < .3
    return "%d %d %d" % (ty, sc, nz), (-lim + 1, lim - 1), inf

def keys(rng, n, rg, inf):
    lo, hi = rg; st = rng.choice(["any", "few", "few", "equal", "up", "down", "runs", "ends", "narrow", "updown"])
    f = [rng.randint(lo, hi) for _ in range(rng.choice([2, 3, 5]))]; c = rng.randint(lo, hi)
    if st == "any": v = [rng.randint(lo, hi) for _ in range(n)]
    elif st == "few": v = [rng.choice(f) for _ in range(n)]
    elif st == "equal": v = [c] * n
    elif st in ("up", "down", "updown"):
        v = sorted(rng.randint(lo, hi) for _ in range(n))
        if st == "down": v = v[::-1]
        if st == "updown": v = v[::2] + v[1::2][::-1]
    elif st == "runs":
        v = []
        while len(v) < n: v += sorted(rng.randint(lo, hi) for _ in range(rng.randrange(1, 9)))
        v = v[:n]
    elif st == "ends": v = [rng.choice([lo, lo, hi, c]) for _ in range(n)]
    else:
        w = min(hi, c + rng.choice([1, 3, 40])); v = [rng.randint(c, w) for _ in range(n)]
    if inf: v = [rng.choice([1000000, -1000000]) if rng.random() < .1 else x for x in v]
    return v

def length(rng): return rng.randrange(520, 900) if rng.random() < .012 else rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, rng.randrange(10, 60), rng.randrange(10, 60), rng.randrange(60, 255), 255, 256, 257, rng.randrange(256, 420)])

def f_s01(rng, sid):
    s = new_scn(rng, sid, 1)
    for _ in range(rng.randrange(4, 9)):
        c, rg, inf = codec(rng); n = length(rng); k = keys(rng, n, rg, inf); w = 8 if c[0] in "13" else 4
        pad = rng.choice([0, 0, w, 2 * w, 8, 24]) if rng.random() < .8 else w * rng.randrange(12)
        if rng.random() < .45:
            pl = rng.random() < .4
            s.at(0, "sv %s %d %d %d %d %s" % (c, 0 if pl else pad, pl, rng.randrange(3), n, " ".join(map(str, k))))
        else:
            ws = rng.random() < .5; p = list(range(n))
            if ws: st = rng.choice(["rnd", "rev", "id", "swap"])
            if ws and st == "rnd": rng.shuffle(p)
            if ws and st == "rev": p = p[::-1]
            if ws and st == "swap" and n > 1: i, j = rng.sample(range(n), 2); p[i], p[j] = p[j], p[i]
            s.at(0, "sp %s %d %d %d %d %s %s" % (c, pad, ws, rng.randrange(3), n, " ".join(map(str, k)), " ".join(map(str, p)) if ws else ""))
        if rng.random() < .1: s.at(0, "bfree %d" % rng.randrange(3))
    for b in range(3): s.at(0, "bfree %d" % b)
    return s
def f_s02(rng, sid):
    s = new_scn(rng, sid, 1)
    for _ in range(rng.randrange(4, 9)):
        if rng.random() < .6:
            nf = rng.randrange(1, 5); n = length(rng); ks = rng.sample(range(4), nf); cs = []; cols = []
            for f in range(nf):
                c, rg, inf = codec(rng); cs.append("%d %s" % (ks[f], c)); v = keys(rng, n, rg, inf)
                if f < nf - 1 and n: few = rng.sample(v, min(n, rng.choice([1, 2, 3]))); v = [rng.choice(few) for _ in v]
                cols.append(v)
            s.at(0, "rs %d %d %d %s %d %s" % (rng.randrange(3), rng.randrange(3), nf, " ".join(cs), n, " ".join(str(cols[f][i]) for i in range(n) for f in range(nf))))
        else:
            n = length(rng); p = list(range(n)); st = rng.choice(["rnd", "rnd", "rev", "id", "rot", "swaps"])
            if st == "rnd": rng.shuffle(p)
            elif st == "rev": p = p[::-1]
            elif st == "rot" and n: k = rng.randrange(n); p = p[k:] + p[:k]
            elif st == "swaps":
                for i in range(0, n - 1, 2): p[i], p[i + 1] = p[i + 1], p[i]
            size = rng.choice([1, 2, 3, 4, 7, 8, 12, 24, 33]) if n <= 256 else rng.choice([2, 3, 4, 7, 8, 12, 24, 33]); al = rng.choice([x for x in (1, 2, 4, 8) if size % x == 0])
            s.at(0, "pm %d %d %d %d %d %s" % (rng.choice([0, 1, 1, 2]), rng.randrange(3), size, al, n, " ".join(map(str, p))))
        if rng.random() < .1: s.at(0, "bfree %d" % rng.randrange(3))
    for b in range(3): s.at(0, "bfree %d" % b)
    return s
def f_s03(rng, sid):
    s = new_scn(rng, sid, 1); A = {}
    for _ in range(rng.randrange(6, 30)):
        x = rng.random()
        if not A or (x < .12 and len(A) < 4):
            g = rng.randrange(16)
            if g in A: continue
            m = rng.choice([-1, 0, 1, 2, 5, 40]); A[g] = [0, m]; s.at(0, "ai %d %d %d" % (g, rng.choice([1, 2, 4, 4, 6, 8, 12, 40]), m)); continue
        g = rng.choice(list(A)); a = A[g]
        if x < .55:
            n = rng.choice([0, 1, 1, 1, 2, 3, 10, 70]); reps = rng.choice([1, 1, 5])
            for _ in range(reps): s.at(0, "ac %d %d" % (g, n)); a[0] += n
        elif x < .85: s.at(0, "ar %d %d" % (g, rng.choice([0, 1, a[0], a[0] + 1, a[0] + rng.randrange(20), 2 * a[0] + 1, 3 * a[0]])))
        elif x < .95: s.at(0, "az %d %d" % (g, a[0] + rng.choice([0, 0, 1, 5])))
        else: s.at(0, "af %d" % g); del A[g]
        if rng.random() < .2: s.at(0, "heap")
    s.at(0, "heap")
    for g in A: s.at(0, "af %d" % g)
    return s
FAM = {"S01": f_s01, "S02": f_s02, "S03": f_s03}
