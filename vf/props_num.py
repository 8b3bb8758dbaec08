"""scenario families: polynomial bounds, bounding boxes, quadrature and interpolation, tensor kernels"""
from gen_gs import *
J = lambda v: " ".join(map(str, v))
def chebc(rng, deg, st=None):
    st = st or rng.choice(["rand", "rand", "one", "lin", "const", "two", "top"])
    c = [0] * (deg + 1)
    if st == "rand": c = [rng.randint(-4, 4) for _ in c]
    elif st == "one": c[rng.randrange(deg + 1)] = rng.choice([-3, -1, 1, 2]); c[0] += rng.choice([0, 0, 5])
    elif st == "lin": c[0] = rng.randint(-9, 9); c[min(1, deg)] += rng.randint(-9, 9)
    elif st == "const": c[0] = rng.randint(-9, 9)
    elif st == "top": c[deg] = 2; c[0] = rng.randint(-3, 3)
    else:
        for _ in range(2): c[rng.randrange(deg + 1)] += rng.choice([-5, 3, 7])
    return c
def f_n01(rng, sid):
    s = new_scn(rng, sid, 1)
    for _ in range(rng.randrange(2, 5)):
        x = rng.random()
        if x < .3:
            dim = rng.choice([1, 2, 2, 2, 3, 3]); top = [0, 12, 7, 4][dim]; n = [rng.randrange(2, top + 1) for _ in range(dim)]; fine = rng.randrange(-1, dim)
            m = [2 * k + rng.choice([0, 1, 2]) if d != fine else rng.randrange(4 * k, (8 if dim < 3 else 5) * k) for d, k in enumerate(n)]; un = rng.choice([1, 1, 2, 3]); fs = []
            for _ in range(un):
                if rng.random() < .5: ts = [(rng.randint(-9, 9),) + tuple(rng.randrange(n[d]) if d < dim else 0 for d in range(3)) for _ in range(rng.randrange(1, 9))]
                else: ts = [(rng.randint(-9, 9), a, b, c) for a in range(n[0]) for b in range(n[1] if dim > 1 else 1) for c in range(n[2] if dim > 2 else 1) if rng.random() < .8]
                fs.append("%d %s" % (len(ts), " ".join(J(y) for y in ts)))
            s.at(0, "bl %d %s %s %d %s" % (dim, J(n), J(m), un, " ".join(fs)))
        elif x < .7:
            n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 25, 28]); deg = rng.choice([n - 1, n - 1, rng.randrange(n)]); np = rng.choice([1, 1, 2, 3]); c = [chebc(rng, deg) for _ in range(np)]
            for m in (sorted(rng.sample([2 * n, 2 * n + 1, 3 * n, 4 * n, 8 * n, 16 * n], 2)) if rng.random() < .5 else [rng.randrange(2 * n, 4 * n + 1)]):
                s.at(0, "b1 %d %d %d %d %d %s" % (n, m, np, deg, rng.choice([8, 16]), " ".join(J(a) for a in c)))
        else:
            dim = rng.choice([2, 2, 3]); n = [rng.choice([2, 3, 4, 5, 6] if dim == 2 else [2, 3, 4]) for _ in range(dim)]; m = [rng.randrange(2 * k, 4 * k + 1) for k in n]; t = terms(rng, dim, n, rng.choice([1, 1, 5, 8]))
            s.at(0, "bd %d %s %s %s" % (dim, J(n), J(m), t))
    return s
def terms(rng, dim, n, cnt, maxdeg=None, scale=9):
    o = []
    if cnt == 1 and rng.random() < .6: o = [(rng.randint(-9, 9), 0, 0, 0)] + [(rng.randint(-9, 9),) + tuple(1 if d == e else 0 for e in range(3)) for d in range(dim)]      # affine
    else:
        for _ in range(cnt):
            a = [rng.randrange(n[d]) if d < dim else 0 for d in range(3)]
            if sum(a) <= (maxdeg or (8 if dim == 2 else 9)): o.append((rng.randint(-scale, scale),) + tuple(a))
        if not o: o = [(1, 0, 0, 0)]
    return "%d %s" % (len(o), " ".join(J(x) for x in o))
def element(rng, dim, n, curved):
    """terms per coordinate, in units of 1/64: a well-shaped map of [-1,1]^dim"""
    while 1:
        A = [[rng.randint(-40, 40) for _ in range(dim)] for _ in range(dim)]
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0] if dim == 2 else sum(A[0][i] * (A[1][(i + 1) % 3] * A[2][(i + 2) % 3] - A[1][(i + 2) % 3] * A[2][(i + 1) % 3]) for i in range(3))
        # smallest stretch: |det| / product of the other directions
        nrm = [sum(A[i][d] ** 2 for i in range(dim)) ** .5 for d in range(dim)]
        if min(nrm) > 6 and abs(det) > .45 * nrm[0] * nrm[1] * (nrm[2] if dim == 3 else 1): break
    room = min(nrm) * .45 / 2       # the curved part may not fold the element
    out = []
    for i in range(dim):
        t = [(rng.randint(-500, 500), 0, 0, 0)] + [(A[i][d],) + tuple(1 if d == e else 0 for e in range(3)) for d in range(dim)]
        left = room / dim ** .5
        if curved and rng.random() < .4:        # one side bulges (or caves in) in its middle only
            d = rng.randrange(dim); o = [e for e in range(dim) if e != d]; k = int(left / 4 * .9); c = rng.randint(-k, k)
            if c and all(n[e] > 2 for e in o):
                left -= 4 * abs(c); sg = rng.choice([-1, 1]); f = {(0, 0, 0): c}
                for e, up, co in [(d, 1, sg)] + [(e, 2, -1) for e in o]: f.update({tuple(x + (up if i == e else 0) for i, x in enumerate(q)): v * co for q, v in list(f.items())})
                t += [(v,) + q for q, v in f.items()]
        for _ in range(rng.randrange(1, 4) if curved else 0):
            a = [rng.randrange(n[d]) if d < dim else 0 for d in range(3)]; g = sum(a)
            if g < 2 or g > 7: continue
            k = int(left / g * .6)
            if k < 1: continue
            c = rng.randint(-k, k); left -= abs(c) * g; t.append((c,) + tuple(a))
        out.append("%d %s" % (len(t), " ".join(J(x) for x in t)))
    return " ".join(out)
def f_n02(rng, sid):
    s = new_scn(rng, sid, 1)
    for _ in range(rng.randrange(1, 3)):
        dim = rng.choice([2, 2, 3]); n = [rng.choice([2, 3, 4, 5, 7, 9] if dim == 2 else [2, 3, 4, 5]) for _ in range(dim)]; m = [rng.randrange(2 * k, 4 * k + 1) for k in n]; nel = rng.choice([0, 1, 2, 3]) if dim == 2 else rng.choice([1, 2])
        s.at(0, "ob %d %s %s %d 6 %d %s" % (dim, J(n), J(m), rng.choice([-1, 0, 1, 3, 7]), nel, " ".join(element(rng, dim, n, rng.random() < .75) for _ in range(nel))))
    return s
def f_n03(rng, sid):
    s = new_scn(rng, sid, 1)
    for _ in range(rng.randrange(2, 5)):
        if rng.random() < .35:
            lob = rng.randrange(2); n = rng.randrange(1 + lob, 33); s.at(0, "qd %d %d %d" % (lob, n, 2 * n - 3 if lob else 2 * n - 1))
        else:
            kind = rng.randrange(2)
            if kind: n = rng.randrange(2, 29); z = []
            else: n = rng.randrange(1, 8); z = rng.sample(range(-8, 9), n)
            deg = rng.choice([n - 1, n - 1, rng.randrange(n)]); c = chebc(rng, deg); q = []
            for _ in range(rng.randrange(1, 8)):
                j = rng.choice([-16, 16, 0, rng.randint(-16, 16), rng.randint(-16, 16), 1000 + rng.randrange(n), rng.randint(-18, 18) if n < 9 else 3]); q.append((j, rng.randrange(3)))
            s.at(0, "lg %d %d %s %d %s %d %s" % (kind, n, J(z), deg, J(c), len(q), " ".join(J(x) for x in q)))
    return s
def f_n04(rng, sid):
    s = new_scn(rng, sid, 1); I = lambda n: J(rng.randint(-9, 9) for _ in range(n)); D = lambda: rng.choice([1, 1, 2, 3, 4, 5, 6, 7] * 3 + [rng.randrange(8, 41)])
    for _ in range(rng.randrange(6, 14)):
        op = rng.choice(["dot", "mxv", "mtxv", "mxm", "mtxm", "i1", "i2", "i3", "ig1", "ig2", "ig3", "2t", "3t"]); a, b, c, e, f, g = (D() for _ in range(6))
        if op in ("3t",): a, b, c, e, f, g = (min(x, 4) for x in (a, b, c, e, f, g))
        if op == "dot": a = rng.choice([1, 2, 3, 4, 5, 8, 9, 17, 33]); v = I(2 * a)
        elif op in ("mxv", "mtxv"): v = I(a * b + b)
        elif op in ("mxm", "mtxm"): v = I(a * b + b * c)
        elif op[0] == "i":
            dim = int(op[-1])
            if dim < 3: c = 1
            if dim < 2: b = 1
            k = 2 if op[1] == "g" else 1; v = I(k * (a + b + c) + a * b * c)
        else:
            if op == "2t": f = g = 1
            v = I(b * a + e * c + g * f + b * e * g)
        s.at(0, "tn %s %d %d %d %d %d %d %s" % (op, a, b, c, e, f, g, v))
    return s
FAM = {"N01": f_n01, "N02": f_n02, "N03": f_n03, "N04": f_n04}
