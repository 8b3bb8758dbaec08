"""scenario families for the gather-scatter properties"""
import random
from gen_gs import *

def finish(g):
    for (f, h) in list(g.h): g.free(h, f)
    for c in sorted(g.comms, reverse=True): g.s.all("cfree %d" % c)
    g.comms = {}
    g.s.all("live 99")
    return g.s

def f_g01(rng, sid):
    if rng.random() < .03:         # hundreds of ids on every process
        g = GS(rng, sid, hi=5); n = rng.choice([300, 700]); ids = gen_ids(rng, range(g.np), flags=rng.choice([0, 0, .3]), maxn=n, wide=n); undeviate(rng, ids); g.blocking = True; h = g.setup(0, ids, rng.choice([0, 1, 2, 3]))
        for _ in range(2): op = rng.randrange(5); a = g.array(h, rng.randrange(5), op, 1, "v"); g.op(h, a, op, rng.randrange(2), "p", -1)
        return finish(g)
    g = GS(rng, sid, hi=16); ids = gen_ids(rng, range(g.np), maxn=rng.choice([3, 8, 12, 12, 60])); g.blocking = True
    h = g.setup(0, ids, rng.choice([0, 1, 1, 2, 2, 3]))
    if g.h[(0, h)]["me"] == 1: g.s.all("nmsg %d" % h)
    for _ in range(5):
        dom = rng.randrange(5); op = rng.randrange(5)
        lay = rng.choice("vm"); a = g.array(h, dom, op, 1, lay)
        g.op(h, a, op, rng.choice([0, 0, 1]), "p", rng.choice([-1, 0]))
    return finish(g)

def f_g02(rng, sid):
    g = GS(rng, sid); ids = gen_ids(rng, range(g.np), flags=rng.choice([.2, .5, .8]))
    if rng.random() < 0.75: undeviate(rng, ids)
    h = g.setup(0, ids, rng.choice([0, 1, 1, 2, 2, 3]))
    for _ in range(6):
        dom = rng.randrange(5); op = rng.randrange(5); m, k, lay = g.mode()
        a = g.array(h, dom, op, k, lay); g.op(h, a, op, rng.randrange(2), m, rng.choice([-1, 0]))
    return finish(g)

def f_g03(rng, sid):
    g = GS(rng, sid, hi=16)
    ids = gen_ids(rng, range(g.np), flags=rng.choice([0, 0, .3])); undeviate(rng, ids)
    # the same groups, members moved to other processes
    ids2 = {r: list(v) for r, v in ids.items()}
    pool = [x for v in ids.values() for x in v]; rng.shuffle(pool)
    cut = sorted(rng.randrange(len(pool) + 1) for _ in range(g.np - 1)); cut = [0] + cut + [len(pool)]
    for r in range(g.np): ids2[r] = pool[cut[r]:cut[r + 1]][:14]
    undeviate(rng, ids2)
    meths = [1, 2, 3, 0]; rng.shuffle(meths); g.blocking = True
    hh = [g.setup(0, ids, m) for m in meths] + [g.setup(0, ids2, rng.choice([0, 1, 2, 3]))]
    for _ in range(2):
        dom = rng.randrange(5); op = rng.randrange(5); t = rng.randrange(2); m, k, lay = g.mode()
        for h in hh:
            a = g.array(h, dom, op, k, lay); g.op(h, a, op, t, m, rng.choice([-1, 0]))
    return finish(g)

def f_g04(rng, sid):
    wide = rng.random() < .15      # several hundred values travel together
    g = GS(rng, sid); ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3, .5]), wide=wide); undeviate(rng, ids); g.blocking = True
    h = g.setup(0, ids, rng.choice([0, 1, 2, 3, 3] if wide else [0, 1, 1, 2, 2, 3]))
    dom = rng.randrange(5); op = rng.randrange(5)
    if g.h[(0, h)]["me"] == 1: g.s.all("nmsg %d" % h)
    for _ in range(2):
        t = rng.randrange(2); op = rng.randrange(5)
        ks = [("p", 1)] + [(rng.choice("vm"), k) for k in rng.sample([1, 2, 3, 4, 5, 7, 9, rng.choice([16, 17, 33, 65])], 3)] + [("v", rng.choice([16, 33]))] * wide; rng.shuffle(ks)
        for m, k in ks:
            dom = rng.randrange(5)
            a = g.array(h, dom, op, k, {"p": "m", "v": "v", "m": "m"}[m]); g.op(h, a, op, t, m, rng.choice([-1, 0]))
    return finish(g)

def f_g05(rng, sid, fort=False):
    g = GS(rng, sid)
    nh = rng.choice([1, 2, 3, 4]); hh = []
    for _ in range(nh):
        ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3])); undeviate(rng, ids)
        hh.append(g.setup(0, ids, rng.choice([0, 1, 1, 2, 2, 3, 3])))
    # one global order of issues and blocking operations; every process waits where it likes, before it reuses the handle
    out = {r: [] for r in range(g.np)}      # outstanding (slot, handle) per process
    def wait(r, k):
        w, h = out[r].pop(k)
        if rng.random() < 0.2: g.s.at(r, "pause %d" % rng.randrange(3))
        g.s.at(r, "wait %d" % w)
    lazy = rng.choice([0, .2, .5])
    for step in range(rng.randrange(3, 10)):
        h = rng.choice(hh); dom = rng.randrange(5); op = rng.randrange(5); m, k, lay = g.mode(); t = rng.randrange(2)
        a = g.array(h, dom, op, k, lay)
        for r in range(g.np):
            for j in reversed(range(len(out[r]))):
                if out[r][j][1] == h: wait(r, j)
            while out[r] and rng.random() < lazy: wait(r, rng.randrange(len(out[r])))
        if rng.random() < 0.75:
            w = g.nw % 200; g.nw += 1
            g.issue(w, h, a, op, t, m, rng.choice([h + 1, h + 1, -1]))
            for r in range(g.np): out[r].append((w, h))
        else: g.op(h, a, op, t, m, rng.choice([0, -1]))
    for r in range(g.np):
        while out[r]: wait(r, rng.randrange(len(out[r])))
    return finish(g)

def f_g06(rng, sid):
    g = GS(rng, sid, hi=16); c = 0
    if rng.random() < 0.3: g.split(1); c = 1
    if rng.random() < 0.3: c = 0
    for _ in range(2):
        ids = gen_ids(rng, range(g.np), flags=rng.choice([0, 0, .3, .7]))
        i = g.nid; g.nid += 1
        for r, v in ids.items(): g.s.at(r, "ids %d %d %s" % (i, len(v), " ".join(map(str, v))))
        g.s.all("uniq %d %d %d" % (g.nu, i, c)); g.nu += 1
    for _ in range(2):
        ids = gen_ids(rng, range(g.np), flags=rng.choice([0, 0, .3]), dup=rng.random() < 0.6)
        h = g.setup(c, ids, rng.choice([0, 1, 1, 2, 2, 3]), unique=1)
        for _ in range(3):
            op = rng.randrange(5); m, k, lay = g.mode(); a = g.array(h, rng.randrange(5), op, k, lay)
            g.op(h, a, op, rng.randrange(2), m, rng.choice([-1, 0]))
    return finish(g)

def f_g07(rng, sid):
    g = GS(rng, sid)
    if rng.random() < 0.35:        # set-up/use/free cycles: nothing accumulates
        ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3])); undeviate(rng, ids)
        g.fixed_plan = True; me = rng.choice([0, 1, 2, 3]); uq = rng.randrange(2) and not local_dup(ids); fort = rng.random() < 0.3 and not uq
        dom = rng.choice([DOUBLE, INT] if NARROW[0] else [DOUBLE, INT, LL]); op = rng.randrange(4); nb = rng.random() < 0.5; nbuf = rng.choice([1, -1]); fort = int(fort); m, k, lay = g.mode(2 if fort else None); g.blocking = not nb
        a = None; t = rng.randrange(2); lab = 0
        x = dict(ids=ids)
        g.h[(1 if fort else 0, 0)] = dict(c=0, ids=ids, q=uq, me=me); a = g.array(0, dom, MIN, k, lay, fort=1 if fort else 0); g.h = {}
        vals = None
        for cyc in range(5):
            g.nid = 0; g.nu = cyc * 2
            h = g.setup(0, ids, me, unique=uq, fort=1 if fort else 0)
            g.op(h, a, MIN, t, m, -1, fort=1 if fort else 0)
            if nb: g.issue(0, h, a, MIN, t, m, nbuf, fort=fort); g.s.all("fwait 0" if fort else "wait 0")
            g.free(h, 1 if fort else 0); g.s.all("live %d" % cyc)
        g.s.all("cfree 0"); g.comms = {}
        return g.s
    nslot = rng.choice([1, 2, 3]); g.blocking = True
    for c in range(1, nslot + 1):
        if rng.random() < 0.6: g.split(c, rng.choice(list(g.comms)))
        else: g.dup(c, rng.choice(list(g.comms)))
    hh = []
    for step in range(rng.randrange(8, 16)):
        x = rng.random()
        if x < 0.35 or not hh:
            if len(hh) < 6:
                c = rng.choice(list(g.comms)); ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3])); undeviate(rng, ids)
                h = g.setup(c, ids, rng.choice([0, 1, 1, 2, 3]), unique=rng.randrange(2) if not local_dup(ids) else 0); hh.append(h)
        elif x < 0.5:
            h = hh.pop(rng.randrange(len(hh))); g.free(h)
        elif x < 0.56 and len(g.comms) > 1:     # a handle outlives the communicator it was made from
            c = rng.choice([c for c in g.comms if c]); g.freecomm(c)
        else:
            h = rng.choice(hh); op = rng.randrange(5); m, k, lay = g.mode()
            a = g.array(h, rng.randrange(5), op, k, lay); g.op(h, a, op, rng.randrange(2), m, rng.choice([-1, 0, 1]))
            if rng.random() < 0.2: g.s.all("rd %d" % a)
    return finish(g)

def f_g08(rng, sid):
    g = GS(rng, sid, hi=8); hh = []
    if rng.random() < 0.3: g.split(1)
    def setup():
        ids = gen_ids(rng, range(g.np), flags=rng.choice([0, .3])); undeviate(rng, ids)
        hh.append(g.setup(rng.choice(list(g.comms)), ids, rng.choice([-1, 0, 1, 2, 3]), fort=1))
    setup()
    for step in range(rng.randrange(6, 12)):
        x = rng.random()
        if x < 0.15 and len(hh) < 4: setup()
        elif x < 0.25 and len(hh) > 1: g.free(hh.pop(rng.randrange(len(hh))), 1)
        elif x < 0.33:
            ids = gen_ids(rng, range(g.np), flags=.2); i = g.nid; g.nid += 1
            for r, v in ids.items(): g.s.at(r, "ids %d %d %s" % (i, len(v), " ".join(map(str, v))))
            g.s.all("funiq %d %d %d" % (g.nu, i, rng.choice(list(g.comms)))); g.nu += 1
        else:
            h = rng.choice(hh); op = rng.randrange(4); dom = rng.choice([DOUBLE, INT] if NARROW[0] else [DOUBLE, INT, LL]); mode = rng.choice("pvmff")
            k = 1 if mode == "p" else rng.randrange(1, 7) if mode == "m" else rng.choice([1, 2, 3, 5, 9])
            a = g.array(h, dom, op, k, {"p": "v", "v": "v", "m": "m", "f": "f"}[mode], fort=1)
            t = rng.choice([0, 0, 1, 1, -1, 2])
            if mode != "f" and rng.random() < 0.2:       # the same handle used from C
                g.s.all("hf2c %d %d" % (h, h)); t = min(1, abs(t))
                if rng.random() < 0.4: g.issue(0, h, a, op, t, mode, -1); g.s.all("fwait 0")
                else: g.op(h, a, op, t, mode, rng.choice([-1, 0]))
            elif mode != "f" and rng.random() < 0.4:
                g.issue(0, h, a, op, t, mode, -1, fort=1); g.s.all("pause 2"); g.s.all("fwait 0")
            else: g.op(h, a, op, t, mode, -1, fort=1)
    if rng.random() < 0.4:           # one illegal call ends the program
        h = hh[0]; a = g.array(h, DOUBLE, ADD, 1, "v", fort=1)
        fns = ["gs", "vec", "many", "fields", "igs", "ivec", "imany"]
        kind = rng.choice(["neg", "big", "freed", "dom", "dom", "op", "op", "np", "ffree"])
        fn = rng.choice(fns)
        # every process makes the same call after a barrier, so nothing else is outstanding
        g.s.all("barrier 0")
        if kind == "neg": g.s.all("raw %s %d 2 1 %d" % (fn, rng.choice([-1, -2, -1000000]), a))
        elif kind == "big": g.s.all("raw %s %d 2 1 %d" % (fn, rng.choice([g.nf, g.nf + 1, 9999]), a))
        elif kind == "freed":
            k = hh.pop(); g.s.all("ffree %d" % k); g.s.all("barrier 0"); g.s.all("raw %s %d 2 1 %d" % (fn, 10000 + k, a))
        elif kind == "dom": g.s.all("raw %s %d %d 1 %d" % (fn, 10000 + h, rng.choice([0, -1, 5, 7, 100]), a))
        elif kind == "op": g.s.all("raw %s %d 2 %d %d" % (fn, 10000 + h, rng.choice([0, -1, 6, 5, 77]), a))
        elif kind == "np": g.s.all("raw %s 0 0 %d %d" % (rng.choice(["setup", "unique"]), rng.choice([g.np + 1, g.np + 3, 0]) , a))
        else:
            k = hh.pop(); g.s.all("ffree %d" % k); g.s.all("barrier 0"); g.s.all("raw free %d 2 1 %d" % (10000 + k, a))
        return g.s
    return finish(g)

FAM = {"G01": f_g01, "G02": f_g02, "G03": f_g03, "G04": f_g04, "G05": f_g05, "G06": f_g06, "G07": f_g07, "G08": f_g08}
