"""scenarios for the gather-scatter specification"""
from core import Scn
TOP = 2000000000
DOUBLE, FLOAT, INT, LONG, LL = range(5)
ADD, MUL, MIN, MAX, BPR = range(5)

ONE = [False]     # only one process (the library without MPI)
NARROW = [False]  # no integers wider than int (through the Fortran interface)
NONBC = [False]   # no nonblocking collectives: no nonblocking all-reduction
def under(flag, fam):
    def f(*a):
        flag[0] = True
        try: return fam(*a)
        finally: flag[0] = False
    return f
def solo(fam): return under(ONE, fam)
def pick_np(rng, lo=1, hi=12):
    if ONE[0]: return 1
    return max(lo, min(hi, rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8, 9, 11, 12, 16])))

def new_scn(rng, sid, np):
    return Scn(sid, np, seed=rng.randrange(1, 10**9), pol=rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]), eager=rng.choice([0, 0, 0, 8, 64, 10**9]), colsync=rng.choice([0, 1]), fill=rng.choice([0, 0xA5, 0xFF, 0x3F]))

def gen_ids(rng, ranks, flags=0.0, maxn=8, big=None, dup=True, wide=False):
    """-> rank -> list of ids"""
    np = len(ranks)
    style = rng.choice(["pool", "pool", "pool", "chain", "all", "disjoint", "multiple", "few"])
    big = rng.random() < 0.4 if big is None else big
    npool = rng.choice([1, 2, 3, 5, 8, 12, 20])
    if wide: style, npool = rng.choice(["all", "pool", "few", "chain"] if wide > 1 else ["all", "pool"]), rng.choice([20, 40] if wide == 1 else [wide // 2, wide])
    if style == "multiple": labels = [k * np + rng.choice([0, 0, 0, 1]) for k in range(1, npool + 1)]
    else: labels = rng.sample(range(1, 4 * npool + 2), npool)
    if big:
        m = rng.choice([(1 << 31) - 1, 1 << 32, (1 << 33) + 7, 1 << 40, (1 << 58) - 3])
        labels = [x * m % ((1 << 63) - 1) or 5 for x in labels]
        if rng.random() < 0.4: labels = [x | rng.choice([1 << 62, 1 << 31, 1 << 32]) for x in labels]
    labels = list(dict.fromkeys(labels))
    out = {}
    for k, r in enumerate(ranks):
        n = rng.choice([0, 1, 2, 3, 4, maxn, maxn, rng.randrange(maxn + 1)])
        if style == "chain": v = [labels[(k + j) % len(labels)] for j in range(min(3, n))] + [0] * rng.randrange(2)
        elif style == "all": v = [rng.choice(labels) for _ in range(n)] + labels
        elif style == "disjoint": v = [(k + 1) * 100 + rng.randrange(4) for _ in range(n)]
        elif style == "few": v = [rng.choice(labels) if rng.random() < 0.4 else 0 for _ in range(n)]
        else: v = [rng.choice(labels + [0]) for _ in range(n)]
        if not dup:
            seen = set(); v = [0 if (x in seen or (seen.add(x) or False)) else x for x in v]
        rng.shuffle(v)
        out[r] = v
    if flags:
        f = flags if rng.random() < 0.8 else 1.0
        nofl = rng.random() < 0.2        # some ranks unflagged altogether
        for r in ranks:
            if nofl and rng.random() < 0.5: continue
            out[r] = [-x if rng.random() < f else x for x in out[r]]
    return out

def local_dup(ids):
    for v in ids.values():
        s = [abs(x) for x in v if x]
        if len(set(s)) < len(s): return True
    return False

def deviates(ids):
    """some rank has several members of a group and all of them are flagged"""
    for v in ids.values():
        for g in set(abs(x) for x in v if x):
            m = [x for x in v if abs(x) == g]
            if len(m) > 1 and all(x < 0 for x in m): return True
    return False

def undeviate(rng, ids):
    for v in ids.values():
        for g in set(abs(x) for x in v if x):
            m = [i for i, x in enumerate(v) if abs(x) == g]
            if len(m) > 1 and all(v[i] < 0 for i in m):
                if rng.random() < 0.5: v[rng.choice(m)] = g
                else:
                    for i in m[1:]: v[i] = 0

def gen_vals(rng, dom, op, lens, k):
    """-> (shift, mod, rank -> flat component-major values)"""
    mod = 0; shift = 0; tot = sum(lens.values()) * k
    if op == ADD:
        if dom == FLOAT: shift = rng.choice([-10, 0, 0, 60]); g = lambda: rng.randrange(-100, 101)
        elif dom == DOUBLE: shift = rng.choice([-60, -3, 0, 0, 100]); g = lambda: rng.randrange(-100000, 100001)
        elif dom == INT: shift = rng.choice([0, 0, 3]); g = lambda: rng.randrange(-100000, 100001)
        else: shift = rng.choice([0, 0, 31, 33, 40]); g = lambda: rng.randrange(-10000, 10001)
    elif op == MUL:
        if dom in (LONG, LL, DOUBLE) and rng.random() < 0.6: mod = 1
        budget = [min(36 if dom in (LONG, LL) else 30, 36) if mod else (15 if dom == FLOAT else 18)]
        def g():
            if budget[0] > 0 and rng.random() < 0.5:
                budget[0] -= 1; return rng.choice([2, 3, -2, -3] if budget[0] % 2 else [2, -2])
            return rng.choice([1, -1, 1])
    elif op in (MIN, MAX):
        shift = rng.choice([0, 0, 33] if dom in (LONG, LL) else [0, 0, -20, 90] if dom in (FLOAT, DOUBLE) else [0])
        w = rng.choice([1, 5, 1000, 100000]); ext = rng.random() < 0.15
        g = lambda: rng.choice([TOP, -TOP]) if ext and rng.random() < 0.2 else rng.randrange(-w, w + 1)
    else:
        top = 20 if dom == FLOAT else 30
        base = rng.randrange(1, 1 << top)
        def g():
            x = rng.random()
            if x < 0.1: return 0
            if x < 0.5: return max(1, (base >> rng.randrange(0, 6)) ^ (rng.randrange(4) if rng.random() < 0.5 else 0))
            if x < 0.7: return max(1, base ^ (1 << rng.randrange(0, 12)))
            return rng.randrange(1, 1 << rng.randrange(1, top + 1))
    return shift, mod, {r: [g() for _ in range(n * k)] for r, n in lens.items()}

def put_arr(s, slot, dom, k, lay, vals, shift, mod, lens, rng=None):
    for r, v in vals.items():
        n = lens[r]; st = n + (rng.choice([0, 1, 3]) if rng else 0) if lay == "f" else n
        s.at(r, "arr %d %d %d %d %s %d %d %d %s" % (slot, dom, k, n, lay, shift, mod, st, " ".join(map(str, v))))

class GS:
    """builder: a sequence of collective steps, the same on all ranks of a communicator"""
    def __init__(g, rng, sid, np=None, hi=12, lo=1):
        g.rng = rng; g.np = np or pick_np(rng, lo, hi); g.s = new_scn(rng, sid, g.np)
        g.comms = {}; g.h = {}; g.nid = 0; g.nh = 0; g.na = 0; g.nu = 0; g.nw = 0; g.nf = 0; g.fixed_plan = False; g.plans = {}; g.blocking = False      # blocking: no operation is left outstanding
        g.s.all("comm 0 init -1"); g.comms[0] = [list(range(g.np))]
    def split(g, slot, frm=0):
        rng = g.rng; groups = []      # communicator label = index of its group
        for part in g.comms[frm]:
            ncol = rng.choice([1, 2, 2, 3]); col = {r: rng.randrange(ncol) for r in part}
            rev = rng.random() < 0.5
            lab = {}
            for c in sorted(set(col.values())): lab[c] = len(groups); groups.append([r for r in (part[::-1] if rev else part) if col[r] == c])
            for j, r in enumerate(part): g.s.at(r, "comm %d split %d %d %d %d" % (slot, frm, col[r], len(part) - j if rev else j, lab[col[r]]))
        g.comms[slot] = groups
    def dup(g, slot, frm=0):
        g.s.all("comm %d %s %d" % (slot, g.rng.choice(["dup", "init"]), frm)); g.comms[slot] = g.comms[frm]
    def freecomm(g, slot): g.s.all("cfree %d" % slot); del g.comms[slot]
    def setup(g, c, ids, method, unique=0, fort=0):
        """ids: rank -> list, over all ranks"""
        rng = g.rng; i = g.nid; g.nid += 1; u = -1
        if NONBC[0] and not g.blocking and method not in (1, 2): method = 1 if method == 3 else 2
        for r, v in ids.items(): g.s.at(r, "ids %d %d %s" % (i, len(v), " ".join(map(str, v))))
        if unique:
            u = g.nu; g.nu += 1; j = g.nid; g.nid += 1
            for r in ids: g.s.at(r, "idcp %d %d" % (j, i)); g.s.at(r, "%s %d %d %d" % ("uniq", u, j, c))
        if fort: h = g.nf; g.nf += 1
        else: h = g.nh; g.nh += 1
        for r in ids:
            if method == 0 or method < 0:
                for_r = [rng.choice([1e-6, 1e-3, 5.0, rng.random()]) for _ in range(rng.randrange(1, 9))]
                if g.fixed_plan: for_r = g.plans.setdefault(r, [rng.random() for _ in range(8)])
                g.s.at(r, "tplan " + " ".join("%.9g" % x for x in for_r))
            g.s.at(r, "%s %d %d %d %d %d%s" % ("fset" if fort else "gset", h, i, c, unique, method, " %d" % u if unique else ""))
        g.h[(fort, h)] = dict(c=c, ids=ids, q=unique, me=method)
        return h
    def free(g, h, fort=0): g.s.all("%s %d" % ("ffree" if fort else "gfree", h)); del g.h[(fort, h)]
    def safe_t(g, h, fort=0):
        x = g.h[(fort, h)]
        return not (deviates(x["ids"]) or (x["q"] and local_dup(x["ids"])))
    def array(g, h, dom, op, k, lay, fort=0, slot=None):
        ids = g.h[(fort, h)]["ids"]; lens = {r: len(v) for r, v in ids.items()}
        sh, mod, vals = gen_vals(g.rng, dom, op, lens, k)
        if slot is None: slot = g.na % 48; g.na += 1
        put_arr(g.s, slot, dom, k, lay, vals, sh, mod, lens, g.rng)
        return slot
    def op(g, h, a, op, t, mode, buf=-1, fort=0):
        g.s.all("%s %d %d %d %d %s %d" % ("fgs" if fort else "gs", h, a, op, t, mode, buf))
    def issue(g, w, h, a, op, t, mode, buf, fort=0):
        g.s.all("%s %d %d %d %d %d %s %d" % ("figs" if fort else "igs", w, h, a, op, t, mode, buf))
    def mode(g, k=None):
        m = g.rng.choice("pvm") if k is None else g.rng.choice("vm")
        k = 1 if m == "p" else (k if k is not None else g.rng.choice([1, 2, 2, 3, 5]))
        return m, k, {"p": g.rng.choice("vm"), "v": "v", "m": "m"}[m]
