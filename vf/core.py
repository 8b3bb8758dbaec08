"""Build the library from /repo's current tree, run scenarios on the simulator, let TLC judge the traces."""
import os, sys, subprocess, hashlib, json, tempfile, shutil, random, time, re, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 8))

class CheckError(Exception): pass

def sh(cmd, timeout=600, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors="replace")

# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(f.encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

FLAGS = {"std": ([], ""), "blas": (["-DGSLIB_USE_CBLAS"], "-lopenblas"), "mxm": (["-DGSLIB_EXT_MXM"], ""), "serial": ([], ""), "nonbc": ([], ""), "int": ([], ""), "long": ([], ""), "llong": ([], "")}
# configurations of the library other than the default (MPI, nonblocking collectives, int / long long)
CFG = {"serial": "-DGSLIB_USE_GLOBAL_LONG_LONG", "nonbc": "-DGSLIB_USE_MPI -DGSLIB_USE_GLOBAL_LONG_LONG", "int": "-DGSLIB_USE_MPI -DGSLIB_USE_NBC",
       "long": "-DGSLIB_USE_MPI -DGSLIB_USE_NBC -DGSLIB_USE_LONG -DGSLIB_USE_GLOBAL_LONG", "llong": "-DGSLIB_USE_MPI -DGSLIB_USE_NBC -DGSLIB_USE_LONG_LONG -DGSLIB_USE_GLOBAL_LONG_LONG"}
def build(variant="std"):
    flags, libs = FLAGS[variant]
    base = os.path.join(VERIF, ".build"); os.makedirs(base, exist_ok=True)
    out = os.path.join(base, tree_hash() + "-" + variant)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            old = [os.path.join(base, d) for d in os.listdir(base) if d != "lock"]
            for d in sorted(old, key=os.path.getmtime)[:-6]:
                if time.time() - os.path.getmtime(d) > 1800: shutil.rmtree(d, ignore_errors=True)
            r = sh(["bash", os.path.join(VERIF, "harness", "build.sh"), out] + list(flags), env=dict(os.environ, REPO=REPO, LIBS=libs, CFG=CFG.get(variant, "")))
            if r.returncode: raise CheckError("build failed:\n" + r.stdout[-3000:])
            open(os.path.join(out, "ok"), "w").close()
        os.utime(out)
    return out

# ------------------------------------------------------------------ scenarios
class Scn:
    def __init__(s, sid, np, seed=1, pol=1, eager=0, colsync=1, fill=0xA5):
        s.sid, s.np, s.seed, s.pol, s.eager, s.colsync, s.fill = sid, np, seed, pol, eager, colsync, fill
        s.prog = [[] for _ in range(np)]
    def all(s, line):
        for p in s.prog: p.append(line)
    def at(s, r, line): s.prog[r].append(line)
    def text(s):
        o = ["S %s np=%d seed=%d pol=%d eager=%d colsync=%d fill=%d" % (s.sid, s.np, s.seed, s.pol, s.eager, s.colsync, s.fill)]
        for r in range(s.np): o.append("R %d" % r); o += s.prog[r]
        o.append("E"); return "\n".join(o) + "\n"

def simulate(bld, text, wd, name):
    sf, of = os.path.join(wd, name + ".scn"), os.path.join(wd, name + ".ndjson")
    open(sf, "w").write(text)
    r = sh([os.path.join(bld, "sim"), os.path.join(bld, "rank.so"), wd, sf, of], timeout=800, env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
    if r.returncode: raise CheckError("simulator failed: %d %s" % (r.returncode, r.stdout[-500:]))
    # blank lines and (after a crash) a torn last line of a scenario are dropped
    good = []
    for ln in open(of, errors="replace"):
        ln = ln.strip()
        if not ln: continue
        try: json.loads(ln)
        except ValueError: ln = '{"e":"torn","r":-1}'
        good.append(ln)
    good.append('{"e":"scn","r":-1,"id":"eof","np":1}')
    open(of, "w").write("\n".join(good) + "\n")
    return of, good

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, wd, env=None, args=(), timeout=800, heap="3g"):
    md = tempfile.mkdtemp(dir=wd)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-config", cfg] + list(args) + [os.path.join(VERIF, "spec", module + ".tla")]
    e = dict(os.environ); e.update(env or {}); e["JAVA_TOOL_OPTIONS"] = ""
    try: r = sh(cmd, timeout=timeout, env=e); out = r.stdout
    except subprocess.TimeoutExpired: raise CheckError("TLC timed out on " + module)
    shutil.rmtree(md, ignore_errors=True)
    return out

def write_cfg(wd, name, body):
    p = os.path.join(wd, name + ".cfg"); open(p, "w").write(body); return p

def trace_cfg(consts):
    return "SPECIFICATION TSpec\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n" + ("CONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) if consts else "") + "\n"

def judge(module, consts, of, wd, n):
    """-> (matched events, total, known deviations [(name, line)], distinct states)"""
    cfg = write_cfg(wd, "c%s" % os.path.basename(of), trace_cfg(consts))
    for attempt in (0, 1):
        out = tlc(module, cfg, wd, env={"TRACE": of}, args=["-workers", "1"])
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
        if m and int(m.group(2)) == n:
            kn = [(a, int(b)) for a, b in re.findall(r'<<"KNOWN", "([^"]+)", (\d+)>>', out)]
            return int(m.group(1)), n, kn, out
        # an evaluation error (e.g. a field outside every domain) is a rejection at the depth reached
        if "Error:" in out and attempt == 1:
            m = re.search(r"The depth of the complete state graph search is (\d+)", out)
            st = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]
            if st and "evaluat" in out: return max(st) - 1, n, [], out
            raise CheckError("TLC error in %s:\n%s" % (module, out[-3000:]))
    raise CheckError("TLC gave no verdict in %s:\n%s" % (module, out[-3000:]))

class Batch:
    """validates scenarios against a trace specification"""
    def __init__(s, prop, bld, module, consts, wd, allow=(), variant="std"):
        s.variant = variant; s.prop, s.bld, s.module, s.consts, s.wd, s.allow = prop, bld, module, consts, wd, set(allow)
        s.events = s.traces = s.states = 0; s.kinds = {}; s.viol = []; s.known = {}; s.samples = []; s.shapes = set()
    def chunk(s, idx, scns):
        of, ev = simulate(s.bld, "".join(x.text() for x in scns), s.wd, "%s_%s_%s" % (s.prop, s.module, idx))
        left = ev; bad = []; kn_all = []; base = 0; nst = 0; n_ok = 0
        todo = scns
        while True:
            m, n, kn, out = judge(s.module, s.consts, of, s.wd, len(left)); nst += m + 1
            starts = [i for i, ln in enumerate(left) if '"e":"scn"' in ln]
            for name, line in kn:
                k = max(i for i, st in enumerate(starts) if st < line)
                kn_all.append((name, todo[k], left[line - 1]))
            if m >= n: n_ok += len(todo); break
            k = max(i for i, st in enumerate(starts) if st <= m)
            if starts[k] == m and k > 0: k -= 1          # the previous scenario never finished
            n_ok += k
            if k >= len(todo): raise CheckError("rejected sentinel")
            bad.append((todo[k], left[starts[k]:starts[k + 1]], left[m] if m < len(left) else "", out))
            if len(bad) >= 2: break
            todo = todo[k + 1:]; left = left[starts[k + 1]:]
            if not todo: break
            open(of, "w").write("\n".join(left) + "\n")
        os.unlink(of)
        return ev, bad, kn_all, nst, n_ok
    def run(s, scns, nchunk=None):
        if not scns: return
        nchunk = nchunk or NCPU
        order = sorted(scns, key=lambda x: -x.np)      # spread heavy ones
        parts = [order[i::nchunk] for i in range(nchunk)]; parts = [p for p in parts if p]
        with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(lambda a: s.chunk(*a), enumerate(parts)))
        for ev, bad, kn, nst, nok in res:
            s.events += len(ev); s.states += nst; s.traces += nok
            for ln in ev:
                k = re.match(r'\{"e":"(\w+)"', ln); k = k.group(1) if k else "?"
                s.kinds[k] = s.kinds.get(k, 0) + 1
            for name, sc, ln in kn:
                if name in s.allow: s.known.setdefault(name, (sc, ln))
                else: bad.append((sc, [ln], ln, "unlisted deviation " + name))
            for b in bad:
                if len(s.viol) < 3: s.confirm(*b)
            if not s.samples and ev: s.samples.append({"scenario": parts[0][0].text()[:1500], "trace": [x[:300] for x in ev[:8]]})
        for x in scns: s.shapes.add(hashlib.md5(re.sub(r"^S .*\n", "", x.text()).encode()).hexdigest() + "%d%d%d" % (x.pol, x.eager > 0, x.colsync))
    def confirm(s, scn, trace, line, out):
        of, ev = simulate(s.bld, scn.text(), s.wd, "confirm")
        m, n, kn, out2 = judge(s.module, s.consts, of, s.wd, len(ev))
        un = [k for k in kn if k[0] not in s.allow]
        if m >= n and not un:      # depends on something outside the scenario (memory layout): judge the recorded trace once more
            ev = trace + ['{"e":"scn","r":-1,"id":"eof","np":1}']; open(of, "w").write("\n".join(ev) + "\n")
            m, n, kn, out2 = judge(s.module, s.consts, of, s.wd, len(ev)); un = [k for k in kn if k[0] not in s.allow]
            if m >= n and not un: raise CheckError("rejection of %s did not repeat" % scn.sid)
        rej = ev[m] if m < n else ev[un[0][1] - 1]
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (s.prop, len(os.listdir(d))))
        open(p, "w").write("# property %s, specification %s %s variant %s\n# rejected event %d: %s\n# replay: python3 %s/vf/replay.py %s\n%s\n# trace\n%s\n" %
            (s.prop, s.module, json.dumps(s.consts), s.variant, m + 1, rej[:2000], VERIF, p, scn.text(), "\n".join(ev)))
        s.viol.append((p, rej, scn.sid))

# ------------------------------------------------------------------ exhaustive model checking
def model_check(module, cfg_body, wd, workers=None, timeout=800, args=()):
    """-> dict(states, distinct) ; raises if the model itself violates a property"""
    cfg = write_cfg(wd, module + "_mc_%d" % random.getrandbits(30), cfg_body)
    out = tlc(module, cfg, wd, args=["-workers", str(workers or NCPU), "-deadlock"] + list(args) if "CHECK_DEADLOCK TRUE" not in cfg_body else ["-workers", str(workers or NCPU)] + list(args), timeout=timeout, heap="8g")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if "No error has been found" not in out or not m: raise CheckError("model %s: %s" % (module, out[-3000:]))
    items = [json.loads(json.loads('"' + x + '"')) for x in sorted(set(re.findall(r'^"GEN(.*)"$', out, re.M)))]
    return {"module": module, "generated": int(m[-1][0]), "distinct": int(m[-1][1]), "items": items}

def known_findings():
    """name -> (property, text) from known_findings.txt (lines 'known: property=<id> name=<name> <text>')"""
    d = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\w+) name=(\S+) (.*)", ln)
            if m: d[(m.group(1), m.group(2))] = m.group(3)
    return d
