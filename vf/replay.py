"""replay.py FILE: run a recorded violating scenario again on the current tree and judge it"""
import sys, json, re, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
t = open(sys.argv[1]).read()
m = re.match(r"# property (\w+), specification (\w+) (\{.*\}) variant (\w+)", t)
body = t[t.index("\nS ") + 1:t.index("\n# trace")]
class X(core.Scn):
    def text(s): return body.strip() + "\n"
with tempfile.TemporaryDirectory() as wd:
    b = core.build(m.group(4))
    of, ev = core.simulate(b, body.strip() + "\n", wd, "replay")
    mt, n, kn, out = core.judge(m.group(2), json.loads(m.group(3)), of, wd, len(ev))
    print("matched %d of %d events" % (mt, n)); 
    if mt < n: print("rejected:", ev[mt])
    if kn: print("deviations:", kn)
    if "-v" in sys.argv: print("\n".join(ev)); print(out)
    sys.exit(1 if mt < n else 0)
