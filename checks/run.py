#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough : decide one property on /repo's current tree"""
import sys, os, json, time, random, tempfile, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf"))
import core, plan

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "trace_specs": {}, "event_kinds": {}, "distinct_scenarios": 0}
    viol = []; known = []
    kf = core.known_findings(); allow = {n: t for (p, n), t in kf.items() if p == prop}
    shapes = set(); items = {}
    with tempfile.TemporaryDirectory(prefix="vf") as wd:
        # 1. exhaustive checking of the specification itself
        for m in plan.models(prop, tier):
            r = core.model_check(m["module"], m["cfg"], wd, timeout=m.get("timeout", 700), args=m.get("args", ()))
            it = r.pop("items"); r["generated_behaviours"] = len(it); items.setdefault(m.get("use", ""), []).extend(it)
            r["config"] = m["note"]; cov["models"].append(r); cov["states"] += r["distinct"]; cov["transitions"] += r["generated"]
        # 2. executions of the code judged by the specification
        for st in plan.stages(prop, tier):
            rng = random.Random("%s/%s/%d" % (prop, st["name"], seed)); n = st["n"]
            B = core.Batch(prop, core.build(st.get("variant", "std")), st["module"], st["consts"], wd, allow=allow, variant=st.get("variant", "std"))
            if "use" in st:
                if n < 0: scns = st["fam"](rng, items.get(st["use"], []))
                else: it = items[st["use"]]; scns = st["fam"](rng, it if len(it) <= n else rng.sample(it, n))
            else: scns = [st["fam"](rng, "%s-%d" % (st["name"], i)) for i in range(n)]
            for i in range(0, len(scns), 3200):
                B.run(scns[i:i + 3200])
                if B.viol: break
            cov["states"] += B.states; cov["transitions"] += B.events; cov["traces_validated_against_impl"] += B.traces
            d = cov["trace_specs"].setdefault(st["module"], {"scenarios": 0, "events": 0}); d["scenarios"] += len(scns); d["events"] += B.events
            for k, v in B.kinds.items(): cov["event_kinds"][k] = cov["event_kinds"].get(k, 0) + v
            cov["samples"] += B.samples[:1]; shapes |= B.shapes; viol += B.viol
            for name, (sc, ln) in B.known.items(): known.append((name, sc.sid, ln))
            if viol: break
    cov["distinct_scenarios"] = len(shapes)
    for name in sorted(set(k[0] for k in known)):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, name, allow[name]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(viol),
          "assumptions": plan.assumptions(prop)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for p, rej, sid in viol:
        print("rejected event (%s): %s" % (sid, rej[:600])); print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s %s: %d scenarios validated, %d events, %d model states, %.1fs" % (prop, tier, cov["traces_validated_against_impl"], cov["transitions"], sum(m["distinct"] for m in cov["models"]), ev["wall_s"]))
    sys.exit(1 if viol else 0)

try: main()
except core.CheckError as e:
    print("CHECK-ERROR", e); sys.exit(2)
