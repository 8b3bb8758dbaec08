import json,sys
sys.path.insert(0,"/verif/vf")
import plan
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE=getattr(plan,"NOTE",{})
D="TLC decides every recorded execution of the real code (deterministic simulated MPI, adversarial schedules) against the TLA+ specification; bounded: small process counts (<=16) and sizes, seeded scenarios; trusts the simulator, the logging driver and TLC."
ch=[];na=[]
for p in P:
    i=p["id"]
    if i in plan.CLAIMED: ch.append({"property":i,"quick_cmd":"python3 checks/run.py %s quick"%i,"thorough_cmd":"python3 checks/run.py %s thorough"%i,"technique":"TLA+ specification checked with TLC; trace validation of the real code against it","level":"model_checking","level_note":NOTE.get(i,D)})
    else: na.append({"property":i,"reason":plan.NA.get(i,"machinery under construction")})
json.dump({"version":1,"setup_cmd":"python3 checks/setup.py","checks":ch,"not_applicable":na,"notes":"No hooks in /repo: everything is observed through the public interface and a simulated MPI."},open("/verif/MANIFEST.json","w"),indent=1)
