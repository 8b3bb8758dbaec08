import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf"))
import core, plan
for v in plan.VARIANTS: core.build(v)
