from vlib import *

def check(c):
    harness()
    f, tot = shards("pgo", [8000 if THOROUGH else 1200], 8, "selections", c)
    cases_check(c, "BlocksTrace", f, "selections", env={"WHAT": "pgo"}, timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["up to 5 basic blocks, superblocks of up to 3 blocks, made-up positive costs and arbitrary values; ties in value per cost may be resolved either way"]
