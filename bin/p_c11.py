from vlib import *

def check(c):
    harness()
    f, tot = shards("basic", [20000 if THOROUGH else 2000], 8, "programs", c)
    cases_check(c, "BlocksTrace", f, "programs", env={"WHAT": "basic"}, timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["all programs of up to 4 instructions, random ones of up to 24"]
