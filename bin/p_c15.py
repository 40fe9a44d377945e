from vlib import *

def check(c):
    harness()
    f, tot = shards("empirical", [20000 if THOROUGH else 2500], 8, "empirical constraints", c)
    cases_check(c, "EmpiricalTrace", f, "empirical constraints", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["1..4 runs of a program of 1..3 basic blocks with 1..3 instructions of 1..3 columns, superblocks of up to 3 blocks, up to 2 successive filters"]
