from vlib import *

def check(c):
    harness()
    f, tot = shards("superblocks", [20000 if THOROUGH else 3000], 8, "executions", c)
    cases_check(c, "BlocksTrace", f, "executions", env={"WHAT": "super"}, timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["up to 5 basic blocks, executions of up to about 30 block visits; executions end at the end of a block"]
