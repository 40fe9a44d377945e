from vlib import *

def check(c):
    harness()
    f, tot = shards("windows", [8000 if THOROUGH else 2000], 8, "precompile assumptions", c)
    cases_check(c, "BlocksTrace", f, "precompile assumptions", env={"WHAT": "windows"}, timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["block sequences of up to 4 blocks of up to 3 instructions"]
