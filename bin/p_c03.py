from vlib import *

def check(c):
    harness()
    f, tot = shards("solver", [12000 if THOROUGH else 3500, 1500 if THOROUGH else 180, 300], 8, "solver histories", c)
    cases_check(c, "SolverTrace", f, "solver histories", timeout=1500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19; up to 5 columns plus those of special gadgets; up to 3 solving phases"]
