from vlib import *

def check(c):
    harness()
    f, tot = shards("profiles", [20000 if THOROUGH else 1500], 8, "profiles and cost figures", c)
    cases_check(c, "ProfileTrace", f, "profiles and cost figures", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["runs of up to 25 reported events over up to 6 instruction addresses; precompiles of 1-5 toy instructions"]
