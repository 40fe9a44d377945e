from vlib import *

def check(c):
    harness()
    f, tot = shards("evaluator", [20000 if THOROUGH else 6000], 8, "evaluator histories", c)
    cases_check(c, "EvaluatorTrace", f, "evaluator histories", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["up to 4 assumptions over up to 6 execution states, two registers with two limbs"]
