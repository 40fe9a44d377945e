from vlib import *

def check(c):
    harness()
    f, tot = shards("guards", [30000 if THOROUGH else 1500, 3000 if THOROUGH else 350, 6000 if THOROUGH else 700], 8, "guarded precompiles", c)
    cases_check(c, "GuardTrace", f, "guarded precompiles", timeout=2500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19; blocks of 1-2 toy instructions with generated circuits; all rows are enumerated (circuits with too many rows are left out)",
                      "the circuit before guarding is the last one the optimizer exports",
                      "builds refused by the builder's own degree assertion are left out if the unguarded circuit is linear or a multiplicity has the maximal degree"]
