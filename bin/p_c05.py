from vlib import *

def check(c):
    harness()
    n = 1200 if THOROUGH else 220
    path, tot = shards("exprs", [n], 8, "expression histories", c)
    cases_check(c, "ExprTrace", path, "expression histories", timeout=3000)
    for l in open(path):
        x = json.loads(l)
        if len(c.cov["samples"]) < 4 and not any(s["mode"] == x["mode"] for s in c.cov["samples"]):
            c.sample({"mode": x["mode"], "p": x["p"], "ops": [e["op"] for e in x["ev"]]})
    c.assumptions += ["expressions of up to 160 nodes over at most 4 variables and fields with p <= 11; behaviour depends on the field only through its modulus"]
