from vlib import *

def check(c):
    harness()
    n = 600 if THOROUGH else 26
    path, tot = shards("numbers", [n], 8, "field operations", c)
    cases_check(c, "NumberTrace", path, "field operations at real size", timeout=3000, heap="12g")
    ops = {}
    for l in open(path):
        x = json.loads(l)
        ops[x["f"] + ":" + x["op"]] = ops.get(x["f"] + ":" + x["op"], 0) + 1
    c.sample(ops)
    c.assumptions += ["operands: edge values, values hitting the carry and borrow cases of 64-bit reduction, random values; not all pairs",
                      "integers outside (-p, p) may be refused instead of being reduced"]
