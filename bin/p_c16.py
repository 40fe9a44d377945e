from vlib import *

def check(c):
    harness()
    n = 1500 if THOROUGH else 400
    path, tot = shards("vmbus", [n], 8, "bus knowledge", c)
    cases_check(c, "VmBusTrace", path, "bus knowledge at real size", timeout=3000, keyf=lambda x, st: x["kind"] + " " + x.get("b", ""))
    kinds = {}
    for l in open(path):
        x = json.loads(l)
        kinds[x["kind"] + ":" + x.get("b", "")] = kinds.get(x["kind"] + ":" + x.get("b", ""), 0) + 1
    c.sample(kinds)
    c.assumptions += ["BabyBear and KoalaBear; bitwise table enumerated completely per record, range tables at boundaries and sampled values",
                      "variable range checker of 25 bits, tuple checker of 256 x (a power of two)",
                      "payload expressions with at most one variable, three variables in total"]
