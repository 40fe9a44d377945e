from vlib import *

def check(c):
    harness()
    n = 3000 if THOROUGH else 800
    path, tot = shards("elf", [n, "lift"], 8, "programs", c)
    cases_check(c, "LiftTrace", path, "loaded programs", timeout=3000, keyf=lambda x, st: "program")
    ops = {}
    for l in open(path):
        for s in json.loads(l)["out"]["stmts"]:
            if s["t"] == "i":
                ops[s["op"]] = ops.get(s["op"], 0) + 1
    c.sample(ops)
    c.assumptions += ["synthetic 32-bit programs (position independent, or with link-time relocations): up to 2 code segments of up to 30 instructions, one data segment",
                      "only instruction sequences the loader accepts; no debug-information sections"]
