from vlib import *

def check(c):
    harness()
    n = 4000 if THOROUGH else 1000
    path, tot = shards("elf", [n, "labels"], 8, "binaries", c)
    cases_check(c, "JumpTrace", path, "jump destinations", timeout=3000, keyf=lambda x, st: x["kind"])
    kinds = {}
    for l in open(path):
        x = json.loads(l)
        kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.sample(kinds)
    c.assumptions += ["synthetic binaries with up to 2 code segments of up to 24 instructions, one data segment, and relocations",
                      "address pairs are adjacent instructions; immediates of jumps are even"]
