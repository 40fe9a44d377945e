from vlib import *

def check(c):
    harness()
    f, tot = shards("literals", [4000 if THOROUGH else 400], 8, "blocks with checkable columns", c)
    cases_check(c, "LiteralsTrace", f, "blocks with checkable columns", timeout=2500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19; superblocks of 1-9 toy instructions over 1-3 generated circuits with 1-4 memory accesses each, 1-3 limbs per word; registers have addresses known from the instruction and a memory space of their own, at most one access per instruction goes to a computed address",
                      "2-5 honest executions per block"]
