from vlib import *

def check(c):
    harness()
    f, tot = shards("rows", [20000 if THOROUGH else 1500], 8, "filled precompile rows", c)
    cases_check(c, "RowsTrace", f, "filled precompile rows", timeout=2500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19; blocks of 1-4 toy instructions over 1-3 generated circuits, 1-4 calls of the precompile; the original rows are sampled from all rows the instruction circuits accept",
                      "original rows form a memory-consistent execution"]
