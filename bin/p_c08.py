from vlib import *

def check(c):
    harness()
    f, tot = shards("pass", [20000 if THOROUGH else 2400, "memory,exec", 2700 if THOROUGH else 260, 250], 8, "memory and execution-bridge passes", c)
    cases_check(c, "PassTrace", f, "memory and execution-bridge passes", timeout=2500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19; up to 5 accesses over 2 address spaces, addresses are affine in up to 2 columns of 2-4",
                      "the harness only selects which recorded passes are handed to TLC: all suspicious ones (up to 6 per shard) and a sample"]
