from vlib import *

def check(c):
    harness()
    f, tot = shards("index", [4000 if THOROUGH else 250], 8, "index and queue histories", c)
    cases_check(c, "IndexTrace", f, "index and queue histories", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["4 variables over F_3 and F_5, initial systems of up to 3 constraints, 3 bus interactions and 2 derived columns, histories of up to 14 calls plus draining of the queue",
                      "substitutions do not mention the substituted variable (as the callers guarantee)"]
