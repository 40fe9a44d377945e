from vlib import *

def check(c):
    harness()
    f, tot = shards("pass", [27000 if THOROUGH else 2700, "rules,rulesdb,inline,exhaustive,split,disconnected,range,lowdegree,search", 2700 if THOROUGH else 180, 250], 8, "single passes", c)
    cases_check(c, "PassTrace", f, "single passes", timeout=2500)
    c.sample(json.loads(open(f).readline())["text"])
    c.assumptions += ["prime fields with p <= 19, toy buses; systems of 2-6 columns plus gadget columns; about half of the systems already have the solver's conclusions substituted, as in the pipeline",
                      "the harness only selects which recorded passes are handed to TLC: all suspicious ones (up to 6 per shard) and a sample",
                      "the low-degree pass is only run after solving, as the pipeline does; splitting is run on items that mention a column"]
