from vlib import *

def optimizer(c, want, clauses, per_shard, sample, limit=400):
    """Random circuits through the whole optimizer; TLC decides every suspicious run and a sample of the others."""
    harness()
    fx = os.path.join(scratch(), "optfixed.ndjson")
    run_h(["optfixed", fx])
    cases_check(c, "OptTrace", fx, "fixed inputs: " + want, env={"WANT": want}, keyf=lambda case, st: case["key"])
    f, tot = shards("optcases", [per_shard, clauses, sample, limit], 8, "optimizer runs", c)
    cases_check(c, "OptTrace", f, "optimizer runs: " + want, env={"WANT": want}, timeout=1500)
    with open(f) as g:
        x = json.loads(g.readline())
        c.sample(x["text"])
    c.assumptions += ["prime fields with p <= 19 and a toy VM with the bus kinds of OpenVM (execution bridge, memory, range, tuple-range and bitwise lookups)",
                      "the harness only selects which runs are handed to TLC: all suspicious ones (up to 6 per shard) and a sample"]
