from vlib import *

def check(c):
    harness()
    f, tot = shards("partitions", [30000 if THOROUGH else 6000], 8, "partition operations", c)
    cases_check(c, "PartitionTrace", f, "partition operations", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["elements 0..8, up to 4 distinct partitions per case; sequential, pairwise in random order and parallel merging of up to ~4200 partitions"]
