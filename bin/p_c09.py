from vlib import *

def check(c):
    harness()
    r = tlc("CandidatesDesign", "CandidatesDesignDeep" if THOROUGH else "CandidatesDesign", timeout=3000)
    c.add_tlc(r, "design of overlap resolution, all schedules")
    if r.violations:
        raise ToolError("the design specification violates its own invariants: " + r.violations[0][1])
    f, tot = shards("candidates", [8000 if THOROUGH else 1500], 8, "tracker histories", c)
    cases_check(c, "CandidatesTrace", f, "tracker histories", timeout=2500)
    c.sample(json.loads(open(f).readline()))
    c.assumptions += ["clock advances by one per executed instruction, conditions are checked once per instruction (as the trait documents)",
                      "up to 4 precompiles of 1..5 cycles, up to 14 execution steps"]
