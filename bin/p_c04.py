from vlib import *

def check(c):
    h = harness()
    d = scratch()
    c.add_tlc(tlc("RangeDesign", "RangeDesign5"), "design p=5, all pairs of facts")
    if THOROUGH:
        c.add_tlc(tlc("RangeDesign", "RangeDesign7", timeout=1800), "design p=7, all pairs of facts")
    plan = [(5, 10**6, 10**6), (7, 10**6, 10**6), (11, 600, 60), (13, 600, 60), (17, 600, 30)]
    if THOROUGH:
        plan = [(5, 10**6, 10**6), (7, 10**6, 10**6), (11, 2000, 100), (13, 2500, 100), (17, 3000, 60), (31, 2000, 30)]
    for p, limit, partners in plan:
        f = os.path.join(d, f"rc{p}.ndjson")
        run_h(["rc", p, limit, partners, SEED, f])
        n = sum(len(json.loads(l)["b"]) for l in open(f))
        c.cov["evaluations"] += n
        cases_check(c, "RangeTrace", f, f"recorded operations p={p}", env={"P": p}, timeout=1500)
        f = os.path.join(d, f"rcc{p}.ndjson")
        run_h(["rcctor", p, f])
        cases_check(c, "RangeCtor", f, f"recorded constructors p={p}", env={"P": p}, workers=2)
        c.sample({"p": p, "pairs": n})
    c.assumptions += ["values are field elements of prime fields with p <= 31; behaviour depends on the field only through its modulus"]
