from vlib import *
import gzip

def check(c):
    harness()
    d = scratch()
    real = []
    for f in ["single_div_nondet", "wasm_register_reuse"]:
        try:
            with gzip.open(f"/repo/autoprecompiles/tests/{f}.json.gz") as g:
                open(f"{d}/{f}.json", "wb").write(g.read())
            real.append(f"{d}/{f}.json")
        except OSError:
            log(f"no example {f}, skipped")
    per, procs = (600, 8) if THOROUGH else (110, 4)
    threads = [1, 2, 8, 3, 5, 4, 6, 7]
    def one(s, p):
        out = f"{d}/determ-{s}-{p}.nd"
        run_h(["determ", SEED * 64 + s, per, ",".join(real) if s == 0 else "-", out], timeout=1500, env={"RAYON_NUM_THREADS": threads[p]})
        return [json.loads(l) for l in open(out)]
    obs = {}
    for l in par([lambda s=s, p=p: one(s, p) for s in range(8) for p in range(procs)]):
        for x in l:
            obs.setdefault(x["id"], []).append(x["d"])
    f = f"{d}/determ.ndjson"
    with open(f, "w") as g:
        for i, o in obs.items():
            g.write(json.dumps({"id": i, "obs": o}) + "\n")
    c.cov["evaluations"] += sum(len(o) for o in obs.values())
    cases_check(c, "DeterminismTrace", f, "repeated builds", timeout=1500)
    c.sample({"id": "block-64-0", "obs": obs.get("block-64-0")})
    c.assumptions += ["every input is built twice in each of several processes with different numbers of threads; the standard hash maps are seeded differently in each",
                      "generated blocks of up to 24 instructions, generated systems, and two recorded OpenVM blocks of the repository",
                      "blocks are built without empirical constraints"]
