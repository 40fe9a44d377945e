from vlib import *

def check(c):
    harness()
    n = 600 if THOROUGH else 30
    path, tot = shards("saves", [n], 8, "saved artefacts", c)
    cases_check(c, "SaveTrace", path, "saved artefacts", timeout=3000, keyf=lambda x, st: ("raw " + x["f"] if x["kind"] == "raw" else x.get("what", "system")))
    kinds = {}
    for l in open(path):
        x = json.loads(l)
        key = x["kind"] + ":" + (x["what"] + "/" + x["fmt"] if x["kind"] == "save" else x.get("f", ""))
        kinds[key] = kinds.get(key, 0) + 1
    c.sample(kinds)
    c.assumptions += ["generated artefacts with edge-case numbers, names and sizes; formats JSON (text, value, pretty), CBOR (slice, file), CSV (three modes)"]
