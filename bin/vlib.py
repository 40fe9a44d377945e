"""Shared machinery: build the harness from /repo, run TLC, report verdicts, write evidence."""
import json, os, re, subprocess, sys, time, shutil, tempfile, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Crash(Exception):
    """The code under test panicked, or recursed without bound, where the harness called it for an answer."""

    def __init__(self, what, args, stack):
        super().__init__(what)
        self.what, self.cmd, self.stack = what, args, stack


def crash_of(r, args):
    """A Crash if the innermost frame that is either the harness's or the repository's is the repository's."""
    if "has overflowed its stack" in r.stderr:
        return Crash("stack overflow", args, [])
    m = re.search(r"FATAL PANIC ([\s\S]*?)\n((?:\s+\d+: [\s\S]*))", r.stderr)
    if not m:
        return None
    frames = re.findall(r"^\s+at (\S+?):(\d+)", m.group(2).split("rust_begin_unwind")[-1], re.M)
    own = [f"{f}:{l}" for f, l in frames if f.startswith("/repo/") or "/verif/harness/" in f or f.startswith("./src/")]
    if own and own[0].startswith("/repo/"):
        return Crash(m.group(1), args, own[:12])
    return None


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def cargo_env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
    e.update(dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x))
    for k in ("RUST_BACKTRACE", "RUST_LOG", "RUSTFLAGS", "UPDATE_EXPECT"):
        e.pop(k, None)
    return e


def target_dir():
    # /repo/target is ignored by git and usually already holds the compiled third-party dependencies.
    return "/repo/target" if os.path.isdir("/repo/target/debug/deps") else os.path.join(ROOT, "target")


_HARNESS = None


def harness():
    """Builds the harness against /repo's working tree; returns the path of a private copy of it."""
    global _HARNESS
    if _HARNESS:
        return _HARNESS
    e = cargo_env()
    e["CARGO_TARGET_DIR"] = target_dir()
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=e,
                       capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise ToolError("harness build failed")
    log(f"harness built in {time.time()-t:.1f}s")
    _HARNESS = os.path.join(e["CARGO_TARGET_DIR"], "debug", "powdr-verif-harness")
    return _HARNESS


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="powdr-verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_SCRATCH, ignore_errors=True))
    return _SCRATCH


def run_h(args, timeout=600, env=None, ok=(0,), input=None):
    """Runs one harness command; returns its stdout."""
    e = dict(os.environ)
    e.pop("RUST_BACKTRACE", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        r = subprocess.run([harness()] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout,
                           env=e, input=input, cwd=scratch())
    except subprocess.TimeoutExpired:
        raise ToolError(f"harness {args} timed out")
    if r.returncode not in ok:
        c = crash_of(r, [str(a) for a in args])
        if c:
            raise c
        raise ToolError(f"harness {args} exited {r.returncode}: {r.stderr[-2000:]}")
    return r.stdout


def par(fns, n=None):
    """Runs the given thunks in parallel, returns their results in order."""
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return [f.result() for f in [ex.submit(f) for f in fns]]


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.violations = []   # list of (invariant name, last state text, dict of variables)
        self.raw = ""
        self.wall = 0.0


def parse_state(txt):
    d = {}
    cur = None
    for line in txt.splitlines():
        m = re.match(r"^(?:/\\ )?(\w+) = (.*)$", line)
        if m:
            cur = m.group(1)
            d[cur] = m.group(2)
        elif cur and line.strip():
            d[cur] += "\n" + line
    return d


def tlc(module, cfg=None, env=None, workers=None, timeout=600, args=(), heap="6g", cont=True, simulate=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfg = cfg or module
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers or NCPU), "-config", os.path.join(SPEC, cfg + ".cfg"), "-deadlock"]
    if cont and not simulate:
        cmd.append("-continue")
    if simulate:
        cmd += ["-simulate", simulate, "-seed", str(SEED)]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC {module}/{cfg} timed out after {timeout}s")
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    res = TlcResult()
    res.raw = out
    res.wall = time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res.generated, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        res.depth = int(m.group(1))
    # violations: text after "Invariant X is violated", up to the last state of the printed behaviour
    for m in re.finditer(r"Error: (?:Invariant (\w+) is violated|Action property (\w+) is violated|Evaluating invariant (\w+) failed|Temporal properties were violated)[^\n]*\n(.*?)(?=\nError: |\nFinished|\n\d+ states generated|\nProgress|\Z)",
                         out, re.S):
        name = m.group(1) or m.group(2) or m.group(3) or "Temporal"
        if m.group(3):
            raise ToolError("TLC evaluation error:\n" + m.group(0)[:3000])
        body = m.group(4)
        # either a trace ("State n: ...") or, for initial states, the state itself
        states = re.split(r"\nState \d+: [^\n]*\n|^State \d+: [^\n]*\n|\nThe following behavior constitutes[^\n]*\n", body)
        last = [s for s in states if s.strip()][-1] if any(s.strip() for s in states) else ""
        res.violations.append((name, last.strip(), parse_state(last)))
    finished = "Model checking completed" in out or ("Finished in" in out and (res.violations or simulate))
    if "Error:" in out and not res.violations:
        raise ToolError(f"TLC {module}/{cfg}: " + out[out.index("Error:"):][:4000])
    if not finished and not res.violations:
        raise ToolError(f"TLC {module}/{cfg} gave no verdict (exit {r.returncode}): " + out[-3000:] + r.stderr[-1000:])
    if re.search(r"Error: (?!Invariant|Action property|The behavior|The following|Temporal)", out) and not all(
            True for _ in res.violations):
        raise ToolError(out[-3000:])
    return res


class Check:
    """Collects coverage and violations of one property's check and ends the process."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.viol = []
        self.assumptions = []
        self.known = known_findings(pid)
        self.known_hit = {}

    def add_tlc(self, r, label, note=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("runs", []).append(
            {"label": label, "states": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)} | ({"note": note} if note else {}))
        log(f"TLC {label}: {r.generated} generated, {r.distinct} distinct, {len(r.violations)} violations, {r.wall:.1f}s")

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def violation(self, key, detail):
        """key identifies the failing input / history; detail is written to the replay file."""
        for f in self.known:
            if f["key"] == key:
                self.known_hit[key] = f
                return
        self.viol.append((key, detail))

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        replay = None
        if self.viol:
            replay = os.path.join(EVID, "replay", f"{self.pid}.json")
            with open(replay, "w") as f:
                json.dump([{"key": k, "detail": d} for k, d in self.viol[:20]], f, indent=1)
        cov = {k: v for k, v in self.cov.items() if v not in (0, [], None)}
        if not cov:
            cov = {"evaluations": 0}
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - T0, 1), "violations": len(self.viol), "assumptions": self.assumptions}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, f in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
        if self.viol:
            for k, d in self.viol[:5]:
                log("violation:", k, str(d)[:1500])
            print(f"VIOLATION property={self.pid} replay={replay}", flush=True)
            sys.exit(1)
        log(f"{self.pid} ok")
        sys.exit(0)


def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["known"] if f["property"] == pid]


def cases_check(chk, module, path, label, timeout=600, env=None, workers=None, heap="6g", cfg=None, keyf=None):
    """Runs a case-verdict spec: one TLC behaviour per line of `path`; a violating case ends in a state with a
    non-empty set of violated clauses."""
    n = sum(1 for _ in open(path))
    if n == 0:
        raise ToolError(f"{label}: no cases")
    r = tlc(module, cfg=cfg, env={"TRACE": path, **(env or {})}, timeout=timeout, workers=workers, heap=heap)
    chk.add_tlc(r, label)
    chk.cov["traces_validated_against_impl"] += n
    if r.distinct < 2 * n and not r.violations:
        raise ToolError(f"{label}: only {r.distinct} states for {n} cases")
    if r.violations:
        lines = open(path).read().splitlines()
        for name, txt, st in r.violations:
            if '"TOOL"' in st.get("v", ""):
                raise ToolError(f"{label}: malformed case {st}")
            k = int(st.get("k", "0"))
            case = json.loads(lines[k - 1]) if 0 < k <= len(lines) else None
            key = keyf(case, st) if keyf and case else f"{label}#{k}"
            chk.violation(key, {"spec": module, "clause": st.get("v"), "state": txt, "case": case})
    return r


def shards(cmd, tail, n, label, chk, out=None, timeout=800):
    """Runs `cmd seed tail... file` in n parallel processes; concatenates their cases; sums their statistics."""
    d = scratch()
    name = "-".join([cmd] + [str(x).replace(",", "_") for x in tail])
    fs = [os.path.join(d, f"{name}-{i}.ndjson") for i in range(n)]
    outs = par([lambda i=i: run_h([cmd, SEED * 64 + i, *tail, fs[i]], timeout=timeout) for i in range(n)], n=NCPU)
    tot = {}
    for o in outs:
        for k, x in json.loads(o.strip().splitlines()[-1]).items():
            tot[k] = tot.get(k, 0) + x
    out = out or os.path.join(d, f"{name}.ndjson")
    with open(out, "w") as g:
        for f in fs:
            g.write(open(f).read())
            os.unlink(f)
    log(label, tot)
    chk.cov["evaluations"] += tot.get("cases", 0)
    chk.cov.setdefault("generated", []).append({"label": label, **tot})
    return out, tot
