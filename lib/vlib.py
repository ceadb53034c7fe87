"""Common machinery of the checks: TLC runs, driver runs, evidence and verdicts."""
import random, json, os, re, shutil, subprocess, sys, time, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")

class CheckError(Exception):
    """The check itself could not give an answer (build failure, TLC error ...)."""

def known_findings(prop):
    """Lines 'known: property=<id> key=<key> <text>' of the committed file -> {key: text}."""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

class TlcResult:
    def __init__(self): self.generated = 0; self.distinct = 0; self.rejects = []; self.prints = []; self.done = None; self.error = None; self.out = ""; self.violated = None

def _unq(s):
    return json.loads(s)

def run_tlc(module, cfg, workdir, env=None, workers="auto", extra=(), timeout=800, simulate=None, heap="3g", depth=None, seed=None, coverage=False):
    """Run TLC on specs/<module>.tla with configuration text cfg. Returns a TlcResult; raises
    CheckError when TLC itself fails (parse error, evaluation error, time-out)."""
    os.makedirs(workdir, exist_ok=True)
    tag = f"{module}-{hashlib.md5((cfg + str(simulate) + str(env)).encode()).hexdigest()[:8]}"
    d = os.path.join(workdir, "tlc-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfgp = os.path.join(d, module + ".cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-Dtlc2.tool.impl.Tool.cdot=true", f"-DTLA-Library={SPECS}", "-cp", JARS, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-deadlock", "-noGenerateSpecTE"]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}"]
        if depth: cmd += ["-depth", str(depth)]
        if seed is not None: cmd += ["-seed", str(seed)]
    if coverage: cmd += ["-coverage", "1"]
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module} after {timeout}s")
    out = p.stdout.decode("utf-8", "replace")
    open(os.path.join(d, "out.txt"), "w").write(out)
    r = TlcResult(); r.out = out; r.wall = time.time() - t0; r.dir = d
    for m in re.finditer(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out):
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", out)
    if m: r.generated = int(m.group(1)); r.distinct = max(r.distinct, 0)
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*("(?:[^"\\]|\\.)*")(?:,\s*(.*?))?\s*>>\s*$', out, re.M):
        r.rejects.append((int(m.group(1)), _unq(m.group(2)), m.group(3)))
    for m in re.finditer(r'^<<\s*"EMIT",\s*("(?:[^"\\]|\\.)*")\s*>>$', out, re.M):
        r.prints.append(_unq(m.group(1)))
    m = re.search(r'^<<"DONE", (\d+)>>$', out, re.M)
    if m: r.done = int(m.group(1))
    m = re.search(r"Error: (Invariant|Action property|Temporal properties|Assumption|Postcondition|Deadlock)[^\n]*", out)
    if m:
        r.violated = m.group(0)
    elif re.search(r"^Error:", out, re.M) or p.returncode not in (0,):
        raise CheckError(f"TLC failed on {module} (exit {p.returncode}):\n" + out[-3000:])
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r

class Ctx:
    def __init__(self, prop, tier, seed, attempt=0):
        self.prop, self.tier, self.seed, self.attempt = prop, tier, seed, attempt
        self.work = os.path.join(VERIF, ".work", f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []       # (key, description, artifact path)
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.notes = {}; self.assumptions = []
        self.t0 = time.time()
        self.thorough = tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- specification level -------------------------------------------------------------
    def model_check(self, module, cfg, **kw):
        """Exhaustively check the design specification itself (no code involved)."""
        r = run_tlc(module, cfg, self.work, **kw)
        if r.violated:
            raise CheckError(f"the specification {module} violates its own property: {r.violated}\n{r.out[-3000:]}")
        self.states += r.distinct; self.transitions += r.generated
        self.notes.setdefault("model_checked", []).append({"module": module, "distinct_states": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def generate(self, module, cfg, sample=None, **kw):
        """Behaviours printed by TLC with PrintT(<<"EMIT", ToJson(...)>>)."""
        r = run_tlc(module, cfg, self.work, **kw)
        if r.violated:
            raise CheckError(f"the specification {module} violates its own property while generating: {r.violated}\n{r.out[-3000:]}")
        self.states += r.distinct; self.transitions += r.generated
        res = []
        seen = set()
        for s in r.prints:
            if s in seen: continue
            seen.add(s); res.append(s)
        if sample is not None and len(res) > sample:
            if kw.get("simulate") is not None:   # siblings share all but their last step: spread over the walks
                rnd = random.Random(self.seed); groups = {}
                for x in sorted(res):
                    j = json.loads(x); groups.setdefault(json.dumps(j[:-1] if isinstance(j, list) else 0), []).append(x)
                for g in groups.values(): rnd.shuffle(g)
                order = sorted(groups); rnd.shuffle(order); res = []
                while len(res) < sample:
                    for k in order:
                        if groups[k] and len(res) < sample: res.append(groups[k].pop())
            else:
                res = random.Random(self.seed).sample(sorted(res), sample)
        res = [json.loads(s) for s in res]
        self.notes.setdefault("generated", []).append({"module": module, "behaviours": len(res), "distinct_states": r.distinct, "wall_s": round(r.wall, 1)})
        return res

    def spread(self, cases, key, n):
        """At most n of the cases (all when n is None), drawn in turn from the groups that key defines."""
        if n is None or len(cases) <= n: return cases
        rng = random.Random(self.seed); groups = {}
        for c in sorted(cases, key=lambda c: json.dumps(c, sort_keys=True)): groups.setdefault(key(c), []).append(c)
        for g in groups.values(): rng.shuffle(g)
        names = sorted(groups); res = []
        while len(res) < n:
            rng.shuffle(names)
            for k in names:
                if groups[k] and len(res) < n: res.append(groups[k].pop())
        return res

    # ---- code level ----------------------------------------------------------------------
    def build(self, *targets):
        sys.path.insert(0, os.path.join(VERIF, "harness"))
        import build as hb
        t = time.time()
        try:
            hb.build(list(targets))
        except SystemExit:
            raise CheckError("harness build failed")
        self.notes["build_s"] = round(self.notes.get("build_s", 0) + time.time() - t, 1)

    def drive(self, exe, script_lines, name="run", args=(), timeout=300, env=None, crash_is_violation=True):
        """Run a driver on a script file; it writes observations (ndjson) to the out file."""
        sp = os.path.join(self.work, name + ".script")
        op = os.path.join(self.work, name + ".obs.ndjson")
        with open(sp, "w") as f:
            for l in script_lines: f.write(l + "\n")
        if os.path.exists(op): os.remove(op)
        if not os.path.isabs(exe): exe = os.path.join(BUILD, exe)
        e = dict(os.environ); e.update(env or {})
        scratch = os.path.join(self.work, name + ".scratch"); os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run([exe, sp, op, *map(str, args)], cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            n = sum(1 for _ in open(op)) if os.path.exists(op) else 0
            self.violate("hang", f"the code did not return within {timeout}s on script {sp} (after {n} observations)", sp)
            return None
        if p.returncode != 0:
            tail = p.stdout.decode("utf-8", "replace")[-1500:]
            if p.returncode == 3:
                raise CheckError(f"driver {exe} reported a harness problem:\n{tail}")
            n = sum(1 for _ in open(op)) if os.path.exists(op) else 0
            if crash_is_violation:
                self.violate("crash", f"the code died (exit {p.returncode}) on script {sp} after {n} observations: {tail[-600:]}", sp)
                return None
            raise CheckError(f"driver {exe} failed ({p.returncode}):\n{tail}")
        return op

    def drive_many(self, exe, script_lines, name="run", jobs=6, **kw):
        """drive() on jobs parts of the script at once; one observation file in the order of the parts."""
        from concurrent.futures import ThreadPoolExecutor
        parts = [p for p in (script_lines[j::jobs] for j in range(jobs)) if p]
        with ThreadPoolExecutor(max_workers=max(1, len(parts))) as ex:
            res = list(ex.map(lambda jp: self.drive(exe, jp[1], f"{name}{jp[0]}", **kw), enumerate(parts)))
        if any(r is None for r in res): return None
        op = os.path.join(self.work, name + ".obs.ndjson")
        with open(op, "w") as f:
            for r in res: f.write(open(r).read())
        return op

    def validate(self, module, obs, cfg=None, consts="", timeout=800, key=None, limit=None, describe=None, env=None, count=None, part=""):
        """Validate the observations in the ndjson file obs against the trace specification
        module: TLC evaluates the specification on every observation and prints the index and
        the failed clause of each one it rejects."""
        n = sum(1 for _ in open(obs))
        if n == 0: raise CheckError(f"empty observation file {obs}")
        cfg = cfg or ("INIT Init\nNEXT Next\n" + consts + "CHECK_DEADLOCK FALSE\n")
        e = {"TRACE": obs}; e.update(env or {})
        r = run_tlc(module, cfg, self.work, env=e, workers=1, timeout=timeout)
        if r.violated: raise CheckError(f"{module}: {r.violated}\n{r.out[-2000:]}")
        if r.done is None:
            raise CheckError(f"{module}: the trace was not consumed to its end\n{r.out[-2000:]}")
        if r.done != n: raise CheckError(f"{module}: consumed {r.done} of {n} observations")
        self.states += r.distinct; self.transitions += r.generated
        self.events += n
        self.traces += count if count is not None else n
        lines = None
        for idx, clause, rest in r.rejects:
            if lines is None: lines = open(obs).read().splitlines()
            ob = lines[idx - 1]
            k = key(clause, json.loads(ob)) if key else clause
            art = os.path.join(self.work, f"reject-{module}-{part}{idx}.json")
            lo = max(0, idx - 60)
            json.dump({"module": module, "clause": clause, "detail": rest, "index": idx, "observation": json.loads(ob), "context": lines[lo:idx], "script": obs.replace(".obs.ndjson", ".script")}, open(art, "w"), indent=1)
            self.violate(k, f"{module} rejects observation {idx} ({clause}): {ob[:500]}", art)
            if len(self.violations) > 200: break
        if not self.samples or len(self.samples) < 6:
            with open(obs) as f:
                ls = f.read().splitlines()
            for j in (0, len(ls)//2):
                self.samples.append({"module": module, "observation": json.loads(ls[j]) if len(ls[j]) < 3000 else ls[j][:3000]})
        return r

    def validate_many(self, module, obs, jobs=6, count=None, **kw):
        """validate() on jobs parts of the observations at once (each observation stands alone)."""
        from concurrent.futures import ThreadPoolExecutor
        lines = open(obs).read().splitlines()
        parts = []
        for j in range(jobs):
            if lines[j::jobs]:
                p = obs.replace(".obs.ndjson", f"-part{j}.obs.ndjson")
                open(p, "w").write("\n".join(lines[j::jobs]) + "\n"); parts.append((j, p))
        t = self.traces
        with ThreadPoolExecutor(max_workers=max(1, len(parts))) as ex:
            list(ex.map(lambda a: self.validate(module, a[1], part=f"{a[0]}-", **kw), parts))
        if count is not None: self.traces = t + count

    def violate(self, key, text, artifact=None):
        self.violations.append((key, text, artifact))

    def evidence(self, level, nviol):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "observations": self.events,
                           "samples": self.samples[:8], **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)

def main(prop, run, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = known_findings(prop)
    ctx = Ctx(prop, tier, seed)
    try:
        run(ctx)
        fresh = [v for v in ctx.violations if v[0] not in known]
        if fresh:
            # only a rejection that repeats is reported
            ctx2 = Ctx(prop, tier, seed, attempt=1)
            run(ctx2)
            fresh2 = [v for v in ctx2.violations if v[0] not in known]
            if not fresh2:
                print(f"note: {len(fresh)} rejection(s) did not repeat and are not reported: {fresh[0][1][:300]}")
            ctx, fresh = ctx2, fresh2
    except CheckError as e:
        print(f"CHECK-ERROR property={prop}: {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    hit = {v[0] for v in ctx.violations if v[0] in known}
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    ctx.evidence(level, len(fresh))
    if fresh:
        seen = set()
        for k, text, art in fresh:
            if k in seen: continue
            seen.add(k)
            if len(seen) > 10: break
            if art is None:
                art = os.path.join(ctx.work, f"violation-{len(seen)}.txt"); open(art, "w").write(text)
            print(f"  {text[:700]}")
            print(f"VIOLATION property={prop} replay={art}")
        sys.exit(1)
    print(f"OK property={prop} tier={tier} states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} observations={ctx.events} wall={time.time()-ctx.t0:.1f}s")
    sys.exit(0)
