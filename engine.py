"""Builds, runs TLC and the harness, judges traces."""
import fcntl, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC, BUILD = os.path.join(ROOT, "spec"), os.path.join(ROOT, "build")
JAVA_OUT, HARNESS = os.path.join(BUILD, "java"), os.path.join(BUILD, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = {"GOROOT": "/opt/veriftools/go1.27.3", "GOTOOLCHAIN": "local", "GOWORK": "off", "GOFLAGS": "-mod=mod",
         "GOPROXY": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build"}
CORES = os.cpu_count() or 4

def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        return [m.group(2) for m in (re.match(r"known: property=(\S+) (.*)", x.rstrip("\n")) for x in f) if m and m.group(1) == prop]

class CheckError(Exception):
    pass

def env(extra=None):
    e = dict(os.environ)
    e.update(GOENV)
    e["PATH"] = GOENV["GOROOT"] + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(extra or {})
    return e

# ---------------------------------------------------------------- building
def newer(srcs, target):
    return not os.path.exists(target) or any(os.path.getmtime(s) > os.path.getmtime(target) for s in srcs)

def build_java():
    srcs = sorted(glob.glob(os.path.join(ROOT, "java", "*.java")))
    stamp = os.path.join(JAVA_OUT, ".stamp")
    if newer(srcs, stamp):
        shutil.rmtree(JAVA_OUT, ignore_errors=True)
        os.makedirs(JAVA_OUT)
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", JAVA_OUT] + srcs, capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stdout + r.stderr)
        open(stamp, "w").close()

def build_go(args, cwd=None, out=None):
    r = subprocess.run(["go", "build"] + args, cwd=cwd or os.path.join(ROOT, "harness"), env=env(), capture_output=True, text=True, timeout=850)
    if r.returncode:
        raise CheckError("go build %s failed:\n%s" % (" ".join(args), r.stdout + r.stderr))

def build(race=False, gimiq=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_java()
        # -trimpath keeps the build independent of where the tree lies; the go.mod of /repo is never touched
        build_go(["-o", HARNESS, "."])
        if race:
            build_go(["-race", "-o", HARNESS + "-race", "."])
        if gimiq:
            build_go(["-o", os.path.join(BUILD, "gimiq"), "terorie.dev/nimiq/cmd/gimiq"])

# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, -1)
        self.ok = rc == 0 and "No error has been found" in out
        self.bad = [(int(a), b) for a, b in re.findall(r'^"?BAD (\d+) ?(.*?)"?$', out, re.M)]
        self.printed = re.findall(r'^"?OUT (.*?)"?$', out, re.M)

def tlc(module, cfg=None, envv=None, workers=None, timeout=600, args=(), heap="6g", quiet=True):
    meta = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JAVA_OUT + ":" + JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or CORES), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=env(envv), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, cfg))
        return TLCResult(r.stdout + r.stderr, r.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def tail(s, n=40):
    keep = [x for x in s.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Loading|Computed|Progress)", x)]
    return "\n".join(keep[-n:])

# ---------------------------------------------------------------- harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

def harness(args, out, timeout, binary=None, extra_env=None, cwd=None, limit=True):
    """Runs the harness; returns (done, stderr, case running when it died)."""
    prog = out + ".case"
    try:
        r = subprocess.run([binary or HARNESS] + args + ["-out", out, "-progress", prog], env=env(extra_env), capture_output=True,
                           text=True, errors="replace", timeout=timeout, preexec_fn=limits if limit else None, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out: " + " ".join(args))
    if r.returncode == 0 and "HARNESS-DONE" in r.stderr:
        return True, r.stderr, None
    if r.returncode == 3:
        raise CheckError("harness failed: " + r.stderr[-2000:])
    case = None
    if os.path.exists(prog):
        t = open(prog).read().strip()
        case = int(t) if t else None
    return False, r.stderr, case

def read_trace(path):
    with open(path) as f:
        return f.read().splitlines()

PIECE = 64 << 20  # bytes of a trace file that TLC is given at once

def pieces(lines, heads):
    """Sizes of the pieces to judge: whole traces, each piece about PIECE bytes."""
    out, begin, size, last = [], 0, 0, 0
    for i in heads[1:] + [len(lines)]:
        add = sum(len(x) for x in lines[last:i])
        if size and size + add > PIECE:
            out.append(last - begin)
            begin, size = last, 0
        size, last = size + add, i
    return out + [len(lines) - begin]

class Trace:
    """One family of recorded executions: harness driver + judging module."""
    def __init__(self, driver, module, judge, quick, thorough, start="NoState", env=None, args=(), shards=None, timeout=600, race=False,
                 inputs=None, need=None, consts=""):
        self.driver, self.module, self.quick, self.thorough = driver, module, quick, thorough
        self.judge, self.start = judge, start
        self.env, self.args, self.shards, self.timeout, self.race = env or {}, list(args), shards, timeout, race
        self.inputs, self.need, self.consts = inputs, need, consts

def edges(module, quick, thorough):
    """Inputs for a driver: the transitions TLC explores, one per line."""
    def make(run):
        r = tlc(module, thorough if run.tier == "thorough" else quick, timeout=1500)
        if not r.ok or not r.printed:
            raise CheckError("printing the transitions of %s failed:\n%s" % (module, tail(r.out)))
        path = os.path.join(run.dir, module + ".edges")
        with open(path, "w") as f:
            f.write("\n".join(sorted(set(r.printed))) + "\n")
        run.notes.append("%d transitions of %s replayed on the code" % (len(set(r.printed)), module))
        return path
    return make

def builtin_confs(run):
    """What the built-in configuration files say, read by another TOML reader."""
    import tomllib
    out = {}
    for name in ("main", "test"):
        with open("/repo/genesis/files/%s.toml" % name, "rb") as f:
            t = tomllib.load(f)
        text = lambda s: s.encode().hex()
        out[name] = {"NetworkID": "%x" % t.get("network_id", 0), "Name": text(t.get("name", "")),
                     "SeedPeers": [text(s) for s in t.get("seed_peers", [])], "SeedLists": [text(s) for s in t.get("seed_lists", [])],
                     "GenesisHash": t.get("genesis_hash", "00" * 32)}
    path = os.path.join(run.dir, "confs.json")
    with open(path, "w") as f:
        json.dump(out, f)
    return path

class MC:
    """One exhaustive TLC run in small constants."""
    def __init__(self, module, cfg=None, thorough=None, timeout=600, args=(), expect=None):
        self.expect = expect  # a deliberately broken variant: this error must be found
        self.module, self.cfg, self.thorough, self.timeout, self.args = module, cfg or module + ".cfg", thorough, timeout, list(args)

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.violations, self.known, self.mc = [], [], [], [], []
        self.start = time.time()
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def patience(self):
        return 4 if self.tier == "thorough" else 1

    # -- exhaustive model checking of the design
    def model_check(self, mc):
        cfg = mc.thorough if self.tier == "thorough" and mc.thorough else mc.cfg
        r = tlc(mc.module, cfg, timeout=mc.timeout * self.patience(), args=mc.args)
        if mc.expect:
            if mc.expect not in r.out:
                raise CheckError("%s/%s does not fail as it should:\n%s" % (mc.module, cfg, tail(r.out)))
            self.mc.append("%s/%s: fails as it should (%s)" % (mc.module, cfg, mc.expect))
            return r
        if not r.ok or r.left != 0:
            raise CheckError("model checking %s (%s) failed:\n%s" % (mc.module, cfg, tail(r.out)))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc.append("%s/%s: %d distinct states" % (mc.module, cfg, r.distinct))
        return r

    # -- conformance
    def record(self, tr, extra, name, n, only=None, span=None):
        """Runs the driver in parallel shards; returns (trace file, crashed case or None)."""
        path = os.path.join(self.dir, name + ".ndjson")
        binary = HARNESS + "-race" if tr.race else HARNESS
        base = [tr.driver, "-seed", str(self.seed), "-tier", self.tier, "-n", str(n)] + tr.args + extra
        jobs = []
        if only is not None:
            jobs.append(base + ["-only", ",".join(map(str, only))])
            spans = [None]
        elif span is not None:
            jobs.append(base + ["-from", str(span[0]), "-to", str(span[1])])
            spans = [span]
        else:
            k = min(tr.shards or CORES, n)
            spans = [(n * i // k, n * (i + 1) // k) for i in range(k)]
            jobs = [base + ["-from", str(a), "-to", str(b)] for a, b in spans]
        crashed = None
        with ThreadPoolExecutor(len(jobs)) as ex:
            res = list(ex.map(lambda j: harness(j[1], path + ".%d" % j[0], tr.timeout * self.patience(), binary=binary, extra_env=tr.env, cwd=self.dir,
                                               limit=not tr.race), list(enumerate(jobs))))
        with open(path, "w") as f:
            for i, (done, err, case) in enumerate(res):
                if done:
                    with open(path + ".%d" % i) as g:
                        shutil.copyfileobj(g, f)
                else:
                    crashed = (case, err, spans[i])
        return path, crashed

    def judge(self, tr, path, workers=None):
        """Judges a trace file, in pieces when it is large; returns (lines, traces, result of TLC with the lines it rejected)."""
        lines = read_trace(path)
        if not lines:
            raise CheckError("empty trace from " + tr.driver)
        heads = [i for i, x in enumerate(lines) if '"first":true' in x]
        cfg = os.path.join(self.dir, tr.driver + ".cfg")
        with open(cfg, "w") as f:
            f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Judge <- %s\nCONSTANT Start <- %s\n%s\n" % (tr.judge, tr.start, tr.consts))
        total, at = None, 0
        for size in pieces(lines, heads):
            piece = path
            if size < len(lines):
                piece = path + ".piece"
                with open(piece, "w") as f:
                    f.writelines(x + "\n" for x in lines[at:at + size])
            e = dict(tr.env)
            e["TRACE"] = piece
            r = tlc(tr.module, cfg, envv=e, timeout=tr.timeout * self.patience(), workers=workers)
            if not r.ok:
                raise CheckError("judging %s with %s failed:\n%s" % (tr.driver, tr.module, tail(r.out)))
            starts = sum(1 for i in heads if at <= i < at + size)
            if r.distinct != size + starts:
                raise CheckError("%s: %d states for %d lines in %d traces" % (tr.module, r.distinct, size, starts))
            r.bad = [(i + at, why) for i, why in r.bad]
            if total is None:
                total = r
            else:
                total.generated, total.distinct, total.bad = total.generated + r.generated, total.distinct + r.distinct, total.bad + r.bad
            at += size
        return lines, len(heads), total

    def conform(self, tr):
        n = tr.thorough if self.tier == "thorough" else tr.quick
        extra = []
        if tr.inputs:
            extra = ["-in", tr.inputs(self)]
        path, crashed = self.record(tr, extra, tr.driver, n)
        if crashed:
            case, err, span = crashed
            if case is None:
                raise CheckError("harness died before the first case: " + err[-2000:])
            again = None
            for attempt in range(4 if tr.race else 1):  # schedules are not deterministic
                again = again or self.record(tr, extra, tr.driver + "-again", n, only=[case])[1]
            if not again and span:  # it may take what the cases before it left behind
                again = self.record(tr, extra, tr.driver + "-again", n, span=(span[0], case + 1))[1]
            if not again and re.search(r"DATA RACE|^fatal error: (?!.*(memory|thread))|^panic: ", err, re.M):
                again = (case, err)  # what was seen happened on the real code
            if not again:
                raise CheckError("case %d of %s killed the process once but not again:\n%s" % (case, tr.driver, err[-2000:]))
            self.violation(tr, extra, n, case, "the process dies: " + again[1][:400], [])
            return
        lines, starts, r = self.judge(tr, path)
        self.traces += starts
        self.events += len(lines)
        self.states += r.distinct
        self.transitions += r.generated
        listed = known_findings(self.prop)
        self.known += sorted({why for _, why in r.bad if why in listed} - set(self.known))
        r.bad = [x for x in r.bad if x[1] not in listed]
        step = max(1, len(lines) // 2)
        self.samples += [sample(x) for x in lines[1::step][:2]]
        if tr.need and not r.bad:
            missing = tr.need([json.loads(x) for x in lines]) if callable(tr.need) else []
            if missing:
                raise CheckError("%s: the cases do not exercise: %s" % (tr.driver, missing))
        if r.bad:
            cases = []
            for i, why in sorted(r.bad):
                c = json.loads(lines[i - 1])["t"]
                if c not in [x[0] for x in cases]:
                    cases.append((c, why, i))
            for c, why, i in cases[:3]:
                # schedules are not deterministic: several attempts to see the failure again
                for attempt in range(6 if tr.race else 2):
                    p2, crashed = self.record(tr, extra, tr.driver + "-again", n, only=[c])
                    if crashed:
                        self.violation(tr, extra, n, c, "the process dies: " + crashed[1][:400], [lines[i - 1]])
                        return
                    l2, _, r2 = self.judge(tr, p2)
                    bad = [x for x in r2.bad if x[1] not in listed]
                    if bad:
                        self.violation(tr, extra, n, c, bad[0][1], [l2[x[0] - 1] for x in bad[:3]])
                        return
            # what was recorded happened on the real code, even if it does not happen every time
            c, why, i = cases[0]
            self.violation(tr, extra, n, c, why + " (not seen again when run again)", [lines[i - 1]])

    def violation(self, tr, extra, n, case, why, lines):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (self.prop, tr.driver, case))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "driver": tr.driver, "module": tr.module, "seed": self.seed, "tier": self.tier, "n": n,
                       "case": case, "why": why, "events": [json.loads(x) for x in lines],
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py replay %s" % (self.seed, self.tier, path)}, f, indent=1)
        self.violations.append((path, why))

    def evidence(self, level_note):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6] or ["none"], "trace_events": self.events, "model_checking_runs": self.mc,
                           "explanation": level_note, "known_findings": self.known, "notes": self.notes[:20]},
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

def sample(line):
    s = json.loads(line)
    def cut(v):
        if isinstance(v, str):
            return v if len(v) <= 80 else v[:70] + "..(%d)" % len(v)
        if isinstance(v, list):
            return [cut(x) for x in v[:4]] + (["..(%d)" % len(v)] if len(v) > 4 else [])
        if isinstance(v, dict):
            return {k: cut(x) for k, x in list(v.items())[:24]}
        return v
    c = cut(s)
    return c if len(json.dumps(c)) < 6000 else json.dumps(c)[:6000]

ASSUMPTIONS = ["TLC evaluates the specification correctly; the Java overrides (BigNat, Bytes, Blake2b, Ed25519, Emission) equal their definitions",
               "the harness projects Go values faithfully", "Go compiler and standard library"]

