"""Infrastructure shared by all checks: building harnesses from /repo's working tree, running TLC, executing cases
against the real code with crash and hang isolation, comparing observations with what the specification says,
validating recorded traces with TLC, and reporting."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.setrecursionlimit(100000)
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CONFIGOR_REPO", "/repo")
DIALECT = "CONFIGOR_DIALECT" in os.environ   # a check run by another one (see dialect)
WORK = os.path.join(VERIF, "work", *(["dialect"] if DIALECT else []))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ the run of one check

class Check:
    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier or TIER, level
        self.seed = SEED
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.extra = {}

    @property
    def quick(self): return self.tier == "quick"

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, int) and not isinstance(v, bool) else v
        log(f"[{self.prop} {time.time()-self.t0:6.1f}s] {name}: {d}")

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

    def violation(self, what, **info):
        """Record a violation (the first few are kept with a replay file)."""
        n = len(self.violations) + 1
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **info), f, indent=1, default=str)
        self.violations.append((what, path))
        log(f"[{self.prop}] violation: {what}: {json.dumps(info, default=str)[:1500]}")

    def finish(self):
        known = known_findings(self.prop)
        rc = 0
        for what, path in self.violations:
            rc = 1
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   evaluations=self.evals, samples=self.samples, parts=self.parts)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("rule", self.extra.get("rule", ""))
            cov["distinct_nontrivial"] = self.extra.get("distinct_nontrivial", 0)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if not DIALECT:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for k in known: print(f"KNOWN-FINDING: property={self.prop} {k}")
        for what, path in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={path}")
        if rc == 0: print(f"OK property={self.prop} states={self.states} validated={self.traces} wall={ev['wall_s']}s")
        sys.stdout.flush()
        return rc

def dialect(chk, std="c++20", cxx="clang++"):
    """the quick check again, with the harnesses built by another compiler for another version of the language"""
    e = dict(os.environ, CONFIGOR_DIALECT="1", CONFIGOR_STD=std, CONFIGOR_CXX=cxx, VERIF_TIER="quick")
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "check.py"), chk.prop], env=e, capture_output=True, text=True)
    if r.returncode not in (0, 1): raise CheckError(f"{cxx} -std={std}: " + r.stderr[-2000:])
    if r.returncode == 1: chk.violation(f"built by {cxx} -std={std}", output=(r.stdout + r.stderr)[-4000:])
    m = re.search(r"validated=(\d+)", r.stdout)
    chk.part(f"{cxx} {std}", validated=int(m.group(1)) if m else 0)

def known_findings(prop):
    """Open findings only; `fixed:' entries suppress nothing."""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) (.*)", l)
            if m and m.group(1) == prop: r.append(m.group(2))
    return r

# ------------------------------------------------------------------ building harnesses

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
CXX = os.environ.get("CONFIGOR_CXX", "g++")
BASE = ["-std=" + os.environ.get("CONFIGOR_STD", "c++14"), "-O1", "-w", "-g0", "-pthread", f"-I{REPO}/include", f"-I{HARN}"]

def _compile(src, out, flags):
    return subprocess.run([CXX, *BASE, *flags, src, "-o", out], capture_output=True, text=True, timeout=800)

def build(chk, *specs):
    """specs: (name, source, flags) ; returns {name: path}. A public API that no longer compiles is a violation."""
    out = {}
    def one(s):
        name, src, flags = s
        exe = os.path.join(chk.dir, name)
        return name, exe, _compile(os.path.join(HARN, src), exe, list(flags))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, specs))
    for name, exe, r in res:
        if r.returncode:
            ctl = os.path.join(chk.dir, "control.cpp")
            with open(ctl, "w") as f: f.write("#include <configor/json.hpp>\nint main(){}\n")
            c = _compile(ctl, os.path.join(chk.dir, "control"), [])
            if c.returncode: raise CheckError("the library does not compile:\n" + c.stderr[:2000])
            # harnesses use documented names only, so the library refuses a use it promises to accept (an error in the
            # source, seen twice; anything else that ends a compiler gives no answer)
            s = next(s for s in specs if s[0] == name)
            r = _compile(os.path.join(HARN, s[1]), exe, list(s[2]))
            if r.returncode == 1 and re.search(r"^\S+\.(hpp|cpp|inc|h):\d+:\d+: error: ", r.stderr, re.M) and not re.search(r"No space left|out of memory|internal compiler error|[Kk]illed|fatal error", r.stderr):
                chk.violation("documented uses of the library no longer compile", harness=s[1], flags=" ".join(s[2]), stderr=r.stderr[:6000])
                raise CheckError("stopped: " + name + " does not compile")
            if r.returncode: raise CheckError(f"harness {name} does not compile against this tree:\n" + r.stderr[:3000])
        out[name] = exe
    chk.part("build", harnesses=len(specs))
    return out

# ------------------------------------------------------------------ TLC

def tla(x):
    """Python value -> TLA+ expression."""
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, (list, tuple)): return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)): return "{" + ", ".join(sorted(tla(y) for y in x)) + "}"
    if isinstance(x, dict): return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in x.items()) + "]"
    raise TypeError(x)

class TLCResult: pass

def _extended(names, defs=""):
    """the modules of /verif/spec that a model extends or instantiates, transitively"""
    todo, seen = re.findall(r"\w+", names) + re.findall(r"INSTANCE (\w+)", defs), set()
    while todo:
        m = todo.pop()
        f = os.path.join(SPEC, m + ".tla")
        if m in seen or not os.path.exists(f): continue
        seen.add(m)
        t = open(f).read()
        for l in re.findall(r"^EXTENDS (.*)$", t, re.M): todo += re.findall(r"\w+", l)
        todo += re.findall(r"INSTANCE (\w+)", t)
    return seen

def run_tlc(chk, name, extends, defs="", constants=None, spec="Spec", invariants=(), constraint=None, properties=(),
            postcondition=None, workers=None, emit=False, timeout=850, simulate=None, depth=None, extra_cfg="", heap="4g",
            view=None, assume_only=False):
    """Writes and runs a model; returns states/transitions, the emitted JSON lines, or raises CheckError when TLC
    does not finish cleanly (unless it reports a violated postcondition/invariant, which is returned)."""
    d = os.path.join(chk.dir, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    mod = "M_" + re.sub(r"\W", "_", name)
    with open(os.path.join(d, mod + ".tla"), "w") as f:
        f.write(f"---- MODULE {mod} ----\nEXTENDS {extends}\n{defs}\n====\n")
    cfg = []
    constants = dict(constants or {})
    if "JsonValue" in _extended(extends, defs): constants.setdefault("Ordered", "TRUE")
    if not assume_only: cfg.append(f"SPECIFICATION {spec}")
    for k, v in constants.items():
        v = str(v)
        cfg.append(f"CONSTANT {k} {v}" if v.startswith("<-") else f"CONSTANT {k} = {v}")
    for i in invariants: cfg.append(f"INVARIANT {i}")
    for i in properties: cfg.append(f"PROPERTY {i}")
    if constraint: cfg.append(f"CONSTRAINT {constraint}")
    if postcondition: cfg.append(f"POSTCONDITION {postcondition}")
    if view: cfg.append(f"VIEW {view}")
    cfg.append("CHECK_DEADLOCK FALSE")
    cfg.append(extra_cfg)
    with open(os.path.join(d, mod + ".cfg"), "w") as f: f.write("\n".join(cfg) + "\n")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={os.path.join(d, 'tmp')}", "-cp", JARS, "tlc2.TLC",
           "-config", mod + ".cfg", "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-fp", "1", "-seed", str(chk.seed)]
    if simulate: cmd += ["-simulate", f"num={simulate}"]
    if depth: cmd += ["-depth", str(depth)]
    cmd.append(mod + ".tla")
    outp = os.path.join(d, "out.txt")
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    t0 = time.time()
    with open(outp, "w") as f:
        try: p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise CheckError(f"TLC {name} did not finish in {timeout} s")
    for x in ("meta", "tmp"): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.lines, r.msgs = p.returncode, outp, [], []
    r.states = r.transitions = 0
    with open(outp) as f:
        for l in f:
            if l.startswith('"') and emit:
                r.lines.append(l)
            else:
                m = re.match(r"(\d+) states generated, (\d+) distinct", l)
                if m: r.transitions, r.states = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", l)
                if m: r.transitions = r.states = int(m.group(1))
                if not l.startswith(("Parsing", "Semantic", "Linting")): r.msgs.append(l)
    text = "".join(r.msgs)
    r.violated = None
    m = re.search(r"Error: (Invariant \S+ is violated|The invariant \S+ is violated|Postcondition.*|.*POSTCONDITION.*|Action property.*|Temporal prop.*|The postcondition.*|Assumption .*is false.*)", text, re.I)
    if m: r.violated = m.group(1)
    if p.returncode != 0 and not r.violated:
        raise CheckError(f"TLC {name} failed (rc {p.returncode}):\n{text[-3000:]}")
    chk.states += r.states
    chk.transitions += r.transitions
    r.secs = round(time.time() - t0, 1)
    chk.part("tlc:" + name, states=r.states, transitions=r.transitions, secs=r.secs, **({"violated": r.violated} if r.violated else {}))
    return r

def tlc_json(lines):
    """The printed JSON strings of a run."""
    for l in lines:
        yield json.loads(json.loads(l))

# ------------------------------------------------------------------ executing cases

class Crash(str):
    pass

def _run_chunk(exe, lines, env, timeout):
    """-> list of observations; Crash at the first case that killed the harness, the rest None"""
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    e.update(env or {})
    data = "\n".join(lines) + "\n"
    with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout, tempfile.TemporaryFile() as ferr:
        fin.write(data.encode()); fin.seek(0)
        p = subprocess.Popen([exe], stdin=fin, stdout=fout, stderr=ferr, env=e)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -14
        fout.seek(0); raw = fout.read().decode(errors="replace").split("\n")
        ferr.seek(0); err = ferr.read().decode(errors="replace")
    obs = raw[:-1]
    if rc == 3 or rc == 4: raise CheckError("harness protocol error: " + err[:500])
    res = []
    for o in obs[:len(lines)]:
        try: res.append(json.loads(o))
        except ValueError: raise CheckError("harness printed: " + o[:300])
    if rc != 0 or len(res) < len(lines):
        m = re.search(r"(AddressSanitizer: \S+|runtime error: .*|ThreadSanitizer: .*|Assertion .*|terminate called.*)", err)
        why = m.group(1) if m else ("hang" if rc in (-14, 142) else f"rc {rc}")
        if rc == -9 and not m: raise CheckError("the harness was killed (memory?)")
        res.append(Crash(f"crash: {why[:200]}"))
        res += [None] * (len(lines) - len(res))
    return res

def execute(chk, exe, lines, env=None, timeout=600, chunks=None):
    """Runs all cases; returns one observation per case (Crash, or None for cases after a crash in the chunk)."""
    if not lines: return []
    k = min(chunks or NCPU, max(1, len(lines) // 50))
    size = (len(lines) + k - 1) // k
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    def one(p):
        r = _run_chunk(exe, p, env, timeout)
        # go on after a crash, a few times, so that one crash does not hide the rest
        n = 0
        while None in r and n < 3:
            i = r.index(None)
            r[i:] = _run_chunk(exe, p[i:], env, timeout)
            n += 1
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, parts))
    out = [x for r in rs for x in r]
    chk.evals += len([x for x in out if x is not None])
    return out

def judge(chk, name, exe, cases, same, describe=lambda c: c, env=None, limit=3):
    """cases: list of (line, expected, info). Executes, compares with same(expected, observed); a mismatch must
    repeat in a second run of the same chunk-of-one (or of the whole list) before it is reported."""
    lines = [c[0] for c in cases]
    obs = execute(chk, exe, lines, env)
    bad = []
    ok = 0
    for c, o in zip(cases, obs):
        if o is None: continue
        if isinstance(o, Crash) or not same(c[1], o): bad.append((c, o))
        else: ok += 1
    n = 0
    for c, o in bad:
        if n >= limit: break
        again = execute(chk, exe, [c[0]], env)[0]
        if isinstance(again, Crash) or not same(c[1], again):
            n += 1
            chk.violation(name, case=c[0][:4000], info=c[2], expected=c[1], observed=again if not isinstance(again, Crash) else str(again), harness=os.path.basename(exe))
        else:
            # depends on the cases before it: repeat the whole run
            obs2 = execute(chk, exe, lines, env)
            o2 = obs2[lines.index(c[0])]
            if o2 is None or isinstance(o2, Crash) or not same(c[1], o2):
                n += 1
                chk.violation(name + " (depends on earlier calls)", case=c[0][:4000], info=c[2], expected=c[1], observed=str(o2), harness=os.path.basename(exe))
    chk.traces += ok
    chk.part(name, cases=len(cases), agreed=ok, disagreed=len(bad))
    for c in cases[:: max(1, len(cases) // 3)][:3]: chk.sample(dict(part=name, case=describe(c[2]), expected=c[1]))
    if chk.violations: raise CheckError("stopped after " + name)   # the answer is known: check.py reports it
    return bad

# ------------------------------------------------------------------ trace validation (code -> specification)

def validate(chk, name, module, events, constants=None, defs="", shards=None, replay=None, timeout=800):
    """events: list of dicts. TLC must accept each event under `module' (which reads the file named by constant
    TraceFile and has SPECIFICATION TraceSpec, POSTCONDITION TraceAccepted). Returns the index of rejected events."""
    shards = shards or max(1, min(NCPU, len(events) // 200))
    size = (len(events) + shards - 1) // shards
    parts = [(i, events[i:i + size]) for i in range(0, len(events), size)]
    def one(arg):
        base, ev = arg
        f = os.path.join(chk.dir, f"{name}-{base}.ndjson")
        with open(f, "w") as fh:
            for e in ev: fh.write(json.dumps(e, separators=(",", ":")) + "\n")
        r = run_tlc(chk, f"{name}-{base}", module, defs=f'TF == {json.dumps(f)}\n' + defs, constants=dict(constants or {}, TraceFile="<- TF"),
                    spec="TraceSpec", postcondition="TraceAccepted", workers=1, timeout=timeout, emit=True, heap="3g")
        rej = None
        if r.violated:
            rej = base + max(0, r.states - 1)
        return rej, len(ev), r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, parts))
    return [r[0] for r in rs if r[0] is not None], rs

# ------------------------------------------------------------------ values

def flt_dec(f):
    """Exact decimal expansion of a Python float as the specification's <<sgn, e, digits..>>."""
    from decimal import Decimal
    if f == 0: return [0, 0]
    if f != f: return [9, 0]
    if f in (float("inf"), -float("inf")): return [8 if f > 0 else -8, 0]
    t = Decimal(f).as_tuple()
    d = list(t.digits)
    e = t.exponent + len(d) - 1
    while d and d[0] == 0: d.pop(0); e -= 1
    while d[-1] == 0: d.pop()
    return [-1 if t.sign else 1, e] + d

def dec_flt(d):
    if d[0] in (9, 8, -8): return float({9: "nan", 8: "inf", -8: "-inf"}[d[0]])
    if d[0] == 0: return 0.0
    s = "".join(map(str, d[2:]))
    return float(("-" if d[0] < 0 else "") + s[0] + "." + (s[1:] or "0") + "e" + str(d[1]))

def int_dec(i):
    if i == 0: return [0, 0]
    return [-1 if i < 0 else 1] + [int(c) for c in str(abs(i))]

def dec_int(d):
    if d[0] == 0: return 0
    return d[0] * int("".join(map(str, d[1:])))

def polish(v):
    """specification value -> harness input tokens"""
    k = v[0]
    if k == "n": return "n"
    if k == "b": return "t" if v[1] else "f"
    if k == "i": return "i %d" % dec_int(v[1])
    if k == "d": return "d %s" % dec_flt(v[1]).hex()
    if k == "s": return "s " + cps(v[1])
    if k == "a": return ("a %d " % len(v[1]) + " ".join(polish(x) for x in v[1])).rstrip()
    if k == "o": return ("o %d " % len(v[1]) + " ".join(cps(x[0]) + " " + polish(x[1]) for x in v[1])).rstrip()
    raise ValueError(v)

def cps(s):
    return ("%d " % len(s) + " ".join(map(str, s))).rstrip()

def flt_close(a, b, tol=2e-15):
    if a == b: return True
    if a[0] != b[0] or a[0] == 0: return False
    from decimal import Decimal
    def D(x): return Decimal((0, tuple(x[2:]), x[1] - len(x) + 3))
    x, y = D(a), D(b)
    return abs(x - y) <= Decimal(tol) * max(x, y)

def agree(x, y, tol=2e-15):
    """same tag and content at every node, floats to working precision (Agree of JsonValue.tla)"""
    if x == y: return True
    if x[0] != y[0]: return False
    if x[0] == "d": return flt_close(x[1], y[1], tol)
    if x[0] == "a": return len(x[1]) == len(y[1]) and all(agree(a, b, tol) for a, b in zip(x[1], y[1]))
    if x[0] == "o": return len(x[1]) == len(y[1]) and all(a[0] == b[0] and agree(a[1], b[1], tol) for a, b in zip(x[1], y[1]))
    return False

def txt(cs):
    return "".join(chr(c) if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000 else "\\%d" % c for c in cs)

def cp(s):
    return [ord(c) for c in s]

def record(chk, name, exe, lines, event, module, constants, info=lambda i: i, corrupt=None, env=None, limit=3, defs=""):
    """Direction B: run the cases, turn every observation into an event, let TLC validate the recorded trace.
    A rejected event must be rejected again when it is re-recorded alone. `corrupt' yields altered events which TLC
    must reject (the machinery's own test)."""
    obs = execute(chk, exe, lines, env)
    n = 0
    events, idx = [], []
    for i, o in enumerate(obs):
        if o is None: continue
        if isinstance(o, Crash):
            if n < limit and isinstance(execute(chk, exe, [lines[i]], env)[0], Crash):
                n += 1
                chk.violation(name, case=lines[i][:4000], info=info(i), observed=str(o))
            continue
        events.append(event(i, o)); idx.append(i)
    todo = events
    accepted = 0
    live = list(range(len(events)))
    for rnd in range(limit):
        rej, _ = validate(chk, name + ("" if rnd == 0 else f"-r{rnd}"), module, [events[j] for j in live], constants, defs)
        if not rej: accepted = len(live); break
        for k in rej:
            i = idx[live[k]]
            o2 = execute(chk, exe, [lines[i]], env)[0]
            if isinstance(o2, Crash): bad = True
            else: bad = bool(validate(chk, name + "-again", module, [event(i, o2)], constants, defs)[0])
            if bad and n < limit:
                n += 1
                chk.violation(name, case=lines[i][:4000], info=info(i), observed=events[live[k]], module=module)
            elif not bad:
                chk.violation(name + " (depends on earlier calls)", case=lines[i][:4000], info=info(i), observed=events[live[k]], module=module)
        for k in sorted(rej, reverse=True): del live[k]
        accepted = len(live)
        if n >= limit: break
    chk.traces += accepted
    chk.part(name, events=len(events), accepted=accepted)
    for e in events[:: max(1, len(events) // 2)][:2]: chk.sample(dict(part=name, event=str(e)[:400]))
    if chk.violations: raise CheckError("stopped after " + name)
    if corrupt:
        alts = []
        for e in events[:: max(1, len(events) // 40)][:40]:
            alts += [a for a in corrupt(e) if a is not None]
        alts = alts[:60]
        selftest(chk, name, module, alts, constants, defs)

def selftest(chk, name, module, alts, constants, defs=""):
    """every altered event must be rejected: the trace of each is validated alone inside one TLC run"""
    f = os.path.join(chk.dir, name + "-altered.ndjson")
    with open(f, "w") as fh:
        for e in alts: fh.write(json.dumps(e) + "\n")
    r = run_tlc(chk, name + "-altered", module, defs=f'TF == {json.dumps(f)}\nVARIABLE k\nAInit == l = 1 /\\ k = 1\nANext == k <= Len(Trace) /\\ Explains(Trace[k]) = FALSE /\\ k\' = k + 1 /\\ l\' = l\nASpec == AInit /\\ [][ANext]_<<l, k>>\n' + defs,
                constants=dict(constants or {}, TraceFile="<- TF"), spec="ASpec", postcondition="TraceAccepted", workers=1)
    if r.violated: raise CheckError(f"self-test: the specification accepts an altered event of {name}: {str(alts[r.states - 1])[:500]}")
    chk.part(name + "-altered", rejected=len(alts))
