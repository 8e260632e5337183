"""Shared plumbing of the checks: building the tools under test from /repo's
working tree, running them, pooling work, evidence and verdicts."""
import hashlib, json, multiprocessing, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = max(1, min(8, os.cpu_count() or 1))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=97",
           LC_ALL="C")
SAN_EXIT = 97

class CheckError(Exception):
    pass

def _limits(cpu, fsize=None):
    def f():
        if fsize is not None: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20 if fsize is None else fsize,) * 2)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    return f

class R:
    """Result of a run."""
    __slots__ = ("rc", "out", "err", "timeout")
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout
    def sanitizer(self):
        e = self.err + self.out
        return self.rc == SAN_EXIT or b"AddressSanitizer" in e or b"runtime error:" in e
    def crashed(self):
        return self.timeout or self.rc < 0 or self.rc >= 128 or self.sanitizer()
    def brief(self, n=1500):
        return "rc=%s%s out=%r err=%r" % (self.rc, " TIMEOUT" if self.timeout else "", self.out[-n:], self.err[-n:])

def run(cmd, cwd=None, timeout=30, input=None, env=None, stdin=None, unpriv=False, fsize=None):
    """unpriv: run as nobody (for programs that make arbitrary DOS calls); fsize: writing a file behind this size fails"""
    if stdin is not None:
        with open(stdin, "rb") as f:
            return _run(cmd, cwd, timeout, None, env, f, unpriv, fsize)
    return _run(cmd, cwd, timeout, input, env, subprocess.PIPE if input is not None else subprocess.DEVNULL, unpriv, fsize)

def _run(cmd, cwd, timeout, input, env, stdin, unpriv, fsize):
    kw = dict(user=65534, group=65534, extra_groups=[]) if unpriv else {}
    p = subprocess.Popen(cmd, cwd=cwd, stdin=stdin, **kw,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV,
                         preexec_fn=_limits(int(timeout) + 5, fsize), start_new_session=True)
    to = False
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return R(p.returncode, out, err, to)

# ---------------------------------------------------------------- building
def build_em86(force=False):
    os.makedirs(BUILD, exist_ok=True)
    for name in ("em86", "simtrace"):
        src = os.path.join(VERIF, "em86", name + ".c")
        if not os.path.exists(src):
            continue
        exe = os.path.join(BUILD, name)
        dep = max(os.path.getmtime(os.path.join(VERIF, "em86", f)) for f in os.listdir(os.path.join(VERIF, "em86")))
        if not force and os.path.exists(exe) and os.path.getmtime(exe) >= dep:
            continue
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O2", "-w", "-o", tmp, src], capture_output=True)
        if r.returncode:
            raise CheckError("cannot build %s: %s" % (name, r.stderr.decode()))
        os.replace(tmp, exe)

class Tools:
    """The tools under test, built from REPO's working tree into `dir`."""
    def __init__(self, dir, want):
        self.dir = dir
        self.em86 = os.path.join(BUILD, "em86")
        self.simtrace = os.path.join(BUILD, "simtrace")
        build_em86()
        jobs = []
        for w in want:
            if w.endswith(".com"):
                continue
            name, _, san = w.partition(":")
            exe = os.path.join(dir, name + ("_san" if san else ""))
            src = os.path.join(REPO, "test", "dossim.c") if name == "dossim" else os.path.join(REPO, name + ".c")
            cmd = ["gcc", "-std=c99", "-D_DEFAULT_SOURCE", "-w", "-g", "-I", REPO, "-o", exe, src]
            cmd[1:1] = (["-O1"] + SAN) if san else ["-O2"]
            jobs.append((w, exe, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for w, exe, p in jobs:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot build %s from %s:\n%s" % (w, REPO, o.decode(errors="replace")))
            setattr(self, w.replace(":", "_"), exe)
        for w in want:
            if w.endswith(".com"):
                self.make_com(w[:-4])

    def make_com(self, name):
        """Build NAME.com the way the repository's build does."""
        d = os.path.join(self.dir, "com")
        os.makedirs(d, exist_ok=True)
        for f in ("scc.c", "scpp.c", "sas.c", "sim86.c", "swar.c", "lib.h"):
            shutil.copy(os.path.join(REPO, f), d)
        src = name + ".c"
        if name in ("sim86", "swar"):
            r = run([self.scpp, src, name + ".i"], cwd=d)
            if r.rc or r.timeout:
                raise Violation("host scpp fails on the repository's own %s: %s" % (src, r.brief()))
            src = name + ".i"
        r = run([self.scc, src, name + ".com"], cwd=d)
        if r.rc or r.timeout:
            raise Violation("host scc fails on the repository's own %s: %s" % (src, r.brief()))
        setattr(self, name + "_com", os.path.join(d, name + ".com"))
        setattr(self, name + "_map", os.path.join(d, name + ".map"))

def em86(tools, com, cwd, args=(), map=None, seed=1, steps=20000000, keys=None, win=None, zero=False, timeout=60, extra=()):
    """Run a .COM on the reference CPU. Returns (R, report dict)."""
    rep = os.path.join(cwd, "em86.%d.json" % os.getpid())
    cmd = [tools.em86, "-s", str(seed), "-n", str(steps), "-r", rep]
    if map: cmd += ["-m", map]
    if keys is not None: cmd += ["-k", keys]
    if win: cmd += ["-w", win]
    if zero: cmd += ["-z"]
    r = run(cmd + list(extra) + [com] + list(args), cwd=cwd, timeout=timeout)
    try:
        with open(rep) as f:
            j = json.load(f)
        os.unlink(rep)
    except Exception:
        raise CheckError("em86 gave no report: " + r.brief())
    return r, j

# ---------------------------------------------------------------- check driver
class Violation(Exception):
    def __init__(self, msg, files=None, key=None):
        super().__init__(msg)
        self.msg, self.files, self.key = msg, files or {}, key
    def __reduce__(self):
        return (Violation, (self.msg, self.files, self.key))

_G = {}
def _worker(i):
    fn, seed, pid = _G["fn"], _G["seed"], _G["pid"]
    rng = random.Random("%s:%s:%s" % (seed, pid, i))
    d = os.path.join(_G["dir"], "w%s" % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        try:
            return (i, "ok", fn(_G["ctx"], rng, d, i))
        except Violation as v:
            if "TIMEOUT" not in v.msg:
                return (i, "violation", v)
        # a run that timed out is repeated before it counts (loaded machine)
        return (i, "ok", fn(_G["ctx"], random.Random("%s:%s:%s" % (seed, pid, i)), d, i))
    except Violation as v:
        return (i, "violation", v)
    except Exception:
        return (i, "error", traceback.format_exc())
    finally:
        for e in os.listdir(d):
            p = os.path.join(d, e)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

def load_findings(pid):
    """known_findings.txt: 'finding: property=ID key=KEY what fails'. 'fixed:' lines are a record only."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            f = l.split(None, 3)
            if len(f) == 4 and f[0] == "finding:" and f[1] == "property=" + pid and f[2].startswith("key="):
                out[f[2][4:]] = f[3].strip()
    return out

class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=()):
        self.pid, self.rule, self.level, self.assumptions = pid, rule, level, list(assumptions)
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="sccverif-%s-" % pid, dir=base)
        os.chmod(self.dir, 0o711)                        # programs of some checks run as an unprivileged user
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.findings = load_findings(pid)
        self.quick = TIER != "thorough"

    def n(self, quick, thorough=None):
        s = float(os.environ.get("VERIF_SCALE", "1"))
        v = quick if self.quick else (thorough if thorough is not None else quick * 20)
        return max(1, int(v * s))

    def add(self, k, v=1):
        self.extra[k] = self.extra.get(k, 0) + v

    def note(self, res):
        """Merge one worker result: dict(evals, keys, sample, add={})"""
        self.evals += res.get("evals", 1)
        self.distinct.update(res.get("keys", ()))
        if res.get("sample") is not None and len(self.samples) < 4:
            self.samples.append(res["sample"])
        for k, v in res.get("add", {}).items():
            self.add(k, v)
        for k, v in res.get("max", {}).items():
            self.extra[k] = max(self.extra.get(k, 0), v)

    def pool(self, fn, count, ctx, tag="", stop_after=3, first=0):
        """Run fn(ctx, rng, dir, i) for i in range(count) on all cores."""
        _G.update(fn=fn, seed=SEED, pid=self.pid + tag, ctx=ctx, dir=self.dir)
        errors = []
        budget = float(os.environ.get("VERIF_BUDGET", "600" if self.quick else "20000"))
        with multiprocessing.Pool(NCPU) as pool:
            for i, kind, val in pool.imap_unordered(_worker, range(first, first + count), chunksize=1):
                if kind == "ok":
                    if val: self.note(val)
                elif kind == "violation":
                    self.violation(val, "case %s%s" % (tag, i))
                    if len(self.violations) >= stop_after:
                        pool.terminate()
                        break
                else:
                    errors.append((i, val))
                    if len(errors) > 3:
                        pool.terminate()
                        break
                if time.time() - self.t0 > budget:
                    self.extra["stopped_at_budget"] = 1
                    pool.terminate()
                    break
        if errors and not self.violations:
            raise CheckError("internal error in case %s%s:\n%s" % (tag, errors[0][0], errors[0][1]))

    def violation(self, v, where=""):
        if v.key is not None and v.key in self.findings:
            self.known_finding(self.findings[v.key])
            return
        rd = os.path.join(BUILD, "replay", "%s-%d-%s" % (self.pid, SEED, len(self.violations)))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd, exist_ok=True)
        for n, data in v.files.items():
            with open(os.path.join(rd, n), "wb") as f:
                f.write(data if isinstance(data, bytes) else str(data).encode())
        with open(os.path.join(rd, "what.txt"), "w") as f:
            f.write("%s\nseed %s tier %s %s\n" % (v.msg, SEED, TIER, where))
        self.violations.append((v.msg, rd))
        print("%s: %s %s" % (self.pid, where, v.msg[:2000]), flush=True)

    def known_finding(self, what):
        if what in self.known:
            return
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)
        self.known.append(what)

    def finish(self):
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                samples=self.samples, observed=self.extra, known_findings=self.known),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.dir, ignore_errors=True)
        for msg, rd in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, rd), flush=True)
        print("%s %s: %d evaluations, %d distinct, %.1fs, %s" % (self.pid, TIER, self.evals, len(self.distinct), time.time() - self.t0, json.dumps(self.extra)), flush=True)
        sys.exit(1 if self.violations else 0)

def main(pid, rule, body, level="exploration", assumptions=()):
    c = Check(pid, rule, level, assumptions)
    try:
        body(c)
    except Violation as v:
        c.violation(v)
    except Exception as e:
        if c.violations:
            c.finish()
        traceback.print_exc()
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(2)
    c.finish()

def h(*a):
    return hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest()
