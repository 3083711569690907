"""Infrastructure shared by all checks: building /repo's current tree, running TLC, evidence, verdicts."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SRCDIRS = ["Common", "LinAlg", "LinAlg/TMatrices", "Algorithm", "Algorithm/LinearSolvers",
           "contrib/CGPenalty", "Interfaces"]
# not part of the configuration this sandbox can build (same set as /opt/vp/build.sh leaves out)
EXCLUDE = re.compile(r"Wsmp|Ma28|MKL|Spral|StdJ|^IpInexact|IterativePardiso|IterativeSolver")
FLAVORS = {"std": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
           "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                    "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]}


class ToolError(Exception):
    """The check itself could not run (never reported as a violation)."""


class SpecEvalError(ToolError):
    """TLC could not evaluate the specification on what it was given: the trace has a shape no behaviour has."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def includes():
    return ["-I" + os.path.join(HARN, "config")] + ["-I" + os.path.join(REPO, "src", d) for d in SRCDIRS] + \
           ["-I/usr/include/mumps_seq"]


def headers_hash():
    fs = []
    for d in SRCDIRS:
        for e in ("*.h", "*.hpp", "*.inc"):
            fs += glob.glob(os.path.join(REPO, "src", d, e))
    fs += glob.glob(os.path.join(HARN, "config", "*.h"))
    return _hash(*[x for f in sorted(fs) for x in (os.path.basename(f), _read(f))])


def _compile(cc, flags, src, obj):
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([cc] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise ToolError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)


def build(drivers, flavor="std", hooks=(), only=None):
    """Build libipopt from /repo's working tree and the named drivers (harness/<d>.cpp); returns {driver: exe}.
    only: restrict to these source directories."""
    t0 = time.time()
    fl = FLAVORS[flavor] + ["-w", "-fPIC", "-DNDEBUG", "-DHAVE_CONFIG_H", "-DIPOPTLIB_BUILD"] + list(hooks)
    odir = os.path.join(BUILD, "obj-" + flavor)
    os.makedirs(odir, exist_ok=True)
    hh = headers_hash()
    jobs, objs = [], []
    for d in (only or SRCDIRS):
        for src in sorted(glob.glob(os.path.join(REPO, "src", d, "*.cpp")) + glob.glob(os.path.join(REPO, "src", d, "*.c"))):
            b = os.path.basename(src)
            if EXCLUDE.search(b):
                continue
            key = _hash(_read(src), hh, " ".join(fl))
            obj = os.path.join(odir, b + "." + key + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append(("gcc" if b.endswith(".c") else "g++", fl + includes(), src, obj))
    exes = {}
    dr = []
    common = [_read(f) for f in sorted(glob.glob(os.path.join(HARN, "*.hpp")))]
    for d in drivers:
        src = os.path.join(HARN, d + ".cpp")
        key = _hash(_read(src), hh, " ".join(fl), *common)
        obj = os.path.join(odir, d + "." + key + ".o")
        if not os.path.exists(obj):
            jobs.insert(0, ("g++", [f for f in fl if f != "-DIPOPTLIB_BUILD"] + ["-I" + HARN] + includes(), src, obj))
        dr.append((d, obj))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(_compile, *j) for j in jobs]:
            f.result()
    key = _hash(*[os.path.basename(o) for o in objs])
    lib = os.path.join(odir, "libipv-%s.so" % key)
    san = [f for f in FLAVORS[flavor] if f.startswith("-fsanitize")]
    if not os.path.exists(lib):
        r = sh(["g++"] + san + ["-shared", "-o", lib + ".tmp"] + objs + ["-ldmumps_seq", "-llapack", "-lblas", "-ldl", "-lm"])
        if r.returncode != 0:
            raise ToolError("link failed\n" + r.stdout[-3000:])
        os.replace(lib + ".tmp", lib)
    for d, obj in dr:
        exe = os.path.join(odir, d + "-" + _hash(os.path.basename(obj), key))
        if not os.path.exists(exe):
            r = sh(["g++"] + san + ["-o", exe + ".tmp", obj, lib, "-Wl,-rpath," + odir, "-ldl", "-lm"])
            if r.returncode != 0:
                raise ToolError("link failed: %s\n%s" % (d, r.stdout[-3000:]))
            os.replace(exe + ".tmp", exe)
        exes[d] = exe
    log("build %s: %d compiled, %.1fs" % (flavor, len(jobs), time.time() - t0))
    return exes


def java_overrides():
    src = os.path.join(SPEC, "Doubles.java")
    out = os.path.join(BUILD, "java-" + _hash(_read(src)))
    if not os.path.exists(os.path.join(out, "Doubles.class")):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-cp", TLAJARS, "-d", tmp, src])
        if r.returncode != 0:
            raise ToolError("javac failed\n" + r.stdout)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


class TlcResult:
    pass


def tlc(module, cfg=None, consts=None, body=None, simulate=None, depth=None, seed=None, workers=None, timeout=600,
        heap="6g", env=None, deadlock=False, emit=None, difftrace=False, keep_output=False):
    """Run TLC on spec/<module>.tla.  `cfg`: file name under spec/, or `body`: cfg text. `consts`: {name: text} appended.
    Lines printed with PrintT(ToJson(..)) are collected (res.emitted) or streamed to emit(obj)."""
    rundir = os.path.join(BUILD, "tlc-%s-%d-%d" % (module, os.getpid(), random.randrange(10 ** 9)))
    os.makedirs(rundir)
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            os.symlink(f, os.path.join(rundir, os.path.basename(f)))
        text = body if body is not None else _read(os.path.join(SPEC, cfg or module + ".cfg")).decode()
        root = module
        if consts:   # constants are given by arbitrary TLA+ expressions
            root = "MCrun"
            with open(os.path.join(rundir, "MCrun.tla"), "w") as f:
                f.write("---- MODULE MCrun ----\nEXTENDS %s\n" % module + "\n".join("c_%s == %s" % kv for kv in consts.items()) + "\n====\n")
            text += "\nCONSTANTS\n" + "\n".join("  %s <- c_%s" % (k, k) for k in consts) + "\n"
        with open(os.path.join(rundir, "run.cfg"), "w") as f:
            f.write(text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", java_overrides() + ":" + TLAJARS,
               "tlc2.TLC", "-metadir", os.path.join(rundir, "meta"), "-config", "run.cfg", "-noGenerateSpecTE",
               "-workers", str(workers or NCPU)]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(seed or 1)]
        cmd += [root + ".tla"]
        res = TlcResult()
        res.emitted, out = [], []
        e = dict(os.environ); e.update(env or {})
        t0 = time.time()
        p = subprocess.Popen(["timeout", "-k", "5", str(timeout)] + cmd, cwd=rundir, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", env=e)
        for line in p.stdout:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    o = json.loads(json.loads(line))
                except ValueError:
                    o = json.loads(line.strip()[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
                if emit:
                    emit(o)
                else:
                    res.emitted.append(o)
            else:
                out.append(line)
        p.wait()
        res.rc, res.output, res.wall = p.returncode, "".join(out), time.time() - t0
        m = re.findall(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct states found", res.output)
        res.states = int(m[-1][1].replace(",", "")) if m else 0
        res.transitions = int(m[-1][0].replace(",", "")) if m else 0
        if simulate:
            m = re.findall(r"The number of states generated: ([\d,]+)", res.output)
            res.transitions = res.states = int(m[-1].replace(",", "")) if m else 0
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|property (\S+) is violated", res.output)
        res.violated = next((g for g in m.groups() if g), None) if m else None
        res.ok = p.returncode == 0 and ("Model checking completed. No error has been found" in res.output
                                        or (simulate and "Error:" not in res.output))
        if p.returncode == 124 or p.returncode == 137:
            raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
        if not res.ok and not res.violated and "POSTCONDITION" not in res.output and "Postcondition" not in res.output:
            k = max(0, res.output.find("Error:"))
            err = SpecEvalError if p.returncode in (75, 76) and "OutOfMemory" not in res.output else ToolError
            raise err("TLC failed on %s (rc %s):\n%s\n...\n%s" % (module, p.returncode, res.output[k:k + 1200], res.output[-1500:]))
        return res
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


class Check:
    """Collects coverage and violations of one property and produces evidence and verdict."""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions, self.viol, self.known_hit = [], [], []
        self.known = load_known(pid)
        self.dir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)

    thorough = property(lambda s: s.tier == "thorough")

    def add_tlc(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, what, detail):
        """key: stable identification of the failing input/history (matched against the known-findings file)."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        self.viol.append({"key": key, "what": what, "detail": detail})

    def finish(self):
        cov = self.cov
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.pid)
        if os.path.exists(rp):
            os.remove(rp)
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.viol:
            with open(rp, "w") as f:
                json.dump(self.viol[:200], f, indent=1, default=str)
            for v in self.viol[:5]:
                log("  ", v["key"], "--", v["what"])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in cov.items() if k != "samples"})), flush=True)
        return 0


def load_known(pid):
    """known_findings.json: list of {property, match (regex on the violation key), what}."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def run_driver(exe, lines, timeout=300, args=(), env=None, cwd=None):
    """Feed JSON lines to a driver. Returns (rc, [json objects], raw_tail). rc 'timeout' on timeout."""
    inp = "\n".join(json.dumps(l) if not isinstance(l, str) else l for l in lines) + "\n"
    e = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
    e.update(env or {})
    try:
        p = subprocess.run([exe] + list(args), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, env=e, cwd=cwd)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        rc = "timeout"
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        err = ""
    objs = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                objs.append(json.loads(l))
            except ValueError:
                pass
    return rc, objs, err[-3000:]


def run_parallel(exe, cases, timeout=300, chunks=None, args=(), env=None, cwd=None):
    """Split cases over processes. Each case must produce exactly one output object with the same 'id'.
    A crash/timeout is attributed to the first case without answer. Returns ({id: obj}, [(case, rc, err)])."""
    chunks = chunks or NCPU
    n = max(1, min(chunks, len(cases)))
    parts = [cases[i::n] for i in range(n)]
    answers, crashes = {}, []

    def work(part):
        ans, cr = {}, []
        todo = part
        while todo:
            rc, objs, err = run_driver(exe, todo, timeout=timeout, args=args, env=env, cwd=cwd)
            for o in objs:
                if "id" in o:
                    ans[o["id"]] = o
            rest = [c for c in todo if c["id"] not in ans]
            if rc == 0 and not rest:
                break
            if not rest:
                cr.append((todo[-1], rc, err)); break
            cr.append((rest[0], rc, err))
            todo = rest[1:]
            if len(cr) > 3:
                break
        return ans, cr
    with cf.ThreadPoolExecutor(n) as ex:
        for a, c in ex.map(work, parts):
            answers.update(a); crashes += c
    return answers, crashes


def same(w, g):
    """expected value against observed value; numbers may be written in different ways"""
    if isinstance(w, list):
        return isinstance(g, list) and len(w) == len(g) and all(same(x, y) for x, y in zip(w, g))
    if isinstance(w, dict):
        return isinstance(g, dict) and set(w) == set(g) and all(same(w[k], g[k]) for k in w)
    if w == g:
        return True
    try:
        return not isinstance(w, bool) and not isinstance(g, bool) and float(w) == float(g)
    except (TypeError, ValueError):
        return str(w) == "NaN" and str(g) == "NaN"


def replay(c, label, histories, exe, timeout=300, extra=None, eq=same, args=(), cwd=None, keep=60000, env=None):
    """Replay histories [[{op, a, r(expected)}..]..] on a driver answering {"id","r":[..]}, one result per operation."""
    if len(histories) > keep:
        histories = c.rng.sample(histories, keep)
    cases = [dict(id=i, ops=hh, **(extra or {})) for i, hh in enumerate(histories)]
    t0 = time.time()
    ans, crashes = run_parallel(exe, cases, timeout=timeout, args=args, cwd=cwd, env=env)
    log("replay %s: %d histories, %.1fs" % (label, len(cases), time.time() - t0))
    for case, rc, err in crashes:
        c.violation("%s/crash" % label, "driver died (%s) on %s" % (rc, [o["op"] for o in case["ops"]][-12:]),
                    dict(case=case, rc=rc, stderr=err))
    for case in cases:
        a = ans.get(case["id"])
        if a is None:
            continue
        c.cov["traces_validated_against_impl"] += 1
        c.count("operations_replayed", len(case["ops"]))
        for i, o in enumerate(case["ops"]):
            got = a["r"][i] if i < len(a["r"]) else "missing"
            if not eq(o.get("r"), got):
                c.violation("%s/%s" % (label, o["op"]), "operation %d %s%s: expected %s, got %s" % (
                    i, o["op"], o.get("a"), o.get("r"), got), dict(history=case["ops"][:i + 1], got=got, extra=extra, err=a.get("err")))
                break
    if histories:
        c.sample(dict(label=label, history=histories[len(histories) // 2]))
    return ans


def main(run, pid, level):
    tier = "thorough" if (len(sys.argv) > 1 and sys.argv[1] == "thorough") or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    c = Check(pid, tier, level)
    try:
        run(c)
    except ToolError as e:
        log("TOOL ERROR:", e)
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(3)
    sys.exit(c.finish())
