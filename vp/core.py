"""Shared machinery: building harnesses from /repo's working tree, running TLC, judging traces.

Outcome discipline: exit 0 (held), exit 1 + VIOLATION line (confirmed by a second run), exit 2 (error of the check)."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = os.environ.get("VP_CXX") or shutil.which("g++-14") or shutil.which("g++")


class CheckError(Exception):
    pass


def run(cmd, timeout=None, cwd=None, env=None, stdin=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, stdin=stdin)
    return p.returncode, p.stdout, p.stderr


# ---------------------------------------------------------------- building
def gen_include():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "libhelfem/include/helfem.source.h")).read()
    src = re.sub(r"\$\{[A-Za-z_]+\}|@[A-Za-z_]+@", "verif", src)
    out = os.path.join(d, "helfem.h")
    if not os.path.exists(out) or open(out).read() != src:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(src)
        os.replace(tmp, out)
    return d


def cmake_sources(path, target, fallback):
    """Source files of a library target as listed in the repository's own CMake file."""
    d = os.path.dirname(path)
    try:
        t = open(os.path.join(REPO, path)).read()
        t = re.sub(r"#.*", "", t)
        m = re.search(r"add_library\(\s*%s\s([^)]*)\)" % re.escape(target), t)
        got = [x for x in m.group(1).split() if x.endswith(".cpp")]
    except Exception:
        got = []
    if not got:
        got = fallback.split()
    return [os.path.normpath(os.path.join(d, x)) for x in got]


LIBHELFEM = ["libhelfem/src/%s.cpp" % s for s in
             ("FiniteElementBasis ModelPotential PolynomialBasis RadialBasis RadialPotential erfc_expn grid helfem quadrature utils").split()]
QC = cmake_sources("libhelfemqc/CMakeLists.txt", "helfemqc", "src/PointNucleus.cpp src/GaussianNucleus.cpp src/HollowNucleus.cpp src/SphericalNucleus.cpp src/RegularizedNucleus.cpp")
COMMON = [x for x in cmake_sources("src/CMakeLists.txt", "helfem-common", "general/gaunt.cpp general/spherical_harmonics.cpp general/timer.cpp general/elements.cpp general/angular.cpp general/scf_helpers.cpp general/lcao.cpp general/dftgrid_common.cpp general/gsz.cpp general/sap.cpp general/dftfuncs.cpp general/atomdb.cpp general/checkpoint.cpp atomic/basis.cpp atomic/TwoDBasis.cpp atomic/dftgrid.cpp sadatom/basis.cpp sadatom/dftgrid.cpp diatomic/basis.cpp diatomic/quadrature.cpp diatomic/dftgrid.cpp diatomic/dftgrid_purem.cpp diatomic/twodquadrature.cpp general/model_potential.cpp")
          if os.path.basename(x) not in ("atomdb_data.cpp", "scf.cpp")] + ["src/legendre/Legendre.cpp"]
EVERYTHING = LIBHELFEM + QC + COMMON
ALL_LIBS = ("-lhdf5_serial", "-lxc", "-lopenblas", "-lquadmath")


def cxxflags(float128=False, stubs=False, opt="-O1", extra=()):
    f = ["-std=gnu++23", opt, "-fPIC", "-fopenmp", "-w"]
    if float128:
        f.append("-DHELFEM_HAVE_FLOAT128")
    inc = [gen_include()]
    if stubs:
        inc.append(os.path.join(VERIF, "harness/stubs"))
    inc += [os.path.join(VERIF, "harness")]
    inc += [os.path.join(REPO, x) for x in ("libhelfem/include", "libhelfemqc/include", "libhelfem/src", "src", "src/general", "src/legendre")]
    f += ["-I" + i for i in inc]
    f += ["-I/usr/include/hdf5/serial", "-isystem", "/usr/include/eigen3"]
    return f + list(extra)


def compile_one(src, flags):
    """Compile one file; object cached under the hash of its preprocessed text (comments and line numbers do not matter)."""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    rc, out, err = run([CXX] + flags + ["-E", "-P", src], timeout=300)
    if rc != 0:
        raise CheckError("preprocessing %s failed:\n%s" % (src, err.decode(errors="replace")[-3000:]))
    fl = [x for x in flags if not x.startswith("-I")]
    key = hashlib.sha256(out + b"\0" + " ".join(fl).encode() + CXX.encode()).hexdigest()[:32]
    obj = os.path.join(objdir, "%s-%s.o" % (os.path.basename(src).replace(".cpp", ""), key))
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        rc, out, err = run([CXX] + flags + ["-c", src, "-o", tmp], timeout=800)
        if rc != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, err.decode(errors="replace")[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(name, harness, repo_srcs, libs=("-lopenblas",), main=0, **kw):
    """main: how many of repo_srcs are linked as objects (they hold main) rather than taken from the archive"""
    flags = cxxflags(**kw)
    if "src/general/atomdb.cpp" in repo_srcs:
        harness = list(harness) + ["stubs/atomdb_data.cpp"]
    srcs = [os.path.join(VERIF, "harness", h) for h in harness] + [os.path.join(REPO, s) for s in repo_srcs]
    for s in srcs:
        if not os.path.exists(s):
            raise CheckError("missing source " + s)
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags), srcs))
    nh = len(harness) + main
    key = hashlib.sha256(("\n".join(objs) + " ".join(libs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", name + "-" + key)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        lib = tmp + ".a"  # archive: only what the harness needs is linked
        rc, out, err = run(["ar", "rcs", lib] + objs[nh:], timeout=300)
        rc, out, err = run([CXX, "-fopenmp", "-o", tmp] + objs[:nh] + [lib] + list(libs), timeout=300)
        if os.path.exists(lib):
            os.remove(lib)
        if rc != 0:
            raise CheckError("linking %s failed:\n%s" % (name, err.decode(errors="replace")[-3000:]))
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- TLC
def cfg_text(spec=None, init=None, next=None, constants=None, invariants=(), properties=(), constraint=None,
             action_constraint=None, view=None, postcondition=None, deadlock=False, symmetry=None):
    o = []
    if spec:
        o.append("SPECIFICATION %s" % spec)
    if init:
        o.append("INIT %s" % init)
    if next:
        o.append("NEXT %s" % next)
    for k, v in (constants or {}).items():
        o.append("CONSTANT %s %s %s" % (k, "<-" if isinstance(v, Sub) else "=", v))
    for i in invariants:
        o.append("INVARIANT %s" % i)
    for i in properties:
        o.append("PROPERTY %s" % i)
    if constraint:
        o.append("CONSTRAINT %s" % constraint)
    if action_constraint:
        o.append("ACTION_CONSTRAINT %s" % action_constraint)
    if view:
        o.append("VIEW %s" % view)
    if symmetry:
        o.append("SYMMETRY %s" % symmetry)
    if postcondition:
        o.append("POSTCONDITION %s" % postcondition)
    o.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    return "\n".join(o) + "\n"


class Sub(str):
    """constant substitution  C <- Op"""


def tlaset(xs):
    return "{" + ", ".join(tlaval(x) for x in xs) + "}"


def tlaval(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (set, frozenset)):
        return tlaset(sorted(x))
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tlaval(i) for i in x) + ">>"
    raise TypeError(x)


class TLCResult:
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.t0 = time.time()
        self.n = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def scratch(self, name):
        self.n += 1
        d = os.path.join(self.tmp, "%03d-%s" % (self.n, name))
        os.makedirs(d)
        return d

    def tlc(self, module, cfg, cwd=None, workers=1, args=(), timeout=800, heap="3g"):
        d = cwd or self.scratch("tlc")
        open(os.path.join(d, "M.cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-config", os.path.join(d, "M.cfg"), "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               *args, os.path.join(SPEC, module + ".tla")]
        try:
            rc, out, err = run(cmd, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        r = TLCResult()
        r.rc, r.out = rc, out.decode(errors="replace")
        r.err = err.decode(errors="replace")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
        r.generated = int(m[-1][0].replace(",", "")) if m else 0
        r.distinct = int(m[-1][1].replace(",", "")) if m else 0
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    def model_check(self, module, cfg, workers=NCPU, timeout=800, must_cover=True, heap="6g"):
        """Exhaustively check the specification's own invariants/properties. A failure here is an error of the model, not of the code."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=("-coverage", "60") if must_cover else ())
        if r.rc != 0 or "Model checking completed. No error has been found." not in r.out:
            raise CheckError("specification %s failed its own model check:\n%s" % (module, r.out[-6000:]))
        if must_cover:
            # vacuity: every named action must have been taken
            zero = re.findall(r"<(\w+) line[^>]*>: 0:0", r.out)
            if zero:
                raise CheckError("specification %s: actions never taken: %s" % (module, sorted(set(zero))))
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def generate(self, module, cfg, simulate=None, depth=None, timeout=600, seed_off=0, workers=1, heap="4g"):
        """Run TLC (exhaustively or in simulation) and return the JSON values the model printed with the @@ prefix."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + seed_off + 1)]
        r = self.tlc(module, cfg, args=args, timeout=timeout, workers=workers, heap=heap)
        if r.rc != 0:
            raise CheckError("generation from %s failed:\n%s" % (module, r.out[-3000:]))
        out = []
        for ln in r.out.splitlines():
            if ln.startswith('"@@'):
                out.append(json.loads(json.loads(ln)[2:]))
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
        return out, r

    # ------------------------------------------------------------ judging
    unevaluable = 0

    def validate(self, module, events, constants=None, chunk=None, timeout=800):
        """Validate a list of cases (each a list of events) against trace spec `module`.
        Returns list of (case index, event index) rejections (first per chunk)."""
        cases = events
        nchunk = min(NCPU, max(1, sum(len(c) for c in cases) // (chunk or 1500)))
        parts = [[] for _ in range(nchunk)]
        sizes = [0] * nchunk
        for i, c in enumerate(cases):
            k = sizes.index(min(sizes))
            parts[k].append(i)
            sizes[k] += len(c)
        rej = []

        def one(k):
            if not parts[k]:
                return None
            d = self.scratch("trace")
            idx = []
            with open(os.path.join(d, "trace.ndjson"), "w") as f:
                for ci in parts[k]:
                    for ei, ev in enumerate(cases[ci]):
                        f.write(json.dumps(ev) + "\n")
                        idx.append((ci, ei))
            cfg = cfg_text(spec="TraceSpec", constants=constants, postcondition="TraceAccepted")
            r = self.tlc(module, cfg, cwd=d, timeout=timeout)
            n = len(idx)
            m = re.search(r'<<"TRACE", (\d+), (\d+)>>', r.out)
            if not m:
                # a recorded value the specification cannot even be evaluated on (beyond its number range, outside a table, of another shape) is not a value it allows
                e = re.search(r"(\d+) distinct states found", r.out)
                if e and re.search(r"Overflow when computing|Attempted to |not in the domain|evaluated to an error|The (first|second) argument of", r.out) and 1 <= int(e.group(1)) <= n:
                    self.unevaluable += 1
                    return idx[int(e.group(1)) - 1]
                raise CheckError("trace validation with %s did not finish:\n%s" % (module, r.out[-6000:]))
            got, want = int(m.group(1)), int(m.group(2))
            if want != n:
                raise CheckError("trace length mismatch %d %d" % (want, n))
            if got > n:
                raise CheckError("trace overrun")
            if got == n and r.rc != 0:
                raise CheckError("TLC failed on an accepted trace:\n%s" % r.out[-3000:])
            self.states += r.distinct
            self.transitions += r.generated
            if got < n:
                return idx[got]
            return None
        with ThreadPoolExecutor(NCPU) as ex:
            for x in ex.map(one, range(nchunk)):
                if x is not None:
                    rej.append(x)
        return rej

    # ------------------------------------------------------------ harness
    def harness(self, exe, cases, timeout=None, env=None, jobs=NCPU, per_case_timeout=60.0):
        """cases: list of lists of command strings. The harness gets commands on stdin, prints one JSON line per event;
        a case is framed by 'CASE' lines. Returns list of event lists. A crash or hang becomes an event no specification accepts."""
        nb = min(jobs, max(1, len(cases) // 2 + 1))
        batches = [list(range(k, len(cases), nb)) for k in range(nb)]
        res = [None] * len(cases)
        hung = []
        e = dict(os.environ)
        e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "HDF5_USE_FILE_LOCKING": "FALSE"})
        e.update(env or {})

        def go(batch):
            todo = list(batch)
            while todo:
                d = self.scratch("h")
                inp = os.path.join(d, "in")
                with open(inp, "w") as f:
                    for ci in todo:
                        f.write("CASE\n" + "".join(l + "\n" for l in cases[ci]))
                lim = timeout or 800
                outp = os.path.join(d, "out")
                end = None
                with open(outp, "wb") as fo, open(os.path.join(d, "err"), "wb") as fe, open(inp) as fi:
                    p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=fe, cwd=d, env=e, start_new_session=True)
                    t0 = tlast = time.time()
                    size = 0
                    while True:          # a run hangs when nothing is recorded for the time one case may take
                        try:
                            rc = p.wait(timeout=0.5)
                            if rc != 0:
                                end = "exit %d" % rc
                            break
                        except subprocess.TimeoutExpired:
                            pass
                        now, sz = time.time(), os.path.getsize(outp)
                        if sz != size:
                            size, tlast = sz, now
                        if hung or now - tlast > per_case_timeout or now - t0 > lim:
                            try:
                                os.killpg(p.pid, signal.SIGKILL)
                            except OSError:
                                pass
                            p.wait()
                            end = "stopped" if hung else "timeout"
                            break
                cur, done = None, []
                for ln in open(outp, errors="replace"):
                    if ln.startswith("@CASE"):
                        cur = []
                        done.append(cur)
                    elif ln.startswith("@END"):
                        pass
                    elif ln.startswith("{"):
                        try:
                            cur.append(json.loads(ln))
                        except Exception:
                            if end is None:
                                raise CheckError("harness wrote malformed JSON: " + ln[:200])
                nd = len(done)
                if end is None and nd != len(todo):
                    raise CheckError("harness stopped early without an error")
                for j in range(nd):
                    res[todo[j]] = done[j]
                if end is not None:
                    errtxt = open(os.path.join(d, "err"), errors="replace").read()[-500:]
                    if nd == 0 and end != "stopped":
                        raise CheckError("harness failed before the first case: %s %s" % (end, errtxt))
                    if end == "stopped":  # another batch hung: what was recorded so far is judged, the rest is not run
                        for j in range(max(nd - 1, 0), len(todo)):
                            res[todo[j]] = []
                        return
                    done[-1].append({"e": "CRASH", "how": end})
                    if end == "timeout":
                        hung.append(1)
                        for j in range(nd, len(todo)):
                            res[todo[j]] = []
                        return
                shutil.rmtree(d, ignore_errors=True)
                todo = todo[nd:] if end is not None else []
        with ThreadPoolExecutor(nb) as ex:
            list(ex.map(go, batches))
        return res

    def conform(self, exe, cases, module, constants=None, post=None, label="", env=None, chunk=None, jobs=NCPU, per_case_timeout=60.0):
        """Replay cases on the real code, judge the recorded events with the trace specification. Confirm before reporting."""
        ev = self.harness(exe, cases, env=env, jobs=jobs, per_case_timeout=per_case_timeout)
        if post:
            ev = [post(c, e) for c, e in zip(cases, ev)]
        rej = self.validate(module, ev, constants=constants, chunk=chunk)
        self.traces += len(cases)
        self.events += sum(len(e) for e in ev)
        if len(self.samples) < 4 and cases:
            k = self.rng.randrange(len(cases))
            self.samples.append({"set": label or module, "commands": cases[k][:12], "events": ev[k][:6]})
        self.log("%s: %d cases, %d events, %d rejection(s)" % (label or module, len(cases), sum(len(e) for e in ev), len(rej)))
        viol = []
        for ci, ei in rej:
            # confirm: the single case again, freshly executed and judged
            ev2 = self.harness(exe, [cases[ci]], env=env, per_case_timeout=per_case_timeout)
            if post:
                ev2 = [post(cases[ci], ev2[0])]
            rej2 = self.validate(module, ev2, constants=constants)
            for _ in range(4):           # behaviour that varies from run to run: try again, then let the recorded execution stand
                if rej2 or ev[ci][ei].get("e") == "CRASH":
                    break
                ev2 = self.harness(exe, [cases[ci]], env=env, per_case_timeout=per_case_timeout)
                if post:
                    ev2 = [post(cases[ci], ev2[0])]
                rej2 = self.validate(module, ev2, constants=constants)
            if not rej2 and ev[ci][ei].get("e") != "CRASH":
                ev2 = [ev[ci]]
                rej2 = self.validate(module, ev2, constants=constants)
            if rej2:
                viol.append({"module": module, "label": label, "constants": {k: str(v) for k, v in (constants or {}).items()}, "commands": cases[ci],
                             "rejected_event": ev2[0][rej2[0][1]], "matched": ev2[0][:rej2[0][1]][-10:]})
                if any(x.get("e") == "CRASH" and x.get("how") == "timeout" for x in ev[ci]):
                    break                # one hang is enough
            else:
                raise CheckError("rejection did not repeat: %s" % json.dumps(ev[ci][max(0, ei - 2):ei + 1])[:1500])
        return viol, ev

    def bind_demo(self, module, events, constants=None, mutate=None):
        """Demonstrate the binding: corrupting recorded fields must make the trace specification reject."""
        bad = mutate(json.loads(json.dumps(events)))
        if not self.validate(module, bad, constants=constants):
            raise CheckError("binding demonstration failed: corrupted trace was accepted by " + module)

    # ------------------------------------------------------------ finishing
    def finish(self, violations, level="model_checking"):
        known, new = [], []
        for v in violations:
            k = match_known(self.known, v)
            (known if k else new).append((v, k))
        for _, k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples}
        cov.update(self.extra)
        evd = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.assumptions:
            evd["assumptions"] = self.assumptions
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        json.dump(evd, open(os.path.join(edir, self.pid + ".json"), "w"), indent=1)
        if new:
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.pid)
            json.dump([v for v, _ in new], open(path, "w"), indent=1)
            for v, _ in new[:3]:
                print("rejected by %s (%s): %s" % (v["module"], v.get("label", ""), json.dumps(v["rejected_event"])[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        self.cleanup()
        return 1 if new else 0

    def cleanup(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.tmp, ignore_errors=True)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def match_known(known, v):
    for k in known:
        ev = v.get("rejected_event", {})
        if k["module"] == v.get("module") and all(ev.get(f) == val for f, val in k["match"].items()):
            return k
    return None
