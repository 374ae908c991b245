"""Build, driver process, case runner, verdicts and evidence."""
import collections, concurrent.futures, fcntl, hashlib, json, multiprocessing, os, random, select, shutil, signal
import subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
MIRROR = os.path.join(BUILD, "repo")
SITE = "/opt/vp/venv/lib/python3.12/site-packages"
WHEEL_LIBS = ":".join(f"{SITE}/{d}" for d in ("eckitlib/lib64", "metkitlib/lib64", "eccodeslib/lib64", "eckitlib.libs"))
VENV_PY = "/opt/vp/venv/bin/python3"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not run (not a verdict)."""


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------------------------------------- build
def _mirror():
    """Content-based copy of the sources: rebuilds depend on what files say, not on their mtimes."""
    want = {}
    for top in ("src", "cmake", "tests/fdb/etc", "tests/data"):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = [x for x in dn if x not in ("__pycache__", "_build")]
            for f in fn:
                p = os.path.join(d, f)
                want[os.path.relpath(p, REPO)] = p
    want["VERSION"] = os.path.join(REPO, "VERSION")
    for rel, p in want.items():
        q = os.path.join(MIRROR, rel)
        if os.path.islink(p) and not os.path.exists(p):
            continue
        with open(p, "rb") as f:
            data = f.read()
        try:
            with open(q, "rb") as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)
        shutil.copymode(p, q)
    for d, dn, fn in os.walk(MIRROR):
        dn[:] = [x for x in dn if x != "__pycache__"]
        for f in fn:
            q = os.path.join(d, f)
            if os.path.relpath(q, MIRROR) not in want:
                os.unlink(q)


def ensure(variant="plain", targets=("fdbdrv", "iofault")):
    os.makedirs(BUILD, exist_ok=True)
    b = os.path.join(BUILD, variant)
    if os.environ.get("VF_NOBUILD"):
        return b
    env = dict(os.environ, CCACHE_DIR=os.path.join(VERIF, "_cache", "ccache"), CCACHE_MAXSIZE="4G",
               CCACHE_NOHASHDIR="1")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _mirror()
        cache = os.path.join(b, "CMakeCache.txt")
        if os.path.exists(cache) and f"CMAKE_CACHEFILE_DIR:INTERNAL={b}\n" not in open(cache).read():
            shutil.rmtree(b)    # copied here from elsewhere: it would build the sources it was made for
        if not os.path.exists(os.path.join(b, "build.ninja")):
            cc = ("/usr/bin/gcc", "/usr/bin/g++") if variant == "plain" else ("/usr/bin/clang-18", "/usr/bin/clang++-18")
            cmd = ["cmake", "-S", os.path.join(VERIF, "build"), "-B", b, "-G", "Ninja", f"-DVF_VARIANT={variant}",
                   f"-DREPO={MIRROR}", f"-DCMAKE_C_COMPILER={cc[0]}", f"-DCMAKE_CXX_COMPILER={cc[1]}",
                   f"-DPython_EXECUTABLE={VENV_PY}"]
            if os.path.exists("/usr/bin/ccache"):
                cmd += ["-DCMAKE_C_COMPILER_LAUNCHER=/usr/bin/ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                shutil.rmtree(b, ignore_errors=True)
                raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", b, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
    return b


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 4 << 30:
                return d
        except OSError:
            pass
    return "/tmp"


# ------------------------------------------------------------------------------------------------- driver
class DriverDied(Exception):
    def __init__(self, rc, err, op=None):
        super().__init__(f"driver ended rc={rc} during {op}: {err[-3000:]}")
        self.rc, self.err, self.op = rc, err, op


class DriverHung(Exception):
    pass


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"},
    "tsan": {"TSAN_OPTIONS": f"exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:suppressions={VERIF}/src/tsan.supp"},
    "plain": {},
}


def base_env(variant, home, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("FDB", "ECKIT", "METKIT", "VF_", "LD_", "MARS"))}
    env.update(LD_LIBRARY_PATH=os.path.join(BUILD, variant, "lib") + ":" + WHEEL_LIBS, FDB_HOME=home, HOME=home,
               OMP_NUM_THREADS="1", TZ="UTC", LANG="C.UTF-8")
    env.update(SAN_ENV.get(variant, {}))
    if os.environ.get("VF_PRELOAD"):
        env["LD_PRELOAD"] = os.environ["VF_PRELOAD"]
    for k, v in (extra or {}).items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = str(v)
    return env


class Driver:
    """One fdbdrv process."""

    def __init__(self, workdir, variant="plain", env=None, name="drv", argv=None, preload=None, args=()):
        self.workdir, self.variant, self.name = workdir, variant, name
        os.makedirs(workdir, exist_ok=True)
        self.errpath = os.path.join(workdir, f"{name}.{os.getpid()}.{time.monotonic_ns()}.stderr")
        e = base_env(variant, os.path.join(workdir, "home"), env)
        os.makedirs(os.path.join(workdir, "home"), exist_ok=True)
        if preload:
            e["LD_PRELOAD"] = preload
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen(argv or [os.path.join(BUILD, variant, "bin", "fdbdrv"), *args], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=workdir, bufsize=0, start_new_session=True)
        self.buf = b""
        self.nops = 0
        self.log = []
        self.pending = 0

    def stderr(self, most=20000):
        try:
            with open(self.errpath, "rb") as f:
                d = f.read()
            return d[-most:].decode("utf-8", "replace") if len(d) > most else d.decode("utf-8", "replace")
        except OSError:
            return ""

    def send(self, op):
        self.nops += 1
        self.log.append(op)
        line = (json.dumps(op, ensure_ascii=False) + "\n").encode("latin-1")    # strings stand for bytes
        try:
            self.p.stdin.write(line)
        except (BrokenPipeError, OSError):
            self._died(op)
        self.pending += 1

    def _died(self, op=None):
        try:
            rc = self.p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            self.kill()
            rc = self.p.wait()
        raise DriverDied(rc, self.stderr(), op)

    def _line(self, timeout, op=None):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                if os.environ.get("VF_GDB"):
                    subprocess.run(os.environ["VF_GDB"] + f" {self.p.pid} {self.workdir}", shell=True)
                raise DriverHung(f"{self.name}: no answer within {timeout}s to {json.dumps(op)[:300]}")
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    self._died(op)
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def recv(self, timeout=120, op=None):
        r = self._line(timeout, op or (self.log[-1] if self.log else None))
        self.pending -= 1
        return r

    def do(self, op=None, timeout=120, **kw):
        """-> result dict (with 'err' if the call threw)"""
        op = dict(op or {}, **kw)
        self.send(op)
        r = self.recv(timeout, op)
        self.t0, self.t1 = r[0], r[1]
        return r[2]

    def ok(self, op=None, timeout=120, **kw):
        r = self.do(op, timeout, **kw)
        if isinstance(r, dict) and "err" in r:
            raise OpFailed(op or kw, r)
        return r

    def par(self, threads, timeout=300):
        """threads: list of lists of ops; -> list of lists of (t0, t1, result)"""
        r = self.do({"op": "par", "threads": ["\n".join(json.dumps(o, ensure_ascii=False) for o in t) for t in threads]}, timeout)
        if "err" in r:
            raise OpFailed("par", r)
        return r["threads"]

    def quit(self, timeout=120):
        if self.p.poll() is None:
            try:
                self.p.stdin.write(b'{"op":"quit"}\n')
                self.p.stdin.close()
            except OSError:
                pass
            end = time.monotonic() + timeout
            while True:
                r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.monotonic()))
                if not r:
                    self.kill()
                    raise DriverHung(f"{self.name}: did not exit within {timeout}s of quit")
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    break
                self.buf += d
            rc = self.p.wait(timeout=30)
        else:
            rc = self.p.returncode
        self.err.close()
        if rc != 0:
            raise DriverDied(rc, self.stderr(), "quit")
        if b"closeerr" in self.buf:
            raise OpFailed("close", json.loads([l for l in self.buf.split(b"\n") if b"closeerr" in l][0]))
        return rc

    def kill(self, sig=signal.SIGKILL):
        killgroup(self.p, sig)
        try:
            self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            pass
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


class OpFailed(Exception):
    def __init__(self, op, res):
        super().__init__(f"{json.dumps(op)[:600]} -> {json.dumps(res)[:800]}")
        self.op, self.res = op, res


# ------------------------------------------------------------------------------------------------- verdicts
class Violation(Exception):
    """The property is broken: sig identifies what failed (stable across runs), msg says how."""

    def __init__(self, sig, msg, **detail):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg, self.detail = sig, msg, detail

    def __reduce__(self):
        return (_mkviol, (self.sig, self.msg, self.detail))


def _mkviol(sig, msg, detail):
    return Violation(sig, msg, **detail)


class Result:
    """What one case observed."""

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.counters = collections.Counter()
        self.violations = []
        self.samples = []
        self.inconclusive = []

    def saw(self, key, n=1):
        """One evaluated oracle; key identifies the distinct, non-trivial situation"""
        self.evals += n
        if key is not None:
            self.keys.add(key if isinstance(key, (str, int)) else hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def rng_for(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).hexdigest())


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule, self.assumptions = pid, level, rule, list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.total = Result()
        self.ncases = 0
        self.work = None
        self.only = None
        args = sys.argv[1:]
        if "--replay" in args:
            with open(args[args.index("--replay") + 1]) as f:
                self.only = json.load(f)
            self.seed = self.only["seed"]
            self.tier = self.only["tier"]
        self.thorough = self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def scratch(self):
        if not self.work:
            self.work = tempfile.mkdtemp(prefix=f"vf-{self.pid}-", dir=scratch_base())
        return self.work

    def run(self, fn, cases, workers=None, retry_inconclusive=1):
        """fn(case, workdir, Result): raises Violation / Inconclusive. Runs cases in forked processes."""
        cases = list(cases)
        if self.only is not None:
            cases = [c for c in cases if _plain(c) == self.only["case"] and fn.__name__ == self.only["fn"]]
        if os.environ.get("VF_ONLY"):       # while working on a check
            cases = [c for c in cases if eval(os.environ["VF_ONLY"], {}, c)]
        base = self.scratch()
        todo = [(fn, c, os.path.join(base, f"{fn.__name__}-{self.ncases + i}"), self.seed) for i, c in enumerate(cases)]
        self.ncases += len(cases)
        workers = min(workers or NCPU, max(1, len(todo)))
        if not todo:
            return
        ctx = multiprocessing.get_context("fork")
        again = []
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
            futs = {ex.submit(_run_case, *t): t for t in todo}
            for f in concurrent.futures.as_completed(futs):
                t = futs[f]
                res = f.result()
                if res.inconclusive and retry_inconclusive:
                    again.append(t)
                    continue
                self._merge(res, t)
            for t in again:   # once more, alone
                res = ex.submit(_run_case, *t).result()
                self.total.count("rerun_cases")
                for i in res.inconclusive:
                    if "DriverHung" in i:   # an operation of milliseconds, twice without answer, the second time alone
                        res.violations.append({"sig": "hang", "msg": i, "detail": {}})
                self._merge(res, t)

    def _merge(self, res, t):
        tot = self.total
        tot.evals += res.evals
        tot.keys |= res.keys
        tot.counters.update(res.counters)
        tot.inconclusive += res.inconclusive
        if len(tot.samples) < 6:
            tot.samples += res.samples[:2]
        for v in res.violations:
            v.setdefault("fn", t[0].__name__)
            v.setdefault("case", _plain(t[1]))
            tot.violations.append(v)

    def violation(self, sig, msg, **detail):
        self.total.violations.append({"sig": sig, "msg": msg, "detail": detail, "case": None, "fn": None})

    def finish(self, minimum=None):
        """Write evidence, print verdict, exit."""
        tot = self.total
        known = load_known()
        new, old = [], {}
        for v in tot.violations:
            k = next((k for k in known if k["status"] == "known" and k["property"] == self.pid and k["sig"] == v["sig"]), None)
            if k:
                old[k["sig"]] = k
            else:
                new.append(v)
        cov = {"evaluations": tot.evals, "distinct_nontrivial": len(tot.keys), "rule": self.rule,
               "cases": self.ncases, "observed": dict(sorted(tot.counters.items())),
               "samples": tot.samples[:6] or ["none"], "inconclusive": tot.inconclusive[:10],
               "inconclusive_count": len(tot.inconclusive)}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.only is None:
            with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        if self.work and not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        for k in (k for k in known if k["status"] == "known" and k["property"] == self.pid):
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        if new:
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            seen = collections.Counter()
            for i, v in enumerate(new):
                seen[v["sig"]] += 1
                if seen[v["sig"]] > 2 or i > 40:
                    continue
                path = os.path.join(d, f"{self.pid}-{self.tier}-{self.seed}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **v}, f, indent=1, default=str)
                print(f"# {v['sig']}: {v['msg'][:1500]}")
                print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        elif minimum is not None and tot.evals < minimum and self.only is None:
            print(f"# {self.pid}: only {tot.evals} evaluations (< {minimum}): no verdict; {tot.inconclusive[:3]}")
            rc = 3
        print(f"# {self.pid} {self.tier} seed={self.seed}: {tot.evals} evaluations, {len(tot.keys)} distinct, "
              f"{len(new)} violations, {len(tot.inconclusive)} inconclusive, {time.time() - self.t0:.1f}s")
        for i in tot.inconclusive[:5]:
            print("# inconclusive:", str(i)[:200], "...", str(i)[-300:].replace("\n", " | "))
        if os.environ.get("VF_VERBOSE"):
            print(json.dumps(cov["observed"], indent=1))
        sys.stdout.flush()
        os._exit(rc)


def _plain(c):
    return json.loads(json.dumps(c, default=str))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def san_sig(err, variant):
    """A stable name for a sanitizer report, or None"""
    import re
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err) or re.search(r"runtime error: (.*)", err)
    if not m:
        return None
    kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
    fr = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err[m.start():]) if "fdb5" in x or "chunked" in x or "pyfdb" in x]
    return f"{kind} in {fr[0] if fr else '?'}"


def _run_case(fn, case, workdir, seed):
    res = Result()
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.makedirs(workdir, exist_ok=True)
    try:
        fn(case, workdir, res)
    except Violation as v:
        res.violations.append({"sig": v.sig, "msg": v.msg, "detail": v.detail})
    except DriverDied as e:
        s = san_sig(e.err, "")
        if s:
            res.violations.append({"sig": "sanitizer:" + s, "msg": e.err[-6000:], "detail": {"op": e.op}})
        elif e.rc == -9:     # nothing in the code under test does that
            res.inconclusive.append(f"{fn.__name__} {str(case)[:120]}: killed from outside: {e}")
        else:
            res.violations.append({"sig": "process-died", "msg": str(e)[:6000], "detail": {"rc": e.rc}})
    except (DriverHung, Inconclusive, subprocess.TimeoutExpired) as e:
        res.inconclusive.append(f"{fn.__name__} {str(case)[:120]}: {type(e).__name__} {e}")
    except OpFailed as e:
        res.violations.append({"sig": "unexpected-error", "msg": str(e)[:3000], "detail": {}})
    except Exception:
        res.inconclusive.append(f"{fn.__name__} {str(case)[:120]}: harness error {traceback.format_exc()[-3000:]}")
        res.count("harness_errors")
    finally:
        _reap(workdir)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(workdir, ignore_errors=True)
    return res


def killgroup(p, sig=signal.SIGKILL):
    """Processes once reaped may have given their id to others: those are left alone"""
    if p.returncode is not None:
        return
    try:
        os.killpg(p.pid, sig)
    except (ProcessLookupError, PermissionError):
        pass


_live = []


def track(proc):
    _live.append(proc)
    return proc


def _reap(workdir):
    while _live:
        p = _live.pop()
        try:
            p.kill()
        except Exception:
            pass
