"""Common machinery: run TLC, replay behaviours, report verdicts and evidence."""
import contextlib, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The tree under test. Always /repo, except when a scratch copy is tested by hand.
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PRLIMIT = shutil.which("prlimit")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

import numpy as np


class MachineryError(Exception):
    pass

class CaseTimeout(BaseException):
    """The code under test did not return in time (not an Exception, so the code cannot swallow it)."""

class TooMany(Exception):
    pass


class Mismatch(AssertionError):
    def __init__(self, clause, expected=None, observed=None):
        super().__init__(clause)
        self.clause, self.expected, self.observed = clause, expected, observed


def jsonable(x, depth=0):
    try:
        return _jsonable(x, depth)
    except Exception as exc:    # a report must never fail because of what it reports
        return f"<{type(x).__name__} that cannot be shown: {type(exc).__name__}>"


def _jsonable(x, depth):
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item()) if not isinstance(x, (np.complexfloating, np.datetime64)) else repr(x)
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return jsonable(x[()], depth+1) if not isinstance(x[()], np.ndarray) else repr(x)
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {"shape": list(x.shape), "dtype": str(x.dtype), "head": jsonable(x.ravel()[:16], depth+1)}
        if x.dtype.kind in "fiub":
            return [jsonable(y, depth+1) for y in x.tolist()]
        return repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(y, depth+1) for y in list(x)[:100]]
    return repr(x)[:300]


class Check:

    MAX_FAILS = 15

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.nprng = np.random.default_rng([self.seed, int(pid[1:])])
        self.t0 = time.time()
        self.fails = []
        self.states = self.transitions = 0
        self.replayed = 0     # behaviours of the specification executed on the code
        self.validated = 0    # recorded executions validated by the specification
        self.tlc_runs = []
        self.samples = []
        self.counts = {}
        self.required = {}
        self.assumptions = []
        self._ctx = {}
        self._tmp = tempfile.TemporaryDirectory(prefix=f"verif-{pid}-")
        self.tmp = self._tmp.name

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ---------------------------------------------------------------

    def write_scen(self, records, name="scen.ndjson"):
        path = os.path.join(self.tmp, name)
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        return path

    def tlc(self, module, cfg, scen=None, env=None, workers=1, args=(), timeout=800, mem="6g"):
        """Check specs/<module>.tla with specs/<cfg>.cfg, return the emitted records.

        Anything but a successful run is an error of the machinery: the
        specification does not depend on the code under test.
        """
        e = dict(os.environ)
        e.update(env or {})
        if scen is not None:
            e["SCEN"] = self.write_scen(scen, f"scen{len(self.tlc_runs)}.ndjson") if not isinstance(scen, str) else scen
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
               "-noTE", "-nowarning", "-metadir", meta, "-workers", str(workers), *args,
               "-config", cfg + ".cfg", module + ".tla"]
        t = time.time()
        out_path = os.path.join(meta, "out.txt")
        with open(out_path, "w") as out:
            try:
                # (without the limit on memory of main)
                rc = subprocess.run(["prlimit", "--as=" + str(resource.getrlimit(resource.RLIMIT_AS)[1]).replace("-1", "unlimited"), *cmd] if PRLIMIT else cmd,
                                    cwd=SPECS, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC timeout: {module} {cfg}")
        records, tail, gen, dist = [], [], 0, 0
        with open(out_path) as f:
            for line in f:
                if line.startswith('"@@'):
                    records.append(json.loads(json.loads(line)[2:]))
                    continue
                m = re.match(r"(\d+) states generated(?: \(.*\))?, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    gen = dist = int(m.group(1))
                if not line.startswith(("Parsing", "Semantic", "Linting")):
                    tail.append(line)
                    tail = tail[-60:]
        os.remove(out_path)
        if rc != 0:
            raise MachineryError(f"TLC failed (rc={rc}): {module} {cfg}\n" + "".join(tail))
        if workers > 1:
            # reproducible whatever the schedule of the workers
            records.sort(key=lambda r: json.dumps(r, sort_keys=True))
        self.states += dist
        self.transitions += gen
        self.tlc_runs.append({"module": module, "cfg": cfg, "states": dist, "generated": gen,
                              "emitted": len(records), "wall_s": round(time.time() - t, 2)})
        return records

    # -- cases ---------------------------------------------------------------

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def sample(self, x, n=6):
        if len(self.samples) < n:
            self.samples.append(jsonable(x))

    @contextlib.contextmanager
    def case(self, key, limit=60, **inputs):
        """One behaviour executed on the code; any exception in it is a violation."""
        def alarm(*_):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
        except TooMany:
            raise
        except MachineryError:
            raise
        except Mismatch as m:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.fail(key, m.clause, inputs, m.expected, m.observed)
        except CaseTimeout:
            self.fail(key, f"does not terminate within {limit} s", inputs)
        except Exception as exc:   # (MemoryError included)
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.fail(key, f"unexpected {type(exc).__name__}: {exc}"[:500], inputs,
                      observed=traceback.format_exc()[-1500:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def fail(self, key, clause, inputs=None, expected=None, observed=None):
        if any(k in key for k in known_keys(self.pid)):
            if not any(f["key"] == key for f in self._ctx.setdefault("known", [])):
                self._ctx["known"].append({"key": key})
                print(f"KNOWN-FINDING: property={self.pid} {key}: {clause}")
            return
        self.fails.append(dict(key=key, clause=clause, inputs=jsonable(inputs),
                               expected=jsonable(expected), observed=jsonable(observed)))
        if len(self.fails) >= self.MAX_FAILS:
            raise TooMany()

    def expect(self, clause, ok, expected=None, observed=None):
        if not ok:
            raise Mismatch(clause, expected, observed)
        return True

    def expect_raises(self, clause, exceptions, func, *args, **kwargs):
        try:
            got = func(*args, **kwargs)
        except exceptions:
            return
        except Exception as exc:
            raise Mismatch(f"{clause}: raised {type(exc).__name__} instead ({exc})", expected=str(exceptions))
        raise Mismatch(f"{clause}: accepted", expected=str(exceptions), observed=got)

    def expect_close(self, clause, got, exp, rel=1e-9, atol=0., scale=None):
        """Same shape, no NaN and |got - exp| <= atol + rel * max(|exp|, scale)."""
        g, x = np.asarray(got), np.asarray(exp)
        if g.shape != x.shape:
            raise Mismatch(f"{clause}: shape {g.shape} instead of {x.shape}", x, g)
        if g.dtype.kind not in "fiubc":
            raise Mismatch(f"{clause}: not a numeric result ({g.dtype})", x, g)
        if x.size == 0:
            return
        g = g.astype(complex if g.dtype.kind == "c" or x.dtype.kind == "c" else float)
        fin = np.isfinite(x)
        if not np.array_equal(g[~fin], x[~fin].astype(g.dtype)):
            raise Mismatch(f"{clause}: wrong non-finite values", x, g)
        if not np.isfinite(g[fin]).all():
            raise Mismatch(f"{clause}: NaN or infinite values", x, g)
        if not fin.any():
            return
        s = np.max(np.abs(x[fin])) if scale is None else scale
        err = np.max(np.abs(g[fin] - x[fin]))
        if not err <= atol + rel * s:
            at = np.argwhere(np.abs(np.where(fin, g, 0) - np.where(fin, x, 0)) == err)[0].tolist()
            raise Mismatch(f"{clause}: differs by {err:.3e} (tolerance {atol + rel * s:.3e}) at {at}", x, g)

    # -- end -----------------------------------------------------------------

    def require(self, **minima):
        """Vacuity guard: categories that must have been exercised."""
        for key, n in minima.items():
            self.required[key] = n
            if self.counts.get(key, 0) < n:
                raise MachineryError(f"vacuous check: {key} = {self.counts.get(key, 0)} < {n}")

    def finish(self, stopped=False):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.replayed + self.validated,
                "behaviours_replayed": self.replayed,
                "recorded_traces_validated": self.validated,
                "tlc_runs": self.tlc_runs,
                "cases": self.counts,
                "required_cases": self.required,
                "stopped_early": stopped,
                "samples": self.samples or ["none"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.fails),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self._tmp.cleanup()
        if not self.fails:
            print(f"OK property={self.pid} tier={self.tier} states={self.states} "
                  f"replayed={self.replayed} validated={self.validated} wall={ev['wall_s']}s")
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": self.fails,
                           "reproduce": f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./run.sh {self.pid}"}, indent=1)
        path = os.path.join(d, f"{self.pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            f.write(body)
        for v in self.fails[:5]:
            print(f"  {v['key']}: {v['clause']}"[:400])
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def known_keys(pid, _cache={}):
    """Keys of the known findings of a property (lines 'known: property=<id> key=<key> ...')."""
    if "x" not in _cache:
        _cache["x"] = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+)", line)
                if m:
                    _cache["x"].append(m.groups())
    return [k for p, k in _cache["x"] if p == pid]


def main(pid, func):
    ck = Check(pid)
    if PRLIMIT:
        # code that asks for far too much memory fails instead of being killed
        try:
            resource.setrlimit(resource.RLIMIT_AS, (12 * 2**30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        except (ValueError, OSError):
            pass
    stopped = False
    try:
        import barotropic
        f = os.path.realpath(barotropic.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise MachineryError("barotropic imported from " + f)
        func(ck)
    except TooMany:
        stopped = True
    except MachineryError as exc:
        print(f"MACHINERY ERROR in check {pid}: {exc}")
        if not ck.fails:
            return 2
    except Exception as exc:
        # Raised by the code under test outside of a case (set-up of shared
        # objects): the code refuses what it has to accept
        text = traceback.format_exc()
        if "/src/barotropic/" not in text and not ck.fails:
            print(f"MACHINERY ERROR in check {pid}: {text}")
            return 2
        try:
            ck.fail("setup", f"unexpected {type(exc).__name__}: {exc}"[:500], observed=text[-1500:])
        except TooMany:
            pass
        stopped = True
    return ck.finish(stopped)


def frac(q):
    """<<num, den>> -> float"""
    return q[0] / q[1]
