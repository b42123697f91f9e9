"""Case runner shared by every check.

A property module (props/cXX.py) provides:
  ID, RULE, ASSUMPTIONS      strings / list
  SCENARIOS                  list of Scenario(name, fn, weight); fn(ctx) runs one random case
  DIRECTED                   list of (name, fn); deterministic cases, run once each at the start of every run
  REQUIRED                   {counter: minimum}; a run whose monitors observed less is inconclusive
  BUDGET                     {"quick": (max_cases, seconds), "thorough": (max_cases, seconds)}

A case is a pure function of (property, scenario, index, VERIF_SEED), apart from thread timing.
"""
import collections
import contextlib
import faulthandler
import hashlib
import json
import os
import pathlib
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
HANG_SECONDS = 240


class Violation(Exception):
    def __init__(self, message, key=None, **details):
        super().__init__(message)
        self.message = message
        self.key = key
        self.details = details


class HarnessError(Exception):
    pass


class Skip(Exception):
    """the generated case is not meaningful"""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, float, bool, type(None))):
        if isinstance(x, str) and len(x) > 2000:
            return x[:2000] + "..."
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return repr(x)
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:400]


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch_root = scratch
        self.counters = collections.Counter()
        self.signatures = collections.defaultdict(set)
        self.samples = []
        self.known = {}
        self.rng = None
        self.scenario = None
        self.index = None
        self._dirs = 0

    # ----- per-case state
    def begin(self, scenario, index):
        self.scenario, self.index = scenario, index
        self.rng = random.Random(f"{self.prop}|{scenario}|{index}|{self.seed}")
        self.case_log = {}

    def tmpdir(self):
        self._dirs += 1
        d = self.scratch_root / f"{os.getpid()}_{self._dirs}"
        d.mkdir(parents=True)
        return d

    # ----- observations
    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, what, signature):
        """record a distinct observed state/behaviour"""
        self.signatures[what].add(hashlib.blake2b(repr(signature).encode(), digest_size=8).digest())

    def note(self, **kw):
        """context of the current case, kept for samples and replay files"""
        self.case_log.update(kw)

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable({"scenario": self.scenario, "index": self.index} | kw))

    # ----- verdicts
    def fail(self, message, key=None, **details):
        raise Violation(message, key=key, **details)

    def check(self, cond, message, key=None, **details):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(message, key=key, **details)

    def finding(self, key, what):
        """a listed known finding was reproduced"""
        self.known[key] = what

    def fork(self, fn, *args, timeout=HANG_SECONDS, rlimits=()):
        """run fn in a forked child; returns (status, value): ("ok", v) | ("exc", Violation/..) | ("died", signal/exit)"""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                if "torch" in sys.modules:
                    # torch renews its thread pool after a fork at the first use, which must not be in several threads at once
                    sys.modules["torch"].set_num_threads(1)
                for what, limits in rlimits:
                    resource.setrlimit(what, limits)
                try:
                    out = ("ok", fn(*args), (dict(self.counters), self.samples), {k: v for k, v in self.signatures.items()})
                except Violation as e:
                    out = ("violation", (e.message, e.key, jsonable(e.details)), {}, {})
                except BaseException as e:
                    out = ("exc", (type(e).__name__, str(e)[:2000], traceback.format_exc()[-4000:], repo_in_tb(e)), {}, {})
                data = pickle.dumps(out)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                code = 97
            finally:
                os._exit(code)
        os.close(w)
        chunks = []
        deadline = time.monotonic() + timeout
        import select
        with os.fdopen(r, "rb") as f:
            while True:
                ready, _, _ = select.select([f], [], [], max(0.0, deadline - time.monotonic()))
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    return "hang", timeout
                chunk = os.read(f.fileno(), 1 << 16)
                if not chunk:
                    break
                chunks.append(chunk)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return "died", -os.WTERMSIG(status)
        if os.WEXITSTATUS(status) != 0:
            return "died", os.WEXITSTATUS(status)
        try:
            kind, value, counters, signatures = pickle.loads(b"".join(chunks))
        except Exception:
            return "died", -999
        if kind == "ok":
            self.counters, self.samples = collections.Counter(counters[0]), counters[1]
            for k, v in signatures.items():
                self.signatures[k] |= v
        if kind == "violation":
            message, key, details = value
            raise Violation(message, key=key, **details)
        return kind, value


def repo_in_tb(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(str(REPO) + os.sep):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


@contextlib.contextmanager
def watchdog(seconds):
    """dump stacks and die (exit 98) when a case makes no progress"""
    def on_alarm(*_):
        faulthandler.dump_traceback(all_threads=True)
        os._exit(98)
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(mod, ctx, scenario, index):
    """returns None or a violation record; raises HarnessError"""
    fn = scenario_fn(mod, scenario)
    ctx.begin(scenario, index)
    try:
        with watchdog(HANG_SECONDS):
            fn(ctx)
        ctx.counters["evaluations"] += 1
        ctx.counters[f"cases:{scenario}"] += 1
        if not ctx.samples and ctx.case_log:
            ctx.sample(**ctx.case_log)
        return None
    except Skip:
        ctx.counters["skipped"] += 1
        return None
    except Violation as e:
        return {"message": e.message, "key": e.key, "details": jsonable(e.details), "traceback": traceback.format_exc()[-3000:]}
    except HarnessError:
        raise
    except Exception as e:
        # raised by the code under test, or by the monitor that could not make sense of what it returned
        where = "on a valid input" if repo_in_tb(e) else "while judging the result"
        return {
            "message": f"unexpected {type(e).__name__} {where}: {e}",
            "key": None,
            "details": {},
            "traceback": traceback.format_exc()[-6000:],
        }
    finally:
        for d in list(ctx.scratch_root.iterdir()):
            shutil.rmtree(d, ignore_errors=True)


def scenario_fn(mod, scenario):
    for name, fn in getattr(mod, "DIRECTED", []):
        if f"directed:{name}" == scenario:
            return fn
    for name, fn, _ in mod.SCENARIOS:
        if name == scenario:
            return fn
    raise HarnessError(f"unknown scenario {scenario}")


def schedule_of(mod):
    """deterministic weighted round robin of scenarios"""
    names = []
    for name, _, weight in mod.SCENARIOS:
        names += [name] * weight
    rnd = random.Random(mod.ID)
    rnd.shuffle(names)
    return names


def worker(mod, tier, seed, wid, n_workers, out_path, progress_path, start):
    max_cases, seconds = mod.BUDGET[tier]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif_{mod.ID}_{wid}_", dir=os.environ.get("VERIF_SCRATCH")))
    ctx = Ctx(mod.ID, tier, seed, scratch)
    violations = []
    error = None
    directed = [f"directed:{n}" for n, _ in getattr(mod, "DIRECTED", [])]
    names = schedule_of(mod)

    def jobs():
        for i, name in enumerate(directed):
            if i % n_workers == wid:
                yield name, 0, True
        if names:
            for i in range(wid, max_cases, n_workers):
                yield names[(i // n_workers + wid) % len(names)], i, False

    required = getattr(mod, "REQUIRED", {})
    totals_path = pathlib.Path(progress_path).parent

    def enough():
        # on a slow machine, keep going until the workers together have what a verdict requires
        mine = {name: max(ctx.counters.get(name, 0), len(ctx.signatures.get(name, ()))) for name in required}
        (totals_path / f"totals{wid}.tmp").write_text(json.dumps(mine))
        os.replace(totals_path / f"totals{wid}.tmp", totals_path / f"totals{wid}.json")
        totals = collections.Counter()
        for w in range(n_workers):
            with contextlib.suppress(FileNotFoundError):
                totals.update(json.loads((totals_path / f"totals{w}.json").read_text()))
        return all(totals[name] >= minimum for name, minimum in required.items())

    min_cases = max(1, getattr(mod, "MIN_CASES", 3))
    done = 0
    try:
        for scenario, index, is_directed in jobs():
            elapsed = time.monotonic() - start
            if not is_directed and elapsed > seconds and done >= min_cases:
                if enough() or elapsed > 4 * seconds + 60:
                    break

            with open(progress_path, "w") as f:
                json.dump({"scenario": scenario, "index": index}, f)
            v = run_case(mod, ctx, scenario, index)
            if not is_directed:
                done += 1
            if v is not None:
                v |= {"scenario": scenario, "index": index, "case": jsonable(ctx.case_log)}
                violations.append(v)
                if len(violations) >= 3:
                    break
    except HarnessError as e:
        error = str(e)
    except BaseException:
        error = traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out_path, "wb") as f:
        pickle.dump({
            "counters": ctx.counters, "signatures": dict(ctx.signatures), "samples": ctx.samples,
            "violations": violations, "error": error, "known": ctx.known,
        }, f)


def load_known(prop):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {f["key"]: f for f in data.get("findings", []) if f["property"] == prop}


def main(mod, replay=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    prop = mod.ID
    if replay is not None:
        data = json.loads(pathlib.Path(replay).read_text())
        seed = data["seed"]
        scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif_{prop}_replay_"))
        try:
            ctx = Ctx(prop, tier, seed, scratch)
            v = run_case(mod, ctx, data["scenario"], data["index"])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if v is None:
            print(f"replay of {data['scenario']}#{data['index']}: no violation")
            return 0
        print(json.dumps(v, indent=1)[:8000])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1

    run_dir = pathlib.Path(tempfile.mkdtemp(prefix=f"verif_{prop}_run_"))
    pids = {}
    results, crashes = [], []
    try:
        for wid in range(WORKERS):
            out, progress = run_dir / f"out{wid}", run_dir / f"progress{wid}"
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    log = os.open(run_dir / f"log{wid}", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    faulthandler.enable()
                    os.environ["VERIF_SCRATCH"] = str(run_dir)
                    worker(mod, tier, seed, wid, WORKERS, out, progress, start)
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(0)
            pids[pid] = wid
        hard_limit = start + (800 if tier == "quick" else 4 * 3600)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > hard_limit:
                    for p in pids:
                        with contextlib.suppress(ProcessLookupError):
                            os.kill(p, signal.SIGKILL)
                time.sleep(0.05)
                continue
            wid = pids.pop(pid, None)
            if wid is None:
                continue
            out = run_dir / f"out{wid}"
            if out.exists() and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
                results.append(pickle.loads(out.read_bytes()))
            else:
                progress = run_dir / f"progress{wid}"
                case = json.loads(progress.read_text()) if progress.exists() and progress.read_text() else None
                log = (run_dir / f"log{wid}").read_text(errors="replace")[-4000:] if (run_dir / f"log{wid}").exists() else ""
                code = -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
                crashes.append({"case": case, "code": code, "log": log})
        return verdict(mod, tier, seed, start, results, crashes)
    finally:
        shutil.rmtree(run_dir, ignore_errors=True)


def broken_import(prop, e):
    """the methods and configs of the workload are valid: the tree under test refused to register them"""
    text = "".join(traceback.format_exception(e))
    (VERIF / "replays").mkdir(exist_ok=True)
    (VERIF / "evidence").mkdir(exist_ok=True)
    path = VERIF / "replays" / f"{prop}_import.txt"
    path.write_text(text)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "registration of the workload", "samples": [text[-500:]]},
        "assumptions": [], "wall_s": 0.0, "violations": 1,
    }, indent=1))
    print(text[-3000:])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def verdict(mod, tier, seed, start, results, crashes):
    prop = mod.ID
    counters = collections.Counter()
    signatures = collections.defaultdict(set)
    samples, violations, errors, known = [], [], [], {}
    for r in results:
        counters.update(r["counters"])
        for k, v in r["signatures"].items():
            signatures[k] |= v
        samples += r["samples"]
        violations += r["violations"]
        known |= r["known"]
        if r["error"]:
            errors.append(r["error"])
    for c in crashes:
        if c["code"] in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL) and c["case"]:
            violations.append({
                "message": f"the process died with signal {-c['code']} while running the case", "key": None,
                "details": {"log": c["log"]}, "traceback": "", "case": {}, **c["case"],
            })
        elif c["code"] == 98 and c["case"]:
            violations.append({
                "message": f"no progress for {HANG_SECONDS} s: deadlock or livelock", "key": None,
                "details": {"log": c["log"]}, "traceback": "", "case": {}, **c["case"],
            })
        else:
            errors.append(f"worker died: {c}")

    listed = load_known(prop)
    new_violations = []
    for v in violations:
        if v.get("key") and v["key"] in listed:
            known[v["key"]] = listed[v["key"]]["what"]
        else:
            new_violations.append(v)

    nontrivial = sum(len(v) for k, v in signatures.items() if k == "case")
    coverage = {
        "evaluations": int(counters["evaluations"]),
        "distinct_nontrivial": nontrivial,
        "rule": mod.RULE,
        "samples": samples[:6],
        "observed": {k: int(v) for k, v in sorted(counters.items()) if k != "evaluations"},
        "distinct_observed": {k: len(v) for k, v in sorted(signatures.items()) if k != "case"},
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": coverage, "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.monotonic() - start, 2), "violations": len(new_violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))

    for key in sorted(known):
        print(f"KNOWN-FINDING: property={prop} [{key}] {known[key]}")
    print(f"{prop}: {counters['evaluations']} cases, {nontrivial} distinct, {counters['assertions']} assertions, {evidence['wall_s']} s")

    if new_violations:
        replays = VERIF / "replays"
        replays.mkdir(exist_ok=True)
        new_violations.sort(key=lambda v: (not str(v["scenario"]).startswith("directed:"), v["index"]))
        for i, v in enumerate(new_violations[:3]):
            path = replays / f"{prop}_{tier}_{seed}_{i}.json"
            path.write_text(json.dumps({"property": prop, "seed": seed, "tier": tier, **v}, indent=1))
            print(f"  {v['scenario']}#{v['index']}: {v['message']}")
            if v.get("details"):
                print("   ", json.dumps(v["details"])[:3000])
            elif v.get("traceback"):
                print("    " + v["traceback"].strip().replace("\n", "\n    ")[-2500:])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR:", e)
        return 2
    for name, minimum in getattr(mod, "REQUIRED", {}).items():
        value = counters.get(name, len(signatures.get(name, ())))
        if value < minimum:
            print(f"INCONCLUSIVE: {name} = {value}, at least {minimum} needed for a verdict")
            return 3
    return 0
