"""Shared plumbing: parallel shards, evidence files, violation reports, watchdog."""
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLUBS_REPO", "/repo")
sys.dont_write_bytecode = True
# the explorer recurses once per action of a hand; leave the library room whatever the depth
sys.setrecursionlimit(6000)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CALL_LIMIT_S = 120  # one scenario never takes more than milliseconds


class Bad(Exception):
    """The property does not hold; carries the scenario that shows it."""

    def __init__(self, msg, scenario=None):
        super().__init__(msg)
        self.msg = msg
        self.scenario = scenario


class Hang(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang(f"a call into the library did not return within {CALL_LIMIT_S} s")


def tick():
    """(Re)arm the watchdog: called before every scenario."""
    signal.alarm(CALL_LIMIT_S)


class Stats:
    """Counters measured on this run."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()
        self.extra = {}
        self.findings = []  # (key, text): failures which may be known

    def finding(self, key, text):
        self.findings.append((key, text))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(o))

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def top(self, key, n):
        self.extra[key] = max(self.extra.get(key, 0), n)


def merge(total, st):
    total.states += st.states
    total.transitions += st.transitions
    total.traces += st.traces
    for s in st.samples:
        total.sample(s, 8)
    total.outcomes |= st.outcomes
    total.findings += st.findings
    for k, v in st.extra.items():
        if k.startswith("max"):
            total.extra[k] = max(total.extra.get(k, 0), v)
        else:
            total.extra[k] = total.extra.get(k, 0) + v


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-3:])
    return f"{type(exc).__name__}: {exc} [{where}]"


def _shard(job):
    func, args = job
    st = Stats()
    signal.signal(signal.SIGALRM, _on_alarm)
    tick()
    bad = None
    try:
        func(st, *args)
    except Bad as e:
        bad = (e.msg, e.scenario)
    except Exception as e:  # the library raised where the property needs an answer
        bad = ("unexpected exception: " + _describe(e), current_scenario())
    except SystemExit as e:
        bad = (f"the library ended the process: {e}", current_scenario())
    finally:
        signal.alarm(0)
    return st, bad


_current = [None]


def set_scenario(s):
    """What is running now, for reports about unexpected exceptions."""
    _current[0] = s


def current_scenario():
    s = _current[0]
    return s() if callable(s) else s


MEMORY = 3 << 30  # of one worker


class Worker:
    """A forked process which runs jobs by number. (No multiprocessing.Pool: its threads
    fork and its termination can wait for ever for a lock of a killed worker.)"""

    def __init__(self, jobs, others):
        self.jobs = jobs
        self.job = None
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid:
            os.close(r)
            os.close(w)
            return
        code = 1
        try:
            for x in others:
                os.close(x.r)
                os.close(x.w)
            os.close(self.r)
            os.close(self.w)
            self.serve(r, w)
            code = 0
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def serve(self, r, w):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        # whatever a job starts ends with its worker, and the worker with the check
        os.setpgid(0, 0)
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
        except Exception:
            pass
        try:
            resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
        except (OSError, ValueError):
            pass
        with os.fdopen(r, "rb") as fr, os.fdopen(w, "wb") as fw:
            while True:
                line = fr.readline()
                if not line:
                    return
                data = pickle.dumps(_shard(self.jobs[int(line)]))
                fw.write(b"%d\n" % len(data))
                fw.write(data)
                fw.flush()

    def give(self, k):
        self.job = k
        try:
            os.write(self.w, b"%d\n" % k)
        except OSError:
            pass  # it died: reading its result tells

    def take(self):
        """Result of the job, None if the process died."""
        try:
            buf = b""
            while not buf.endswith(b"\n"):
                c = os.read(self.r, 1)
                if not c:
                    return None
                buf += c
            n = int(buf)
            parts = []
            while n:
                c = os.read(self.r, min(n, 1 << 20))
                if not c:
                    return None
                parts.append(c)
                n -= len(c)
            return pickle.loads(b"".join(parts))
        except OSError:
            return None

    def end(self):
        os.close(self.r)
        os.close(self.w)
        for kill in (os.killpg, os.kill):
            try:
                kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(self.pid, 0)
        return status


def run_shards(jobs, workers=None, fresh=False):
    """Run the jobs on several processes. The results count in the order of the jobs and
    up to the first one with a counterexample, so what is reported does not depend on timing."""
    total = Stats()
    bads = []
    jobs = list(jobs)
    n = min(workers or WORKERS, len(jobs)) or 1
    live = []
    results = {}
    todo = list(range(len(jobs)))[::-1]
    died = {}
    merged = 0
    try:
        while merged < len(jobs) and not bads:
            while todo and len(live) < n:
                w = Worker(jobs, live)
                w.give(todo.pop())
                live.append(w)
            ready, _, _ = select.select([w.r for w in live], [], [])
            for w in [x for x in live if x.r in ready]:
                res = w.take()
                if res is None:
                    live.remove(w)
                    status = w.end()
                    died[w.job] = died.get(w.job, 0) + 1
                    if died[w.job] < 2:
                        todo.append(w.job)
                        continue
                    res = (Stats(), (f"the process exploring it ended twice (status {status})",
                                     {"shard": str(jobs[w.job])[:2000]}))
                    results[w.job] = res
                    continue
                results[w.job] = res
                if fresh or not todo:
                    live.remove(w)
                    w.end()
                else:
                    w.give(todo.pop())
            while merged in results and not bads:
                st, bad = results.pop(merged)
                merge(total, st)
                merged += 1
                if bad:
                    bads.append(bad)
    finally:
        for w in live:
            w.end()
    return total, bads, len(jobs)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else str(x)
    return str(x)


def write_evidence(prop, tier, total, shards, bounds, t0, violations, assumptions, exhaustive=True):
    cov = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "distinct_outcomes": len(total.outcomes),
        "shards": shards,
        "bounds": bounds,
        "exhaustive": bool(exhaustive and not violations),
        "samples": jsonable(total.samples),
    }
    cov.update(jsonable(total.extra))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, path)


def write_replay(prop, msg, scenario):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = json.dumps(
        {"property": prop, "what": msg, "scenario": jsonable(scenario)},
        indent=1,
        ensure_ascii=False,
    )
    h = hashlib.sha1(body.encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]
