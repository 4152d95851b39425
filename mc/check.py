"""Check runner: violation bookkeeping, known findings, replay artefacts, evidence, worker pool."""
import json
import multiprocessing as mp
import multiprocessing.connection
from concurrent import futures
import concurrent.futures.process
import os
import signal
import sys
import time
import traceback

from mc import env

VERIF = env.VERIF
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class CaseTimeout(Exception):
    pass


def load_known(pid):
    """finding: property=<id> key=<key> <what>   /   fixed: property=<id> <commit> <what>"""
    out = {}
    if not os.path.exists(KNOWN_FILE):
        return out
    for ln in open(KNOWN_FILE):
        ln = ln.strip()
        if not ln.startswith("finding:"):
            continue
        parts = ln[len("finding:"):].split(None, 2)
        if parts[0] != "property=" + pid:
            continue
        key = parts[1][len("key="):]
        out[key] = parts[2] if len(parts) > 2 else ""
    return out


class Check:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.level = level
        self.t0 = time.time()
        self.known = load_known(pid)
        self.known_hit = {}
        self.violations = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ""
        self.exhaustive = True

    # -- accounting --------------------------------------------------------
    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def case(self, key=None):
        self.evaluations += 1
        if key is not None:
            self.nontrivial.add(key)

    def violation(self, key, what, case=None):
        """key identifies the failing input/history; known keys are reported as findings."""
        key = key.replace(" ", "_")
        if key in self.known:
            self.known_hit.setdefault(key, what)
            return
        self.violations.setdefault(key, {"key": key, "what": what, "case": case})

    def expect(self, cond, key, what, case=None):
        if not cond:
            self.violation(key, what, case)
        return cond

    def merge(self, r):
        """merge a worker result dict"""
        self.states += r.get("states", 0)
        self.transitions += r.get("transitions", 0)
        self.traces += r.get("traces", 0)
        self.evaluations += r.get("evaluations", 0)
        self.nontrivial |= set(r.get("nontrivial", ()))
        for s in r.get("samples", ()):
            self.sample(s)
        for v in r.get("violations", ()):
            self.violation(v["key"], v["what"], v.get("case"))
        for k, v in r.get("extra", {}).items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v

    def sub(self):
        """A fresh accumulator for a worker."""
        return Sub()

    # -- end ----------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        cov = {"samples": self.samples or ["(none)"], "exhaustive": bool(self.exhaustive)}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
            if self.evaluations:
                cov["evaluations"] = self.evaluations
                cov["distinct_nontrivial"] = len(self.nontrivial)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.nontrivial))
        cov["rule"] = self.rule
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": env.SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        if self.known_hit:
            ev["coverage"]["known_findings_reproduced"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, self.known[k]))
        print("%s %s: states=%d transitions=%d traces=%d cases=%d distinct=%d wall=%.1fs violations=%d" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.evaluations,
            len(self.nontrivial), wall, len(self.violations)))
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (k, v) in enumerate(list(self.violations.items())[:10]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(dict(v, property=self.pid, seed=env.SEED, tier=self.tier), f, indent=1, default=_js)
                print("  %s: %s" % (k, str(v["what"])[-350:]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


class Sub:
    def __init__(self):
        self.r = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0, "nontrivial": set(), "samples": [],
                  "violations": [], "extra": {}}

    def violation(self, key, what, case=None):
        if len(self.r["violations"]) < 200:
            self.r["violations"].append({"key": key, "what": str(what), "case": _plain(case)})

    def expect(self, cond, key, what, case=None):
        if not cond:
            self.violation(key, what, case)
        return cond

    def case(self, key=None):
        self.r["evaluations"] += 1
        if key is not None:
            self.r["nontrivial"].add(key)

    def sample(self, s, limit=3):
        if len(self.r["samples"]) < limit:
            self.r["samples"].append(s)

    def add(self, states=0, transitions=0, traces=0):
        self.r["states"] += states
        self.r["transitions"] += transitions
        self.r["traces"] += traces

    def count(self, name, n=1):
        self.r["extra"][name] = self.r["extra"].get(name, 0) + n


def _plain(x):
    return json.loads(json.dumps(x, default=_js))


def _js(o):
    if isinstance(o, (bytes, bytearray)):
        return o.hex()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def in_repo(tb):
    return any(os.path.abspath(f.filename).startswith(env.REPO + os.sep) or "/trezor_crypto/" in f.filename
               for f in traceback.extract_tb(tb))


def _alarm(*_a):
    if _clock() > _UNTIL:
        raise CaseTimeout("case did not terminate in time")
    fd = _os_open("/proc/self/statm", os.O_RDONLY)
    rss = int(_os_read(fd, 100).split()[1]) * 4096
    _os_close(fd)
    if rss > MEMORY:
        raise CaseTimeout("case takes memory without end")


_clock, _os_open, _os_read, _os_close = time.monotonic, os.open, os.read, os.close     # whatever a harness patches
_FN = None
_ITEMS = None
_UNTIL = 0.0
MEMORY = 3 << 30      # resident memory of a worker; the executions explored need well under 1 GB


def _call(args):
    i, limit = args
    item = _ITEMS[i]
    old = signal.signal(signal.SIGALRM, _alarm)
    global _UNTIL
    _UNTIL = _clock() + limit
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    sub = Sub()
    try:
        _FN(sub, item)
    except CaseTimeout as e:
        sub.violation("hang:%s" % _short(item), "%s (limits: %d s, %d MB): %r" % (e, limit, MEMORY >> 20, item), {"item": _short(item)})
    except MemoryError:
        return i, None, traceback.format_exc()
    except (OSError, NameError):
        return i, None, traceback.format_exc()
    except Exception as e:
        where = "in the code under test" if in_repo(e.__traceback__) else "interpreting the result of the code under test"
        sub.violation("exception:%s:%s" % (type(e).__name__, _short(item)),
                      "unexpected exception %s on a well-formed execution %s: %s" % (
                          where, _short(item), traceback.format_exc()[-1800:]), {"item": _short(item)})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return i, sub.r, None


def _short(x):
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
        x = x[0]
    return str(x).replace(" ", "")[:120]


def pmap(chk, fn, items, limit=300, procs=None):
    """Run fn(sub, item) for every item in forked workers and merge the accumulators (in order)."""
    global _FN, _ITEMS
    items = list(items)
    _FN, _ITEMS = fn, items
    procs = procs or min(8, os.cpu_count() or 4, max(1, len(items)))
    jobs = [(i, limit) for i in range(len(items))]
    results = {}
    if procs == 1 or len(items) == 1:
        for j in jobs:
            i, r, err = _call(j)
            if err:
                raise HarnessError(err)
            results[i] = r
    else:
        broken = False
        with futures.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as pool:
            waits = [pool.submit(_call, j) for j in jobs]
            try:
                for w in futures.as_completed(waits):
                    i, r, err = w.result()
                    if err:
                        raise HarnessError(err)
                    results[i] = r
            except futures.process.BrokenProcessPool:
                broken = True
            finally:
                for w in waits:
                    w.cancel()
        if broken:
            _isolated([j for j in jobs if j[0] not in results], procs, results)
    for i in range(len(items)):
        chk.merge(results[i])


def _single(job, conn):
    conn.send(_call(job))
    conn.close()


def _isolated(jobs, procs, results):
    """A worker died: run what is left one process per item; an item that crashes the interpreter is a violation."""
    ctx = mp.get_context("fork")
    todo, live = list(jobs), []
    while todo or live:
        while todo and len(live) < procs:
            j = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_single, args=(j, wr))
            p.start()
            wr.close()
            live.append((j, p, rd))
        mp.connection.wait([x[2] for x in live], 1)
        for x in list(live):
            j, p, rd = x
            if not rd.poll() and p.is_alive():
                continue
            try:
                i, r, err = rd.recv()
                if err:
                    raise HarnessError(err)
            except EOFError:
                p.join()
                if p.exitcode not in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
                    raise HarnessError("worker ended with %s on %r" % (p.exitcode, _ITEMS[j[0]]))
                sub = Sub()
                sub.violation("crash:%s" % _short(_ITEMS[j[0]]), "interpreter crashed (signal %d) on %r" % (-p.exitcode, _ITEMS[j[0]]))
                r = sub.r
            p.join()
            rd.close()
            results[j[0]] = r
            live.remove(x)


class HarnessError(Exception):
    pass
