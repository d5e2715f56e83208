"""Verdicts, evidence, known findings, sharding.  Nothing here knows about PFA."""
import hashlib
import json
import math
import os
import pickle
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, "known_findings.txt")
MAX_SHOWN = 25


def jsonable(x, depth=0):
    """Anything -> something json.dumps accepts, for evidence and replay files."""
    if depth > 60:
        return repr(x)[:200]
    if x is None or isinstance(x, (bool, int)):
        return x
    if isinstance(x, str):
        return x if len(x) <= 20000 else x[:20000] + "..."
    if isinstance(x, float):
        return x if math.isfinite(x) else {"#float": repr(x)}
    if isinstance(x, bytes):
        return {"#bytes": x.hex()}
    if isinstance(x, dict):
        return dict((str(k), jsonable(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:2000]


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<mechanism key> <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (which suppress nothing)."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                words = line.split(" ", 3)
                pid = words[1].split("=", 1)[1]
                key = words[2].split("=", 1)[1]
                out.setdefault(pid, {})[key] = words[3] if len(words) > 3 else ""
    return out


class Hang(BaseException):
    """One evaluation used far more CPU time than any evaluation of its kind can need."""


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.violations = {}     # key -> list of (message, replay dict)
        self.violation_count = 0
        self.known = load_known().get(pid, {})
        self.rule = ""
        self.level = "exploration"
        self.assumptions = []
        self.required = []       # counter names which must be > 0 for a verdict
        self.problems = []       # reasons the run is inconclusive
        self.extra = {}
        self.scratch = os.environ.get("VERIF_SCRATCH") or "/tmp"

    # ---- workload parameters
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *what):
        return random.Random("{0}/{1}/{2}".format(self.pid, self.seed, "/".join(str(w) for w in what)))

    def elapsed(self):
        return time.time() - self.t0

    # ---- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, obj):
        """Register one case in the distinct-case set."""
        self.count("evaluations")
        if len(self.distinct) < 3000000:
            self.distinct.add(hash(obj if isinstance(obj, (str, int, tuple)) else repr(obj)))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def violation(self, key, message, replay=None):
        self.violation_count += 1
        lst = self.violations.setdefault(key, [])
        if len(lst) < 2:
            lst.append((message[:4000], jsonable(replay if replay is not None else {})))

    def inconclusive(self, why):
        self.problems.append(why)

    def require(self, *names):
        self.required.extend(names)

    def new_violations(self):
        return [k for k in self.violations if k not in self.known]

    # ---- merging shards
    def state(self):
        return (self.counters, self.distinct, self.samples, self.violations, self.violation_count, self.problems, self.extra)

    def merge(self, st):
        counters, distinct, samples, violations, vcount, problems, extra = st
        for k, v in counters.items():
            self.count(k, v)
        self.distinct |= distinct
        for s in samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        for k, lst in violations.items():
            mine = self.violations.setdefault(k, [])
            for x in lst:
                if len(mine) < 2:
                    mine.append(x)
        self.violation_count += vcount
        self.problems.extend(problems)
        for k, v in extra.items():
            if isinstance(v, set):
                self.extra.setdefault(k, set()).update(v)
            elif isinstance(v, list):
                self.extra.setdefault(k, []).extend(v)
            else:
                self.extra.setdefault(k, v)

    def sharded(self, work, nshards=None, watchdog=None):
        """Fork nshards children; child i runs work(self, i, nshards).  A child that dies or outlives the
        watchdog makes the run inconclusive (never a violation, never a pass)."""
        if nshards is None:
            nshards = 6
        if watchdog is None:
            watchdog = 500 if self.quick else 840
        sys.stdout.flush()
        kids = {}
        for i in range(nshards):
            path = os.path.join(self.scratch, "shard.{0}.{1}".format(os.getpid(), i))
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    self.counters, self.distinct, self.samples = {}, set(), []
                    self.violations, self.violation_count, self.problems, self.extra = {}, 0, [], {}
                    try:
                        work(self, i, nshards)
                    except BaseException:
                        self.inconclusive("shard {0} harness error: {1}".format(i, traceback.format_exc()))
                    with open(path + ".tmp", "wb") as f:
                        pickle.dump(self.state(), f)
                    os.rename(path + ".tmp", path)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            kids[pid] = (i, path)
        deadline = time.time() + watchdog
        while kids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline:
                    for p, (i, path) in kids.items():
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        self.inconclusive("shard {0} hit the {1} s watchdog".format(i, watchdog))
                    break
                time.sleep(0.02)
                continue
            if pid not in kids:
                continue
            i, path = kids.pop(pid)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    self.merge(pickle.load(f))
                os.remove(path)
            else:
                self.inconclusive("shard {0} died with status {1}".format(i, status))

    # ---- verdict
    def finish(self):
        wall = time.time() - self.t0
        for name in self.required:
            if not self.counters.get(name):
                self.problems.append("monitor never reached: " + name)
        fresh = self.new_violations()
        cov = {"evaluations": int(self.counters.get("evaluations", 0)),
               "distinct_nontrivial": len(self.distinct),
               "rule": self.rule,
               "samples": self.samples or ["(none)"]}
        obs = dict((k, v) for k, v in sorted(self.counters.items()) if k != "evaluations")
        if obs:
            cov["observed"] = obs
        for k, v in self.extra.items():
            cov[k] = sorted(v, key=repr) if isinstance(v, set) else v
        cov["known_findings_reproduced"] = sorted(k for k in self.violations if k in self.known)
        if self.problems:
            cov["inconclusive"] = self.problems[:10]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": jsonable(cov), "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for key, what in sorted(self.known.items()):
            print("KNOWN-FINDING: property={0} {1} [{2}]".format(self.pid, what, key))
        if fresh:
            d = os.path.join(HERE, "replay", self.pid)
            os.makedirs(d, exist_ok=True)
            for key in sorted(fresh)[:MAX_SHOWN]:
                msg, rep = self.violations[key][0]
                path = os.path.join(d, hashlib.md5(key.encode("utf-8")).hexdigest()[:12] + ".json")
                with open(path, "w", encoding="utf-8") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "key": key, "message": msg,
                               "replay": rep}, f, indent=1)
                    f.write("\n")
                print("VIOLATION property={0} replay={1}".format(self.pid, path))
                print("   key: {0}\n   {1}".format(key, msg.replace("\n", "\n   ")))
            if len(fresh) > MAX_SHOWN:
                print("   ... and {0} more mechanisms".format(len(fresh) - MAX_SHOWN))
        print("{0} {1} seed={2}: {3} evaluations, {4} distinct, {5} violations ({6} mechanisms, {7} of them new), {8:.1f} s".format(
            self.pid, self.tier, self.seed, cov["evaluations"], cov["distinct_nontrivial"], self.violation_count,
            len(self.violations), len(fresh), wall))
        if fresh:
            return 1
        if self.problems:
            for p in self.problems[:10]:
                print("INCONCLUSIVE property={0} {1}".format(self.pid, p))
            return 2
        return 0


class cpu_limit(object):
    """Raise Hang if the block burns more than `seconds` of this process's CPU time."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(sig, frame):
            raise Hang()
        self.old = signal.signal(signal.SIGVTALRM, fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False
