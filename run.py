#!/opt/venv/bin/python
"""run.py <ID> [--replay FILE]: decide one property by monitoring executions of /repo's code.

Parent: starts 8 workers (own process, own PYTHONHASHSEED), merges what they observed, writes evidence/<ID>.json.
Exit 0: held on everything observed; 1: VIOLATION; 2: inconclusive or error.
"""
import sys

sys.dont_write_bytecode = True
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.path.join(HERE, "evidence")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORKERS = 8
SOFT = {"quick": 420, "thorough": 700}  # seconds after which workers start no further case
HARD = {"quick": 780, "thorough": 850}


class Skip(Exception):
    """The case is outside the property (or of the oracle's competence); counted, not judged."""


class Stats:
    def __init__(self):
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.seen = {}

    def see(self, name, item):
        """the number of different items over all workers becomes a counter"""
        self.seen.setdefault(name, set()).add(str(item))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, n):
        self.counters["max:" + name] = max(self.counters.get("max:" + name, 0), n)

    def nontrivial(self, key):
        self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith("/repo/"):
            return True
        tb = tb.tb_next
    return False


def judge(mod, case, st):
    """list of violation texts; an exception out of the code under test is one."""
    from monitor.store import DoesNotStop

    try:
        return list(mod.judge(case, st) or [])
    except Skip as e:
        st.count("skipped: " + str(e))
        return None
    except DoesNotStop as e:
        return ["expansion does not stop: %s" % e]
    except Exception as e:
        if in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if f.filename.startswith("/repo/")][-1]
            return ["the code under test raised %s: %s (%s:%s)" % (type(e).__name__, e, last.filename, last.name)]
        raise


def shrink(mod, case, limit=25.0):
    """ddmin over the list-valued entries named in mod.SHRINK."""
    t0 = time.time()

    def fails(c):
        try:
            return bool(judge(mod, c, Stats()))
        except BaseException:
            return False

    for key in getattr(mod, "SHRINK", ["triples"]):
        cur = case.get(key)
        if not isinstance(cur, list):
            continue
        n = 2
        while len(cur) >= 2 and time.time() - t0 < limit:
            size = max(1, len(cur) // n)
            for i in range(0, len(cur), size):
                if time.time() - t0 > limit:
                    break
                cand = cur[:i] + cur[i + size:]
                c = dict(case)
                c[key] = cand
                if fails(c):
                    cur, n = cand, max(2, n - 1)
                    case = c
                    break
            else:
                if size == 1:
                    break
                n = min(len(cur), n * 2)
    return case


def load(pid):
    return importlib.import_module("monitor.checks." + pid.lower())


def worker(pid, k, n, out, seed, tier):
    mod = load(pid)
    st = Stats()
    t0 = time.time()
    budget = mod.BUDGET[tier]
    done = 0
    viol = []
    res = {"inconclusive": []}
    from monitor.real import Timeout

    soft = getattr(mod, "SOFT", SOFT)[tier]
    for i in range(k, budget, n):
        if time.time() - t0 > soft:
            st.count("cases not started (time)", len(range(i, budget, n)))
            break
        v = None
        for attempt in range(4):
            rng = random.Random("%s:%s:%s:%s" % (seed, pid, i, attempt))
            case = mod.gen(rng, i, tier)
            if case is None:
                st.count("skipped: generator")
                continue
            try:
                v = judge(mod, case, st)
            except Timeout:
                res["inconclusive"].append("CPU watchdog on case %d" % i)
                break
            if v is not None:
                break
        if len(res["inconclusive"]) > 3:
            break
        if v is None:
            continue
        done += 1
        if v:
            small = shrink(mod, case)
            v2 = judge(mod, small, Stats()) or v
            viol.append({"case": small, "texts": v2[:12], "index": i})
            if len(viol) >= 2:
                break
        elif v is not None and len(st.samples) < 2 and done > 3:
            try:
                st.samples.append(mod.sample(case))
            except AttributeError:
                st.samples.append(case)
    finish = getattr(mod, "finish", None)
    if finish:
        finish(st)
    res.update(done=done, counters=st.counters, keys=sorted(st.keys), seen={k: sorted(v) for k, v in st.seen.items()}, samples=st.samples, violations=viol)
    with open(out, "w") as f:
        json.dump(res, f)


def known(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                out.append((key[4:] if key.startswith("key=") else key, text))
    return out


def save_replay(pid, v, seed, n):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (pid, seed, n))
    with open(path, "w") as f:
        json.dump({"property": pid, "case": v["case"], "texts": v["texts"]}, f, indent=1)
    return path


def replay(pid, path):
    mod = load(pid)
    v = judge(mod, json.load(open(path))["case"], Stats())
    for t in v or []:
        print("  " + t)
    if v:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("held on the replayed case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="checks that interpreter, rdflib and /repo can be used")
    ap.add_argument("--worker", nargs=3)
    ap.add_argument("--replay")
    ap.add_argument("--tier")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    pid = a.pid.upper()
    if a.setup:
        os.makedirs(EVID, exist_ok=True)
        return subprocess.call([PY, "-c", "import sys; sys.path.insert(0, '/repo'); import rdflib, owlrl; print('rdflib', rdflib.__version__, owlrl.__file__)"])
    if a.worker:
        return worker(pid, int(a.worker[0]), int(a.worker[1]), a.worker[2], seed, tier)
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.time()
    mod = load(pid)
    os.makedirs(EVID, exist_ok=True)
    evidence = os.path.join(EVID, pid + ".json")
    if os.path.exists(evidence):
        os.remove(evidence)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    procs = []
    for k in range(WORKERS):
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED=str((seed * 1000 + k * 7 + 1) % 4294967295),
                   PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp, PYTHONPATH="")
        out = os.path.join(tmp, "out%d.json" % k)
        err = open(os.path.join(tmp, "err%d.txt" % k), "w")
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "run.py"), pid, "--worker", str(k), str(WORKERS), out], env=env,
                                       stdout=err, stderr=err, cwd=tmp), out, err))
    bad = []
    results = []
    pending = list(range(WORKERS))
    stop = False
    while pending:
        for k in list(pending):
            p, out, err = procs[k]
            if p.poll() is not None:
                pending.remove(k)
                err.close()
                if os.path.exists(out) and p.returncode == 0:
                    r = json.load(open(out))
                    results.append(r)
                    if r["violations"]:
                        stop = True
                else:
                    bad.append("worker %d ended with %s: %s" % (k, p.returncode, open(err.name).read()[-1500:]))
        if time.time() - t0 > HARD[tier] or stop:
            for k in pending:
                procs[k][0].kill()
                procs[k][0].wait()
            if not stop:
                bad.append("workers %s exceeded the time limit" % pending)
            break
        time.sleep(0.05)
    subprocess.run(["rm", "-rf", tmp])

    seen = {}
    counters, keys, samples, viol, inc, done = {}, set(), [], [], [], 0
    for r in results:
        for n, c in r["counters"].items():
            counters[n] = max(counters.get(n, 0), c) if n.startswith("max:") else counters.get(n, 0) + c
        keys.update(r["keys"])
        for n, v in r["seen"].items():
            seen.setdefault(n, set()).update(v)
        samples += r["samples"]
        viol += r["violations"]
        inc += r["inconclusive"]
        done += r["done"]
    counters.update({n: len(v) for n, v in seen.items()})
    viol.sort(key=lambda v: v["index"])
    kn = known(pid)
    classify = getattr(mod, "classify", lambda v: None)
    new, listed = [], {}
    for v in viol:
        k = classify(v)
        if k is not None and any(k == key for key, _ in kn):
            listed[k] = listed.get(k, 0) + 1
        else:
            new.append(v)
    samples = sorted(samples, key=lambda s: len(json.dumps(s)))[:3]
    cov = {"evaluations": counters.get(getattr(mod, "EVALUATIONS", None), done), "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples,
           "observed": {k: counters[k] for k in sorted(counters)}}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(evidence, "w"), indent=1)
    for key, text in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if new:
        for n, v in enumerate(new[:3]):
            path = save_replay(pid, v, seed, n)
            for t in v["texts"][:6]:
                print("  " + t[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for b in (bad + inc)[:2]:
        print("ERROR " + b[-900:])
    low = ["%s=%s<%s" % (n, counters.get(n, 0), m) for n, m in getattr(mod, "MIN", {}).get(tier, {}).items() if counters.get(n, 0) < m]
    if low:
        print("INCONCLUSIVE: not observed often enough: " + ", ".join(low))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, done, len(keys), time.time() - t0))
    return 2 if bad or low or len(inc) > 2 or done == 0 else 0


if __name__ == "__main__":
    if __name__ == "__main__":
        sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main() or 0)
