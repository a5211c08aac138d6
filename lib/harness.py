"""Runs one check: forked workers generate cases from (seed, worker, index), a
monitor judges every execution, violations are shrunk and written as replay files.

A check module (checks/cNN.py) defines
  ID, TECHNIQUE, RULE, LEVEL_NOTE
  gens(c)         -> list of (weight, name, fn(random) -> case)     (optional)
  enumerate_(c)   -> iterator of cases, shared out among the workers (optional)
  check(case, c)  -> None if the monitors saw no violation, else a message
  BIG             -> text -> case: also judge the documents of gen.bigs      (optional)
  REQUIRE         -> {counter: minimum}; fewer is inconclusive (exit 2)
  QUICK, THOROUGH -> (random cases per worker, CPU-time cap of a worker in seconds)
  begin(c), end(c)-> set-up and extra verdicts in a worker           (optional)
  guided = True   -> string cases that reach new branches are kept and mutated
Cases are JSON values.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.append(os.path.join(VERIF, "checks"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 8)
CASE_CPU = 60.0            # CPU seconds one case may take


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case says nothing about the property."""


def on_timer(signum, frame):
    raise CaseTimeout()


class Ctx:
    """What a check sees of its worker."""

    def __init__(self, tier, seed, worker, workers):
        self.tier, self.seed, self.worker, self.workers = tier, seed, worker, workers
        self.counters = collections.Counter()
        self.trivial = False
        self.quiet = False
        self.state = {}

    def count(self, k, n=1):
        if not self.quiet:
            self.counters[k] += n

    def skip(self, why):
        self.count("skipped: " + why)
        raise Skip(why)

    @property
    def thorough(self):
        return self.tier == "thorough"


def load(cid):
    import sut  # noqa: F401
    return importlib.import_module(cid.lower())


def blame(e):
    """True if the exception arose inside the code under test."""
    import sut
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if sut.in_repo(last):
            inner = True
        elif last.startswith(VERIF):
            inner = False
        tb = tb.tb_next
    return inner if last else False


def judge(mod, case, c):
    """(message or None); raises on harness errors."""
    c.trivial = False
    old = signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU", CASE_CPU))
    try:
        return mod.check(case, c)
    except Skip:
        c.trivial = True
        return None
    except CaseTimeout:
        return "no result within %d s of CPU time" % getattr(mod, "CASE_CPU", CASE_CPU)
    except (Exception, RecursionError, SystemExit) as e:
        if blame(e):
            s = traceback.format_exception_only(type(e), e)[-1].strip()
            return "raised " + s[:300]
        if isinstance(e, RecursionError):
            c.count("skipped: nested too deeply for the monitor")
            c.trivial = True
            return None
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# ------------------------------------------------------------------ branch coverage (steers the workload, reported as evidence)
class Cover:
    def __init__(self):
        self.lines, self.arcs, self.new, self.on = set(), {}, False, False

    def start(self, branches=True):
        import sut
        if not hasattr(sys, "monitoring"):
            return
        M = sys.monitoring
        self.M = M
        try:
            M.use_tool_id(M.COVERAGE_ID, "verif")
        except ValueError:
            return
        prefix = sut.PKG + os.sep

        def line(code, ln):
            if code.co_filename.startswith(prefix):
                self.lines.add((code.co_filename[len(prefix):], ln))
                self.new = True
            return M.DISABLE

        def branch(code, off, dest):
            if not code.co_filename.startswith(prefix):
                return M.DISABLE
            k = (code, off)
            s = self.arcs.get(k)
            if s is None:
                self.arcs[k] = dest
                self.new = True
            elif s != dest:
                self.arcs[k] = -1
                self.new = True
                return M.DISABLE
            elif s == -1:
                return M.DISABLE
        M.register_callback(M.COVERAGE_ID, M.events.LINE, line)
        M.register_callback(M.COVERAGE_ID, M.events.BRANCH, branch)
        M.set_events(M.COVERAGE_ID, M.events.LINE | (M.events.BRANCH if branches else 0))
        self.on = True

    def stop(self):
        if self.on:
            self.M.set_events(self.M.COVERAGE_ID, 0)
            self.M.free_tool_id(self.M.COVERAGE_ID)
            self.on = False

    def only_lines(self):
        """Stop paying for one-way branches once the workload has warmed up."""
        if self.on:
            self.M.set_events(self.M.COVERAGE_ID, self.M.events.LINE)


# ------------------------------------------------------------------ worker
def digest(case):
    s = case if isinstance(case, str) else json.dumps(case, sort_keys=True)
    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).digest()


def worker(mod, tier, seed, w, out, stop, deadline):
    res = {"evaluations": 0, "violations": [], "counters": {}, "samples": [], "error": None, "by_gen": {}, "capped": False}
    seen = set()
    c = Ctx(tier, seed, w, WORKERS)
    cov = Cover()
    kept = 0
    try:
        if getattr(mod, "LIMIT_AS", True):
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        sys.setrecursionlimit(getattr(mod, "RECURSION", 20000))
        count, cap = mod.THOROUGH if tier == "thorough" else mod.QUICK
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        count, cap = int(count * scale), cap * max(1, scale)
        t0 = time.process_time()
        w0 = time.time()
        if getattr(mod, "COVER", True):
            cov.start(getattr(mod, "guided", False))
        if hasattr(mod, "begin"):
            mod.begin(c)

        def over():
            u = resource.getrusage(resource.RUSAGE_CHILDREN)
            return time.process_time() - t0 + u.ru_utime + u.ru_stime > cap or time.time() - w0 > 3 * cap + 30 or time.time() > deadline or os.path.exists(stop)

        def run(case, gen):
            res["evaluations"] += 1
            msg = judge(mod, case, c)
            if msg and msg.startswith("no result") and cov.on:
                cov.stop()                     # the coverage callbacks may have cost the time
                msg = judge(mod, case, c)
            res["by_gen"][gen] = res["by_gen"].get(gen, 0) + 1
            if not c.trivial:
                seen.add(digest(case))
                if len(res["samples"]) < 2 and res["evaluations"] > 20:
                    res["samples"].append(case)
            if msg:
                res["violations"].append({"case": case, "message": msg, "gen": gen})
                if len(res["violations"]) >= 3:
                    open(stop, "w").close()
                return False
            return True
        pool = []
        ok = True
        if hasattr(mod, "enumerate_"):
            n = 0
            for i, case in enumerate(mod.enumerate_(c)):
                if i % WORKERS != w or (scale < 1 and i * 0x9e3779b1 % 4294967296 > scale * 4294967296):
                    continue
                n += 1
                if not run(case, "enumerated") and len(res["violations"]) >= 3:
                    ok = False
                    break
                if n % 64 == 0 and over():
                    ok = False
                    res["capped"] = True
                    break
        if ok and hasattr(mod, "BIG"):
            import gen as G
            sizes = getattr(mod, "BIG_SIZES", ([70, 300, 1100], [70, 300, 1100, 4200]))[tier == "thorough"]
            for i, text in enumerate(G.bigs(sizes)):
                if i % WORKERS != w or (scale < 1 and i * 0x9e3779b1 % 4294967296 > scale * 4294967296):
                    continue
                case = mod.BIG(text)
                if case is not None and not run(case, "repeated") and len(res["violations"]) >= 3:
                    ok = False
                    break
                if i % 8 == 0 and over():
                    ok = False
                    res["capped"] = True
                    break
        if ok and hasattr(mod, "gens"):
            gs = mod.gens(c)
            names = [g[1] for g in gs]
            cum, tot = [], 0
            for g in gs:
                tot += g[0]
                cum.append(tot)
            guided = getattr(mod, "guided", False)
            cov.new = False
            import gen as G
            for k in range(count):
                r = random.Random("%s/%d/%d/%d" % (mod.ID, seed, w, k))
                if guided and pool and r.random() < .12:
                    name = "mutated-kept"
                    case = G.mutate(r, r.choice(pool))
                    if r.random() < .3:
                        case = G.splice(r, case, r.choice(pool))
                else:
                    x = r.random() * tot
                    j = 0
                    while cum[j] <= x:
                        j += 1
                    name = names[j]
                    case = gs[j][2](r)
                if not run(case, name) and len(res["violations"]) >= 3:
                    break
                if cov.new:
                    cov.new = False
                    if guided and isinstance(case, str) and len(case) < 3000:
                        pool.append(case)
                        kept += 1
                if k == count // 3:
                    cov.only_lines()
                if k % 16 == 0 and over():
                    res["capped"] = k + 1 < count
                    break
        if hasattr(mod, "end") and not res["violations"]:
            msg = mod.end(c)
            if msg:
                res["violations"].append({"case": {"end": True}, "message": msg, "gen": "end"})
    except BaseException as e:                      # harness error
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])[-3000:]
    finally:
        cov.stop()
        if hasattr(mod, "finish"):
            try:
                mod.finish(c)
            except Exception:
                pass
    res["counters"] = dict(c.counters)
    res["lines"] = sorted(cov.lines)
    res["kept"] = kept
    with open(out + ".seen", "wb") as f:
        f.write(b"".join(seen))
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ shrinking
def smaller(x):
    """Smaller variants of a JSON value."""
    if isinstance(x, str):
        n = len(x)
        size = max(1, n // 2)
        while size:
            for i in range(0, n, size):
                yield x[:i] + x[i + size:]
            size //= 2
    elif isinstance(x, list):
        n = len(x)
        size = max(1, n // 2)
        while size and n:
            for i in range(0, n, size):
                yield x[:i] + x[i + size:]
            size //= 2
        for i in range(n):
            for y in smaller(x[i]):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            if isinstance(x[k], (str, list, dict)):
                for y in smaller(x[k]):
                    z = dict(x)
                    z[k] = y
                    yield z


def shrink(mod, case, c, budget=20.0):
    if not getattr(mod, "SHRINK", True):
        return case, judge(mod, case, c)
    c.quiet = True
    t = time.time()
    msg = judge(mod, case, c)
    progress = True
    while progress and time.time() - t < budget:
        progress = False
        for y in getattr(mod, "smaller", smaller)(case):
            if time.time() - t > budget:
                break
            try:
                m = judge(mod, y, c)
            except Exception:
                continue
            if m:
                case, msg, progress = y, m, True
                break
    return case, msg


# ------------------------------------------------------------------ known findings
def known_findings(cid):
    """Lines 'finding: property=<id> key=<key> <text>' of /verif/known_findings.txt."""
    res = {}
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
            p = ln.split(None, 3)
            if len(p) >= 4 and p[0] == "finding:" and p[1] == "property=" + cid and p[2].startswith("key="):
                res[p[2][4:]] = p[3].strip()
    except OSError:
        pass
    return res


# ------------------------------------------------------------------ main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cid = a.id.upper()
    t0 = time.time()
    try:
        sys.stdout.reconfigure(errors="backslashreplace")
        sys.stderr.reconfigure(errors="backslashreplace")
    except AttributeError:
        pass
    mod = load(cid)
    if a.replay:
        rep = json.load(open(a.replay, encoding="utf-8"))
        sys.setrecursionlimit(getattr(mod, "RECURSION", 20000))
        c = Ctx(rep.get("tier", tier), rep.get("seed", seed), 0, WORKERS)
        if hasattr(mod, "begin"):
            mod.begin(c)
        msg = judge(mod, rep["case"], c)
        if hasattr(mod, "finish"):
            mod.finish(c)
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (cid, a.replay))
            return 1
        print("no violation")
        return 0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % cid)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    sys.stdout.flush()
    try:
        return drive(mod, cid, tier, seed, tmp, evdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(mod, cid, tier, seed, tmp, evdir, t0):
    stop = os.path.join(tmp, "stop")
    hard = 600 if tier == "quick" else 3 * 3600
    pids = {}
    for w in range(WORKERS):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                worker(mod, tier, seed, w, os.path.join(tmp, "w%d" % w), stop, t0 + hard)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = w
    dead = []
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(.02)
            if time.time() > t0 + hard + 120:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
            continue
        if pid in pids:
            w = pids.pop(pid)
            if st != 0:
                dead.append((w, st))
    seen, counters, by_gen = set(), collections.Counter(), collections.Counter()
    evals, viol, errors, samples, lines, capped, kept = 0, [], [], [], set(), 0, 0
    for w in range(WORKERS):
        p = os.path.join(tmp, "w%d" % w)
        if not os.path.exists(p):
            errors.append("worker %d left no result" % w)
            continue
        r = json.load(open(p))
        evals += r["evaluations"]
        viol += r["violations"]
        samples += r["samples"]
        capped += bool(r["capped"])
        kept += r.get("kept", 0)
        if r["error"]:
            errors.append(r["error"])
        counters.update(r["counters"])
        by_gen.update(r["by_gen"])
        lines |= {tuple(x) for x in r["lines"]}
        b = open(p + ".seen", "rb").read()
        seen.update(b[i:i + 8] for i in range(0, len(b), 8))
    for w, st in dead:
        errors.append("worker %d ended with status %d" % (w, st))
    # violations: shrink the first of each kind, leave out listed findings
    known = known_findings(cid)
    hit, fresh = {}, []
    kf = getattr(mod, "finding_key", lambda case, msg: None)
    for v in viol:
        k = kf(v["case"], v["message"])
        if k in known:
            hit[k] = v
        else:
            fresh.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (cid, known[k]))
    code = 0
    if fresh:
        v = fresh[0]
        for x in fresh[:8]:
            if len(json.dumps(x["case"])) < len(json.dumps(v["case"])):
                v = x
        case, msg = v["case"], v["message"]
        if case != {"end": True} and not msg.startswith("no result"):
            try:
                sys.setrecursionlimit(getattr(mod, "RECURSION", 20000))
                c = Ctx(tier, seed, 0, WORKERS)
                if hasattr(mod, "begin"):
                    mod.begin(c)
                case2, msg2 = shrink(mod, case, c)
                if msg2:
                    case, msg = case2, msg2
                if hasattr(mod, "finish"):
                    mod.finish(c)
            except BaseException as e:
                print("(not shrunk: %s)" % repr(e)[:200])
        path = os.path.join("evidence", "replay", "%s.json" % cid)
        with open(os.path.join(evdir, "replay", "%s.json" % cid), "w") as f:
            json.dump({"property": cid, "tier": tier, "seed": seed, "case": case, "message": msg, "found_by": v["gen"],
                       "original": v["case"]}, f, indent=1)
        print("case: %s" % json.dumps(case)[:600])
        print("observed: %s" % msg[:1500])
        print("VIOLATION property=%s replay=%s" % (cid, path))
        code = 1
    import sut
    hitlines = collections.Counter(f for f, _ in lines)
    cov = {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": mod.RULE,
           "samples": samples[:6] or ["(none)"], "observed": dict(sorted(counters.items())), "cases_by_generator": dict(sorted(by_gen.items())),
           "lines_of_code_under_test_executed": dict(sorted(hitlines.items())), "cases_kept_for_new_branches": kept,
           "workers_stopped_by_time_cap": capped, "workers": WORKERS}
    if getattr(mod, "EXHAUSTIVE_NOTE", None):
        cov["enumerated"] = mod.EXHAUSTIVE_NOTE
    missing = ["%s: %d < %d" % (k, counters.get(k, 0), n) for k, n in getattr(mod, "REQUIRE", {}).items() if counters.get(k, 0) < n]
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if errors:
        ev["coverage"]["harness_errors"] = errors[:3]
    tmpf = os.path.join(evdir, ".%s.tmp" % cid)
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(evdir, "%s.json" % cid))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
        cid, tier, seed, evals, len(seen), len(fresh), time.time() - t0))
    if code == 0:
        if errors:
            print("INCONCLUSIVE: harness error:\n" + errors[0])
            return 2
        if missing:
            print("INCONCLUSIVE: monitors saw too little: " + "; ".join(missing))
            return 2
    return code
