import hashlib
import os
import pickle
import random
import resource
import select
import signal
import sys
import threading
import time
import traceback

import gen as G
import harness
import sut
from c15 import STICKY

ID = "C16"
TECHNIQUE = "controlled thread scheduler (one baton, handed over at random lines or bytecodes of the code under test) and free-running stress with a tiny switch interval, results compared with sequential ones"
QUICK = (500, 200)
THOROUGH = (12000, 1500)
RULE = ("2 to 5 threads, each parsing, rendering and dumping with its own objects (or the module function), made before or inside the thread. Scheduled: at random lines (or bytecodes) of commonmark's own code, or where no thread has been before, the running thread hands "
        "over to another; schedules are reproducible from the case. Stress: 8 threads run freely at a switch interval of 1 microsecond. Each result is compared with the one obtained alone; both in processes forked before any use of the library, so that tables filled and results kept at first use are raced for too. Non-trivial: at least 10 hand-overs.")
REQUIRE = {"schedules": 600, "hand-overs": 100000, "distinct schedules": 600, "results compared": 5000, "bytecode schedules": 100, "stress results": 1000}
ASSUMPTIONS = ["threads of CPython with its global lock: a hand-over can happen between any two bytecodes, which is what the scheduler drives"]
COVER = False
LIMIT_AS = False
CASE_CPU = 120
RECURSION = 20000
SHRINK = True

KINDS = ["html", "safe", "pos", "rst", "json", "main", "mainrst", "smart", "tree"]


def job(kind, text, objs):
    if kind == "main":
        return sut.commonmark.commonmark(text)
    if kind == "mainrst":
        return sut.commonmark.commonmark(text, "rst")
    doc = (objs["smart"] if kind == "smart" else objs["parser"]).parse(text)
    if kind in ("html", "smart"):
        return objs["html"].render(doc)
    if kind == "safe":
        return objs["safe"].render(doc)
    if kind == "pos":
        return objs["pos"].render(doc)
    if kind == "rst":
        return objs["rst"].render(doc)
    if kind == "json":
        return sut.dumpJSON(doc)
    import canon
    doc.normalize()
    return repr(canon.canon(doc, True))


def objects():
    return {"parser": sut.Parser(), "smart": sut.Parser({"smart": True}), "html": sut.HtmlRenderer(), "safe": sut.HtmlRenderer({"safe": True}), "pos": sut.HtmlRenderer({"sourcepos": True, "softbreak": " "}),
            "rst": sut.ReStructuredTextRenderer()}


class Baton:
    """Lets one thread run at a time and hands over at chosen points."""

    def __init__(self, n, seed, p, opcodes, first=0):
        self.r = random.Random(seed)
        self.p, self.opcodes = p, opcodes
        self.first = first               # chance of a hand-over where no thread has been before
        self.been = set()
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.switches = 0
        self.sched = hashlib.blake2b(digest_size=8)
        self.ticks = 0
        self.free = False
        self.me = threading.local()
        self.points = set()

    def wait(self, i):
        while not self.free:
            before = self.ticks
            if self.sem[i].acquire(timeout=5):
                return
            if self.ticks == before and not self.free:
                self.free = True              # the running thread waits for something: let all go on
                for s in self.sem:
                    s.release()

    def point(self, code, line):
        self.ticks += 1
        if self.free:
            return
        p = self.p
        if self.first:
            k = (code, line)
            if k not in self.been:
                self.been.add(k)
                p = self.first
        if self.r.random() >= p:
            return
        i = self.me.i
        others = [j for j in self.alive if j != i]
        if not others:
            return
        j = self.r.choice(sorted(others))
        self.switches += 1
        self.points.add((code, line))
        self.sched.update(b"%d %d;" % (j, line))
        self.sem[j].release()
        self.wait(i)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(sut.PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame.f_code.co_name, frame.f_lineno if event == "line" else frame.f_lasti)
        return self.local

    def run(self, i, f):
        self.me.i = i
        self.wait(i)
        sys.settrace(self.trace)
        try:
            f()
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive:
                self.sem[self.r.choice(sorted(self.alive))].release()


def crowd(r):
    """Many different labels, destinations, references and info strings."""
    n = r.choice([20, 70, 140])
    k = r.randrange(1000)
    out = []
    for f in r.sample(["[a%d]: /u%d 't%d'", "[b%d] [A%d][] ![c][a%d]", "&#%d; \\%d", "`c%d` *d%d* __e%d__", "``` i%d\nx%d\n```", "<http://h/%d>", "# h%d", "- i%d\n  - j%d", "> q%d", "\"s%d\" 'u%d' -- %d", "<b%d> <!-- %d -->", "[x](/y%d \"z%d\")"], 3):
        for i in range(n if f.startswith("[") else n // 4):
            out.append(f.replace("%d", str(k + i)))
    return r.choice(["\n", "\n\n", "\n"]).join(out)


def text(r):
    if r.random() < .1:
        return crowd(r)
    if r.random() < .6:
        return "\n\n".join(r.choice(STICKY) for _ in range(r.randint(1, 3)))
    return G.any_doc(r, sut.REPO)[:300]


def sched(r):
    n = r.randint(2, 5)
    same = text(r) if r.random() < .25 else None
    return {"threads": [[[r.choice(KINDS), same if same is not None and r.random() < .7 else text(r)] for _ in range(r.randint(1, 2))] for _ in range(n)], "seed": r.randrange(1 << 30),
            "p": r.choice([.002, .02, .05, .2, .5]), "op": r.random() < .25, "inside": r.random() < .5}


def stall(r):
    """Few hand-overs, most of them where a thread comes to a line no thread has been at before, and long waits."""
    many = r.random() < .4
    n = r.randint(2, 3 if many else 4)
    t = None if many else text(r)
    # with the same text, all threads go the same way, one a little behind the other
    return {"threads": [[[r.choice(KINDS), crowd(r) if many else t if r.random() < .6 else text(r)]] for _ in range(n)], "seed": r.randrange(1 << 30),
            "p": r.choice([.0005, .002, .005]) if many else r.choice([.0005, .005]), "first": r.choice([0, .03, .1, .3]), "op": r.random() < .15, "inside": r.random() < .5}


def stress(r):
    return {"threads": [[[r.choice(KINDS), text(r)] for _ in range(12)] for _ in range(8)], "free": True, "inside": r.random() < .5}


def gens(c):
    return [(12, "scheduled", sched), (12, "stalled", stall), (1, "stress", stress)]


def alone(case):
    """What each thread's jobs give one after the other."""
    want = []
    for jobs in case["threads"]:
        o = objects()
        want.append([job(k, t, o) for k, t in jobs])
    return want


def together(case):
    threads = case["threads"]
    got = [[] for _ in threads]
    errors = []
    made = [None if case.get("inside") else objects() for _ in threads]
    baton = None if case.get("free") else Baton(len(threads), case["seed"], case["p"], case["op"], case.get("first", 0))

    def body(i):
        try:
            o = made[i] or objects()
            for k, t in threads[i]:
                got[i].append(job(k, t, o))
        except BaseException as e:
            errors.append((i, "".join(traceback.format_exception_only(type(e), e)).strip()[:300], harness.blame(e)))

    def main(i):
        if baton is None:
            body(i)
        else:
            baton.run(i, lambda: body(i))
    threading.stack_size(64 << 20)
    if baton is None:
        sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(threads))]
    for t in ts:
        t.start()
    if baton:
        baton.sem[0].release()
    for t in ts:
        t.join()
    return got, errors, baton and (baton.switches, baton.free, baton.sched.digest(), baton.points)


def forked(f, case):
    """f(case) in a process that has not used the library before; None after too long."""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            resource.setrlimit(resource.RLIMIT_CPU, (CASE_CPU, CASE_CPU + 5))
            try:
                r = ("ok", f(case))
            except BaseException as e:
                r = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-1500:], "".join(traceback.format_exception_only(type(e), e)).strip()[:300], harness.blame(e))
            data = pickle.dumps(r)
            while data:
                data = data[os.write(b, data):]
        finally:
            os._exit(0)
    os.close(b)
    data = []
    end = time.time() + 4 * CASE_CPU
    try:
        while True:
            if not select.select([a], [], [], max(0, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                break
            x = os.read(a, 1 << 20)
            if not x:
                break
            data.append(x)
    finally:
        os.close(a)
        os.waitpid(pid, 0)
    return pickle.loads(b"".join(data)) if data else None


def check(case, c):
    threads = case["threads"]
    # neither process has anything cached or initialised by earlier use
    w, g = forked(alone, case), forked(together, case)
    if w is None:
        c.skip("no result alone")
    if w[0] != "ok":
        if w[3]:
            return "alone, raised " + w[2]
        raise RuntimeError(w[1])
    if g is None:
        return "no result of the threads within %d s of CPU time" % CASE_CPU
    if g[0] != "ok":
        if g[3]:
            return "raised " + g[2]
        raise RuntimeError(g[1])
    want, (got, errors, sched) = w[1], g[1]
    for i, e, own in errors:
        if own:
            return "thread %d raised %s" % (i, e)
        raise RuntimeError("thread %d: %s" % (i, e))
    for i, jobs in enumerate(threads):
        for (k, t), a, b in zip(jobs, got[i], want[i]):
            c.count("results compared" if sched else "stress results")
            if a != b:
                j = 0
                while j < min(len(a), len(b)) and a[j] == b[j]:
                    j += 1
                return "thread %d: %s of %r gives ...%r, alone ...%r" % (i, k, t[:200], a[max(0, j - 30):j + 80], b[max(0, j - 30):j + 80])
    if sched:
        switches, free, d, points = sched
        c.count("schedules")
        c.count("hand-overs", switches)
        if case["op"]:
            c.count("bytecode schedules")
        if free:
            c.count("schedules released")
        seen = c.state.setdefault("seen", set())
        if d not in seen:
            seen.add(d)
            c.count("distinct schedules")
        pts = c.state.setdefault("points", set())
        new = points - pts
        pts |= new
        c.count("distinct hand-over points (summed over workers)", len(new))
        c.trivial = switches < 10
