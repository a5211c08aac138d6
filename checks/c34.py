import random
import sys

import gen as G
import sut
from c15 import STICKY
from c15 import full as _full

ID = "C34"
TECHNIQUE = "fault injection: exceptions thrown at chosen lines and bytecodes of the running library, then a differential monitor over the objects that were in use"
QUICK = (500, 60)
THOROUGH = (100000, 1200)
RULE = ("Histories over one parser of each kind and one renderer of each kind. Some steps are abandoned: at a chosen line, call, return or bytecode of the library an exception is thrown into it (KeyboardInterrupt, MemoryError, RecursionError, a time-out's, an "
        "ordinary one), or an override in a renderer's subclass or a value in a hand-made tree raises. Every step that completes, with these objects or fresh ones, must give what it gave before anything was abandoned; documents parsed earlier, the one being "
        "rendered included, must be unchanged. Enumerated: every point of the handling of small documents (a twelfth of them on the quick tier). Non-trivial: at least one step was abandoned.")
REQUIRE = {"steps abandoned": 12000, "abandoned at a bytecode": 1500, "abandoned by a subclass": 300, "abandoned by a value": 300, "results compared": 40000, "reused after being abandoned": 12000, "distinct points": 900, "trees unchanged": 12000}
ASSUMPTIONS = ["a tree being edited when the exception comes is not looked at again"]
RECURSION = 20000
CASE_CPU = 20


class Timeout(Exception):
    pass


class Abort(BaseException):
    pass


EXC = [KeyboardInterrupt, MemoryError, Timeout, Abort, RecursionError, OSError, ZeroDivisionError]
ROPTS = [{}, {"safe": True}, {"sourcepos": True}, {"softbreak": " "}]
OPS = ["parse", "smart", "html0", "html1", "html2", "html3", "rst", "json", "ast", "main", "mainrst"]
SMALL = ["![a ![b *c*](d) `e`](f \"t\") g", "- a\n\n  > b\n  1. c\n- # d #\n", "[r]: /u 't'\n\n[r] **a *b** c* <d> &amp; \\* `e`  \nf", "```x y\na\n\n\tb\n```\n\n    c\n\n<div>\nd\n\ne\n===\n", "> - a\nb\n> - ```\n>   c\n\n***\n[x](<y> 'z')\\\nw", "* ![a](b)\n\n  c\n* - d\n1. e"]


class Endless(Exception):
    pass


def full(doc, text):
    n, todo = 0, [doc]
    while todo:
        x = todo.pop()
        n += 1
        if n > 100 + 20 * len(text):
            raise Endless("a tree of more than %d nodes" % n)
        for y in (x.first_child, x.nxt):
            if y is not None and not (x is doc and y is x.nxt):
                todo.append(y)
    return _full(doc)


def run(op, text, o, doc=None):
    """The step's result; with doc, what is left after its parsing."""
    if op == "main":
        return sut.commonmark.commonmark(text)
    if op == "mainrst":
        return sut.commonmark.commonmark(text, "rst")
    if op in ("parse", "smart"):
        return full(o[op].parse(text), text)
    if doc is None:
        doc = o["parse"].parse(text)
        full(doc, text)
    if op == "json":
        return sut.dumpJSON(doc)
    if op == "ast":
        return sut.printed(sut.dumpAST, doc)[0]
    return o[op].render(doc)


def objects():
    o = {"parse": sut.Parser(), "smart": sut.Parser({"smart": True}), "rst": sut.ReStructuredTextRenderer()}
    for i, r in enumerate(ROPTS):
        o["html%d" % i] = sut.HtmlRenderer(dict(r))
    return o


class Injector:
    """Counts the events of the library's frames and throws at the k-th."""

    def __init__(self, k=None, exc=None, opcodes=False):
        self.k, self.exc, self.opcodes, self.n, self.at = k, exc, opcodes, 0, None
        self.prefix = sut.PKG

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.hit(frame, event)
        return self.local

    def local(self, frame, event, arg):
        if event != "exception":
            self.hit(frame, event)
        return self.local

    def hit(self, frame, event):
        self.n += 1
        if self.n == self.k:
            self.at = (frame.f_code.co_filename[len(self.prefix):], frame.f_lineno, event)
            raise self.exc("thrown in by the monitor")

    def __call__(self, f, *a):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return f(*a)
        finally:
            sys.settrace(old)


def raising(cls, name, exc):
    """A subclass whose method fails at its nth call, until disarmed."""
    class Sub(cls):
        armed = 0

        def _hook(self, *a, **k):
            if self.armed:
                self.armed -= 1
                if self.armed == 0:
                    raise exc("raised by a subclass")
            return getattr(super(Sub, self), name)(*a, **k)
    setattr(Sub, name, Sub._hook)
    return Sub


def bad_tree(r):
    """A tree with a value no renderer can write, below others."""
    N = sut.Node
    doc = N("document", [[1, 1], [1, 1]])
    at = doc
    for _ in range(r.randint(1, 4)):
        t = r.choice(["block_quote", "list", "image", "emph", "link", "heading", "item"])
        n = N(t, [[1, 1], [1, 1]])
        n.list_data = {"type": "bullet", "tight": True, "start": None}
        n.destination, n.level = "u", 1
        if t == "item":
            up = N("list", [[1, 1], [1, 1]])
            up.list_data = n.list_data
            at.append_child(up)
            up.append_child(n)
        else:
            at.append_child(n)
        at = n
    n = N("text", None)
    n.literal = "x"
    at.append_child(n)
    n = N("text", None)
    n.literal = r.choice([5, 2.5, ("a",)])
    at.append_child(n)
    return doc


def begin(c):
    c.state["points"] = set()
    o = objects()
    c.state["first"] = [(op, t, run(op, t, o)) for t in SMALL for op in OPS]


def same(c, op, text, o, want, what):
    c.count("results compared")
    try:
        got = run(op, text, o)
    except Exception as e:
        return "%s, %s of %r raised %r" % (what, op, text, e)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        return "%s, %s of %r gave ...%r instead of ...%r" % (what, op, text[:200], got[max(0, i - 30):i + 60], want[max(0, i - 30):i + 60])
    return None


def check(case, c):
    try:
        return check_(case, c)
    except Endless as e:
        return "with objects used before: %s" % e


def check_(case, c):
    seed, texts, point = case[0], case[1], case[2]
    r = random.Random(seed)
    texts = [t for t in texts if len(t) < 1500][:6]
    if not texts:
        c.skip("nothing to do")
    fresh = objects()
    exp = {}

    def want(op, t):
        if (op, t) not in exp:
            exp[op, t] = run(op, t, fresh)
        return exp[op, t]
    o = objects()
    abandoned = 0
    kept = []
    steps = 1 if point is not None else r.randint(2, 6)
    for step in range(steps):
        t = r.choice(texts)
        op = r.choice(OPS)
        kind = r.random()
        exc = r.choice(EXC)
        if point is not None:
            t, op, kind = texts[0], point[0], 0
        # the objects in use, on the same document and another, and everything else
        again = op if r.random() < .7 else r.choice([x for x in OPS if x[:4] == op[:4]])
        after = [(again, r.choice(texts)), (op, t)] + [(x, r.choice(texts)) for x in r.sample(OPS, 3 if point is None else 1)]
        for x in after:
            want(*x)
        doc = None
        what = None
        if op not in ("parse", "smart", "main", "mainrst"):
            doc = o["parse"].parse(t)
            before = full(doc, t)
            kept.append((doc, before, t))
        if kind < .8:
            ops = point is None and r.random() < .3
            if point is None:
                count = Injector(None, None, ops)
                count(run, op, t, fresh if doc is None else o, doc)
                if not count.n:
                    continue
                k = r.randint(1, count.n)
            else:
                k = point[1]
            inj = Injector(k, exc, ops)
            try:
                inj(run, op, t, o, doc)
            except exc:
                what = "%s of %r abandoned by %s at %s:%s (%s)" % (op, t[:200], exc.__name__, inj.at[0], inj.at[1], inj.at[2])
                c.state["points"].add(inj.at[:2])
                if ops:
                    c.count("abandoned at a bytecode")
            except BaseException as e:
                if inj.at is None:
                    raise
                return "%s of %r: %s at %s:%s came out as %r" % (op, t[:200], exc.__name__, inj.at[0], inj.at[1], e)
        elif kind < .9 and op[:4] == "html" or op == "rst" and kind < .9:
            name = r.choice(["text", "image", "softbreak", "escape", "out", "lit", "cr", "tag", "code", "list", "item", "link"]) if op != "rst" else r.choice(["text", "image", "out", "lit", "cr", "code", "code_block", "item", "list", "heading"])
            cls = raising(sut.HtmlRenderer if op != "rst" else sut.ReStructuredTextRenderer, name, exc)
            o[op] = cls(dict(ROPTS[int(op[4:])])) if op != "rst" else cls()
            o[op].armed = r.randint(1, 4)
            try:
                run(op, t, o, doc)
            except exc:
                what = "%s of %r abandoned in a subclass's %s" % (op, t[:200], name)
                c.count("abandoned by a subclass")
            o[op].armed = 0
        elif op[:4] == "html" or op == "rst":
            bad = bad_tree(r)
            try:
                o[op].render(bad)
            except Exception:
                what = "%s of a tree with a number for text abandoned" % op
                c.count("abandoned by a value")
        if what is None:
            # it went through
            m = same(c, op, t, o, want(op, t), "after %d abandoned steps" % abandoned)
            if m:
                return m
            continue
        abandoned += 1
        c.count("steps abandoned")
        for op2, t2 in after:
            c.count("reused after being abandoned")
            m = same(c, op2, t2, o, want(op2, t2), what)
            if m:
                return m
        op2, t2, w = r.choice(c.state["first"])
        m = same(c, op2, t2, objects(), w, what + ", with fresh objects")
        if m:
            return m
        for d, b, t2 in kept[-3:]:
            c.count("trees unchanged")
            if full(d, t2) != b:
                return "%s: the tree of %r changed" % (what, t2[:200])
    c.trivial = not abandoned


def enumerate_(c):
    o = objects()
    stride = 1 if c.thorough else 12
    i = c.seed % stride
    for t in SMALL:
        for op in OPS:
            doc = None if op in ("parse", "smart", "main", "mainrst") else o["parse"].parse(t)
            n = Injector()
            n(run, op, t, o, doc)
            for k in range(1, n.n + 1):
                i += 1
                if i % stride == 0:
                    yield [i, [t, SMALL[i % len(SMALL)], "![a](b)\n\n- c\n"], [op, k]]


def end(c):
    c.count("distinct points", len(c.state["points"]))


def case_(r, f):
    return [r.randrange(1 << 30), [f(r) for _ in range(r.randint(1, 3))] + [r.choice(STICKY) for _ in range(r.randint(0, 2))] + [r.choice(SMALL)], None]


def gens(c):
    def g(f):
        return lambda r: case_(r, f)
    return [(3, "document", g(G.document)), (2, "block_soup", g(G.block_soup)), (3, "inline_soup", g(G.inline_soup)), (1, "spec", g(G.spec_mutant)), (2, "sticky", g(lambda r: r.choice(STICKY)))]
