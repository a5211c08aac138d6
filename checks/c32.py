import contextlib
import gc
import io
import json
import random
import sys
import threading
import time
import tracemalloc

import c25
import gen as G
import sut

ID = "C32"
TECHNIQUE = "memory monitor: traced peak of parsing and rendering over families of growing documents, and the interpreter's block count over long histories of distinct documents"
QUICK = (150, 70)
THOROUGH = (6000, 1200)
COVER = False
CASE_CPU = 300
RULE = ("Peaks: families of documents (the fixed and random families of C25) at doubling sizes, parsed and rendered under tracemalloc: the peak must not grow faster than the input does (exponent 1.4 over two doublings; 2.4 for the indented outputs, "
        "whose size may be quadratic). Histories: hundreds of distinct small documents through the same or fresh parsers, renderers, dumps and threads, results dropped; after collection the number of allocated blocks must settle; a growth is confirmed over "
        "thousands of further documents before it counts, and a large document must be released once a small one follows. Non-trivial: every case.")
REQUIRE = {"families": 400, "peaks": 1200, "histories": 300, "documents in histories": 100000, "large documents released": 60}
ASSUMPTIONS = ["bounded caches of up to some ten thousand entries are no leak", "memory within C libraries outside Python's allocators is not seen"]
SHRINK = False


# ------------------------------------------------------------------ peaks
def work(text, fmt):
    if fmt in ("json", "ast"):
        doc = sut.Parser().parse(text)
        if fmt == "json":
            sut.dumpJSON(doc)
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                sut.dumpAST(doc)
    else:
        c25.work(text, fmt)


def peak(text, fmt):
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        work(text, fmt)
        return tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()


def peaks(f, c):
    c.count("families")
    fmt = f["fmt"]
    limit = 1.4 if fmt in ("html", "smart") else 2.4
    u = c25.unit(f)
    s = []
    L = 500
    while L <= (32000 if c.thorough else 4000):
        text = c25.build(f, max(2, int(L / u)))
        t = time.process_time()
        try:
            m = peak(text, fmt)
        except RecursionError:
            if fmt not in ("json", "ast"):
                raise
            break
        c.count("peaks")
        s.append((len(text), m))
        if time.process_time() - t > (4 if c.thorough else .5) or m > 5e7:
            break
        L *= 2
    if len(s) >= 3:
        e = [c25.exponent(s[i][1], s[i + 1][1], s[i][0], s[i + 1][0]) for i in range(len(s) - 1)]
        if min(e[-2:]) > limit and s[-1][1] > 300000:
            return "%s: peak memory grows faster than n^%s: %s (length, bytes)" % (fmt, limit, s)
    if fmt in ("html", "smart") and s and s[-1][1] > 8000 * s[-1][0] and s[-1][1] > 8000000:
        return "%s: %d bytes for %d characters" % (fmt, s[-1][1], s[-1][0])


# ------------------------------------------------------------------ histories
TEMPLATES = ["[%w]: /%w '%w'\n\n[%w] [a][%W] ![%w]", "<http://%w/%n>", "&#%n; &%w; &#x%n;", "`%w`", "```%w\n%w\n```", "<%w a='%w'>%w</%w>", "# %w", "- %w\n  - %n", "%n. %w", "*%w* **%w**", "[%w](/%w '%w')", "![%w](%w)", "<%w@%w.de>",
             "'%w' \"%w\" -- ...", "[ẞ%w]: /%w\n\n[ss%w]", "[x](javascript:%w) ![x](data:image/png;%w)", "> %w\n%w", "%w\n===", "    %w", "<div id=%w>\n%w", "\\%w\\*", "[x](/\u00e9%w%20%w)", "%w  \n%w\\\n%w", "<!-- %w -->", "a%w" * 30, "*" * 3 + "%w" + "*" * 3,
             "[" * 5 + "%w" + "]" * 5, "", "\u00a0%w\u2003%w", "`" * 3 + "%w", "<?%w?>", "\x00%w", "%w_%w_%w*%w*", "~~~ %w %n\n\n%w", "&%w", "[%w", "%w]", "[%w][", "![%w", "<%w", "[a](<%w", "[a](%w (", "``%w`"]
DECO = ["\\*", "&lt;", "é", "&x;", "\"", "%20", "--...", "*_`"]
MODES = ["fresh", "parser", "both", "main", "options", "dumps", "edited", "walked", "threads", "failing"]


def word(r):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(9))


def small(case, r):
    def one(t):
        w = word(r)
        return t.replace("%W", w.upper() + case.get("deco", "")).replace("%w", w + case.get("deco", "")).replace("%n", str(r.randrange(1, 999999)))
    return "\n\n".join(one(t) for t in case["templates"])


class Step:
    def __init__(self, case):
        self.mode, self.case = case["mode"], case
        self.p = sut.Parser({"smart": case["smart"]})
        self.h = sut.HtmlRenderer({"safe": case["safe"], "sourcepos": case["pos"]})
        self.t = sut.ReStructuredTextRenderer()

    def one(self, text, i):
        m = self.mode
        if m == "threads":
            th = threading.Thread(target=self.plain, args=(text, i))
            th.start()
            th.join()
        elif m == "both":
            self.h.render(self.p.parse(text))
            self.t.render(self.p.parse(text))
        elif m == "parser":
            sut.HtmlRenderer({"safe": self.case["safe"]}).render(self.p.parse(text))
        elif m == "main":
            for f in ("html", "rst", "json"):
                sut.commonmark.commonmark(text, f)
        elif m == "options":
            o = {"smart": bool(i % 2), "safe": bool(i % 3), "softbreak": "<br %d>" % i, "unknown%d" % i: i}
            sut.HtmlRenderer(o).render(sut.Parser(o).parse(text))
        elif m == "dumps":
            d = self.p.parse(text)
            sut.dumpJSON(d)
            with contextlib.redirect_stdout(io.StringIO()):
                sut.dumpAST(d)
        elif m == "edited":
            d = self.p.parse(text)
            n = d.first_child
            while n:
                nxt = n.nxt
                if n.t == "paragraph":
                    n.normalize()
                    x = sut.Node("html_block", None)
                    x.literal = text[:5]
                    n.insert_before(x)
                    n.unlink()
                n = nxt
            self.h.render(d)
        elif m == "walked":
            d = self.p.parse(text)
            w = d.walker()
            for _ in range(3):
                w.nxt()
            w = d.walker()
            e = w.nxt()
            while e:
                e["node"].is_container()
                e = w.nxt()
            d.first_child and d.first_child.unlink()
        elif m == "failing":
            try:
                self.p.parse(None if i % 2 else 7)
            except TypeError:
                pass
            n = sut.Node("strange%d" % i, None)
            d = self.p.parse(text)
            d.append_child(n)
            try:
                self.h.render(d)
            except Exception:
                pass
        else:
            self.plain(text, i)

    def plain(self, text, i):
        d = sut.Parser({"smart": self.case["smart"]}).parse(text)
        sut.HtmlRenderer({"safe": self.case["safe"], "sourcepos": self.case["pos"]}).render(d)
        if i % 3 == 0:
            sut.ReStructuredTextRenderer().render(d)

    def settle(self):
        """The parser and renderers hold the same small document whenever we look."""
        for _ in range(2):
            self.one("a", 0)
            self.h.render(self.p.parse("a"))
            self.t.render(self.p.parse("a"))
        gc.collect()
        return sys.getallocatedblocks()


def large(case, r, c):
    s = Step(case)
    f = dict(case["family"])
    text = c25.build(f, int((1500 if case["mode"] in ("main", "dumps") else 6000) / c25.unit(f)) or 2)
    s.one("a", 0)
    s.one(c25.build(f, 3), 0)
    base = s.settle()
    t = time.process_time()
    s.one(text, 0)
    if time.process_time() - t > 2:
        c.skip("slow family")
    after = s.settle()
    c.count("large documents released")
    if after - base > 300:
        # once more: what is kept once is no leak
        s.one(text, 0)
        again = s.settle()
        return "%d blocks are still held after a document of %d characters, %d after it came again (%s)" % (after - base, len(text), again - base, case["mode"])


def history(case, c):
    r = random.Random(case["seed"])
    s = Step(case)
    c.count("histories")
    i = 0
    n = 150

    def run(k):
        nonlocal i
        for _ in range(k):
            s.one(small(case, r), i)
            i += 1
        c.count("documents in histories", k)
        return s.settle()
    run(20)
    a = run(n)
    b = run(n)
    if b - a <= n * .15:
        return
    c.count("growths to confirm")
    sizes = [a, b]
    for _ in range(8):
        sizes.append(run(2000))
    last = [y - x for x, y in zip(sizes[-4:], sizes[-3:])]
    if min(last) > 2000 * .1:
        return "memory grows with every document (mode %s): blocks held %s, %s more per 2000 documents such as %r" % (case["mode"], sizes, last, small(case, r))


def check(case, c):
    c.trivial = False
    if case["kind2"] == "peak":
        return peaks(case["family"], c)
    if case["kind2"] == "large":
        return large(case, None, c)
    return history(case, c)


def enumerate_(c):
    for i, f in enumerate(c25.FIXED):
        if c.thorough or i % 2 == 0:
            yield {"kind2": "peak", "family": dict(f, fmt=["html", "smart", "rst", "json"][i // 2 % 4])}
    for m in MODES:
        for j, t in enumerate(TEMPLATES):
            if (c.thorough or (j + MODES.index(m)) % 3 == 0):
                yield {"kind2": "history", "templates": [t], "mode": m, "seed": j, "smart": bool(j % 2), "safe": bool(j % 3), "pos": bool(j % 5)}


    for j, t in enumerate(TEMPLATES):
        for k, d in enumerate(DECO):
            if "%w" in t and (c.thorough or (j + k) % 2 == c.seed % 2 or k < 2):
                yield {"kind2": "history", "templates": [t], "mode": MODES[(j + k) % 4], "seed": j, "smart": k == 6, "safe": bool(j % 2), "pos": bool(k % 2), "deco": d}


def gens(c):
    def fam(r):
        f = c25.randfam(r) if r.random() < .5 else c25.variant(r)
        return f

    def pk(r):
        return {"kind2": "peak", "family": dict(fam(r), fmt=r.choice(["html", "html", "smart", "rst", "json", "ast"]))}

    def hist(r):
        return {"deco": r.choice(DECO) if r.random() < .4 else "", "kind2": "history", "templates": r.sample(TEMPLATES, r.choice([1, 2, 3, 5])), "mode": r.choice(MODES), "seed": r.randrange(1 << 30), "smart": r.random() < .5, "safe": r.random() < .5, "pos": r.random() < .3}

    def lg(r):
        return dict(hist(r), kind2="large", family=fam(r))
    return [(3, "peak", pk), (1.5, "history", hist), (1.5, "large", lg)]
