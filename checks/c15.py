import contextlib
import gc
import json
import os
import pickle
import random
import struct
import subprocess
import sys

import canon
import gen as G
import sut

ID = "C15"
TECHNIQUE = "history monitor: every result of reused, interleaved and shared objects compared with the one a pristine process gives for the same text and options"
QUICK = (330, 60)
THOROUGH = (12000, 1500)
RULE = ("Random histories over a pool of parsers and renderers (options dicts shared between objects): parse, render, dump, module function, renderers that use others while rendering, walkers left half-way, failed calls, edited documents, "
        "old documents rendered again. Each result is compared with that of a process that has done nothing else; options dicts and every document's full tree are compared with snapshots. Non-trivial: at least 5 results.")
REQUIRE = {"results compared": 20000, "reused parser": 8000, "reused renderer": 2500, "documents rendered again": 3000, "trees unchanged": 5000, "options unchanged": 3000, "failed calls": 500, "nested renderings": 500, "pristine results": 2000,
           "hash seeds": 3, "dropped documents": 5000, "long histories' documents": 2500}
ASSUMPTIONS = ["a document its owner has edited is no longer compared"]
LIMIT_AS = False
SHRINK = True

POPTS = [None, {}, {"smart": True}, {"smart": False}, {"smart": True, "x": 1}]
ROPTS = [None, {}, {"safe": True}, {"sourcepos": True}, {"softbreak": " "}, {"softbreak": "<br />", "safe": True}, {"softbreak": "\n"}]

STICKY = ["```\nunclosed", "~~~ a\n", "- \ta", "> \tx", "-\t", ">\t", "\t", "    code\n\t\t", "<div>\nopen", "<!-- open", "<script>\n", "[foo]: /url 'title'", "[foo]: /url", "[foo]", "[foo][]\n\n[FOO]: /other", "[bar]: /b\n\n[bar] [foo]", "**open *x",
          "[open ![x", "\"quote 'x", "'a", "\"", "![a ![b](c)](d \"t\")", "![a *b*<b>c](d)", "- a\n  - b\n\n    c", "> > > deep", "1. a\n\n   b\n3. c", "# h #", "h\n===", "a\\\n", "a  ", "`open", "``x`", "<a", "&amp", "&", "\\", "* * *", "", "\n", "a", "a\nb",
          "a  \nb", "[a](", "[a](b", "[a]: <", "![", "> - ```\n> - x", "- ![img](u)\n- b\n", "> # quoted\n> ```py\n> c\n", "* a\n* ![i *j*](k)\n\n> q\n\ntext", "[x]: /a\n[x]: /b\n\n[x]", "*a **b* c**", "a*b_c*d_", "a--b...c 'd' \"e\"", "<b>x</b>", "<div>\n\n*a*",
          "```\n\ta\n```\n\n\tb", "- - - a\n\n\n  b", "1) x\n2. y", "+ a\n\n  [r]: /r\n\n[r]", "a\n\n[unused]: x\n", "\ufeffx", "x\r\ry\r\n", "a\0b", "[ſ]: /s\n\n[s]", "_a_ *b* __c__ **d**"]


DROPPED = [("```%s\nx\n```\n", ["a", "b", "", "c d"]), ("~~~ x\n%s\n~~~\n", ["a", "b\nb", ""]), ("[x](/%s)", ["a", "b", "", "c \"t\""]), ("![x](/u '%s')", ["a", "b", "\"", "&lt;"]), ("![%s](/u)", ["a", "*b*", "<c>", "`d`"]), ("%s. x\n", ["1", "2", "77"]),
           ("%s x\n", ["-", "+", "1)", "#", "##", ">", "<a>", "    "]), ("%s\n", ["*a*", "**a**", "_a_", "`a`", "<a>", "&lt;", "\\*"]), ("<%s>\nx\n", ["div", "pre", "!-- a", "a"]), ("- x\n%s- x\n", ["", "\n", "  a\n"]), ("x\n%s\n", ["===", "---", "***", "a", "\n"]),
           ("[a]: /%s\n\n[a] [a][] ![a]", ["u", "v 't'", "w"]), ("[%s]: /u\n\n[x] [y]", ["x", "y", "z", "X"]), ("x%sy", ["  \n", "\n", "\\\n", " ", "--", "...", "'", "\""]), ("%sx\n", ["", "\n", "  ", "a\n", "\n\n> "])]


# ---------------------------------------------------------------- the pristine process
# what a node holds for its users (not, for example, what a renderer might cache in it)
FIELDS = ["t", "parent", "first_child", "last_child", "prv", "nxt", "sourcepos", "last_line_blank", "is_open", "string_content", "literal", "list_data", "info", "destination", "title", "is_fenced", "fence_char", "fence_length", "fence_offset", "level", "on_enter", "on_exit"]


def full(doc):
    """Everything a tree holds, links included."""
    out = []
    st = [(doc, 0)]
    while st:
        n, d = st.pop()
        v = {k: getattr(n, k, None) for k in FIELDS}
        for k in ("parent", "first_child", "last_child", "prv", "nxt"):
            x = v.pop(k, None)
            v[k] = None if x is None else x.t
        out.append("%d %r" % (d, sorted(v.items(), key=lambda kv: kv[0])))
        ks = []
        k = n.first_child
        while k is not None:
            ks.append((k, d + 1))
            k = k.nxt
        st.extend(reversed(ks))
    return "\n".join(out)


def result(text, popt, kind, ropt):
    if kind == "main":
        f = ropt
        if f == "ast":
            return sut.printed(sut.commonmark.commonmark, text, "ast")[0]
        return sut.commonmark.commonmark(text, f) if f else sut.commonmark.commonmark(text)
    p = sut.Parser(dict(popt)) if popt is not None else sut.Parser()
    doc = p.parse(text)
    return output(doc, kind, sut.HtmlRenderer(dict(ropt)) if kind == "html" and ropt is not None else None)


def output(doc, kind, r=None):
    if kind == "html":
        return (r or sut.HtmlRenderer()).render(doc)
    if kind == "rst":
        return (r or sut.ReStructuredTextRenderer()).render(doc)
    if kind == "json":
        return sut.dumpJSON(doc)
    if kind == "ast":
        return sut.printed(sut.dumpAST, doc)[0]
    return full(doc)


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def exactly(n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                raise EOFError
            b += x
        return b
    return pickle.loads(exactly(struct.unpack("<I", exactly(4))[0]))


def begin(c):
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a[1])
        os.close(b[0])
        try:
            while True:
                job = recv(a[0])
                kid = os.fork()
                if kid == 0:
                    try:
                        try:
                            r = ("ok", result(*job))
                        except BaseException as e:
                            r = ("error", repr(e)[:500])
                        send(b[1], r)
                    finally:
                        os._exit(0)
                os.waitpid(kid, 0)
        except EOFError:
            pass
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    c.state.update(out=a[1], inp=b[0], pid=pid, cache={})


def finish(c):
    with contextlib.suppress(Exception):
        os.close(c.state["out"])
        os.close(c.state["inp"])
        os.waitpid(c.state["pid"], 0)


def pristine(c, *job):
    k = repr(job)
    cache = c.state["cache"]
    if k not in cache:
        send(c.state["out"], job)
        cache[k] = recv(c.state["inp"])
        c.count("pristine results")
        if len(cache) > 30000:
            for x in list(cache)[:10000]:
                del cache[x]
    return cache[k]


# ---------------------------------------------------------------- histories
def text(r):
    return r.choice(STICKY) if r.random() < .65 else r.choice(STICKY) + r.choice(["\n\n", "\n"]) + r.choice(STICKY) if r.random() < .5 else G.any_doc(r, sut.REPO)[:1500]


def history(r):
    texts = [text(r) for _ in range(r.randint(2, 6))]
    ops = []
    for _ in range(r.randint(8, 40)):
        k = r.random()
        if k < .3:
            ops.append(["parse", r.randrange(4), r.randrange(len(texts))])
        elif k < .62:
            ops.append(["render", r.randrange(99), r.choice(["html", "html", "html", "rst", "rst", "json", "ast"]), r.randrange(4)])
        elif k < .68:
            ops.append(["main", r.randrange(len(texts)), r.choice(["html", "rst", "json", "ast", ""])])
        elif k < .74:
            ops.append(["newparser", r.randrange(4), r.randrange(len(POPTS))])
        elif k < .8:
            ops.append(["newrenderer", r.randrange(4), r.randrange(len(ROPTS))])
        elif k < .84:
            ops.append(["fail", r.randrange(4), r.randrange(5)])
        elif k < .88:
            ops.append(["nested", r.randrange(99), r.randrange(len(texts)), r.randrange(len(texts))])
        elif k < .91:
            ops.append(["edit", r.randrange(99), r.randrange(5)])
        elif k < .95:
            ops.append(["walk", r.randrange(99), r.randrange(40)])
        else:
            ops.append(["norm", r.randrange(99), 0])
    return {"texts": texts, "ops": ops, "p": [r.randrange(len(POPTS)) for _ in range(4)], "r": [r.randrange(len(ROPTS)) for _ in range(4)]}


def gens(c):
    return [(1, "history", history)]


def enumerate_(c):
    # every ordered pair of sticky texts through one parser and one renderer of each kind
    n = len(STICKY)
    for i in range(n):
        for j0 in range(0, n, 8):
            js = list(range(j0, min(n, j0 + 8)))
            if not c.thorough and (i * 7 + j0 // 8 + c.seed) % 4:
                continue
            ops = []
            for j in js:
                ops += [["parse", 0, 0], ["render", 98, "html", 0], ["render", 98, "rst", 0], ["parse", 0, 1 + j - j0], ["render", 98, "html", 0], ["render", 98, "rst", 0]]
            yield {"texts": [STICKY[i]] + [STICKY[j] for j in js], "ops": ops, "p": [2 if (i + j0) % 3 == 0 else 0] * 4, "r": [1 + (i + j0 // 8) % 6] * 4, "last": True}
    # documents that are dropped as soon as they are rendered: what comes later may stand at the same addresses
    for i, (fmt, subst) in enumerate(DROPPED):
        for p in (0, 2):
            yield {"drop": fmt, "with": subst, "p": p, "r": 1 + (i + p) % 6}
    # one parser and one renderer of each kind used for hundreds of different documents, some of them again
    for i in range(8):
        yield {"long": i, "n": 3000 if c.thorough else 420, "p": i % len(POPTS), "r": 1 + i % 6}
    yield {"seeds": ["0", "1", "4242", "random"]}


class Nested(sut.HtmlRenderer):
    """Uses other parsers and renderers in the middle of a rendering."""
    other = None

    def text(self, node, entering=None):
        if self.other and entering:
            f, self.other = self.other, None
            f()
        super().text(node, entering)


def cmp(c, got, want, what):
    c.count("results compared")
    if want[0] != "ok":
        raise RuntimeError("pristine process: %s" % want[1])
    if got != want[1]:
        a, b = str(got), want[1]
        i = 0
        while i < min(len(a), len(b)) and a[i] == b[i]:
            i += 1
        return "%s differs from a fresh one: ...%r, expected ...%r" % (what, a[max(0, i - 40):i + 80], b[max(0, i - 40):i + 80])


def check(case, c):
    if "seeds" in case:
        return hash_seeds(case, c)
    if "drop" in case:
        return dropped(case, c)
    if "long" in case:
        return many(case, c)
    texts, ops = case["texts"], case["ops"]
    if not texts:
        return None
    popts = [dict(o) if o is not None else None for o in POPTS]      # shared by all objects made with them
    ropts = [dict(o) if o is not None else None for o in ROPTS]
    P = [[sut.Parser() if popts[i] is None else sut.Parser(popts[i]), i, 0] for i in case["p"]]
    R = [[sut.HtmlRenderer() if ropts[i] is None else sut.HtmlRenderer(ropts[i]), i, 0] for i in case["r"]]
    RST = [sut.ReStructuredTextRenderer() for _ in range(2)]
    docs, walkers = [], []
    n = 0

    def live(k):
        l = [d for d in docs if d["ok"]]
        if not l:
            return None
        return l[-1] if k >= 90 else l[k % len(l)]

    for op, a, b, *rest in ops:
        if op == "parse":
            p = P[a % len(P)]
            t = texts[b % len(texts)]
            doc = p[0].parse(t)
            if p[2]:
                c.count("reused parser")
            p[2] += 1
            snap = full(doc)
            d = cmp(c, snap, pristine(c, t, POPTS[p[1]], "full", None), "tree of %r (parser used %d times)" % (t, p[2]))
            if d:
                return d
            docs.append({"doc": doc, "text": t, "popt": POPTS[p[1]], "full": snap, "ok": True, "rendered": 0, "norm": False})
            n += 1
        elif op == "render":
            x = live(a)
            if x is None:
                continue
            kind = b
            ropt, r = None, None
            if kind == "html":
                rr = R[rest[0] % len(R)]
                r, ropt = rr[0], ROPTS[rr[1]]
                if rr[2]:
                    c.count("reused renderer")
                rr[2] += 1
            elif kind == "rst":
                r = RST[rest[0] % 2]
            if x["rendered"]:
                c.count("documents rendered again")
            x["rendered"] += 1
            if x["norm"] and kind in ("json", "ast"):
                continue
            d = cmp(c, output(x["doc"], kind, r), pristine(c, x["text"], x["popt"], kind, ropt), "%s of %r with %r" % (kind, x["text"], ropt))
            if d:
                return d
            n += 1
        elif op == "main":
            t = texts[a % len(texts)]
            got = sut.printed(sut.commonmark.commonmark, t, "ast")[0] if b == "ast" else sut.commonmark.commonmark(t, b) if b else sut.commonmark.commonmark(t)
            d = cmp(c, got, pristine(c, t, None, "main", b), "commonmark(%r, %r)" % (t, b))
            if d:
                return d
            n += 1
        elif op == "newparser":
            o = popts[b % len(popts)]
            P[a % len(P)] = [sut.Parser() if o is None else sut.Parser(o), b % len(popts), 0]
        elif op == "newrenderer":
            o = ropts[b % len(ropts)]
            R[a % len(R)] = [sut.HtmlRenderer() if o is None else sut.HtmlRenderer(o), b % len(ropts), 0]
        elif op == "fail":
            try:
                if b == 0:
                    sut.commonmark.commonmark(texts[0], "bogus")
                elif b == 1:
                    P[a % len(P)][0].parse(None)
                elif b == 2:
                    R[a % len(R)][0].render(None)
                elif b == 3:
                    RST[a % 2].render("text")
                else:
                    sut.dumpJSON(None)
            except Exception:
                c.count("failed calls")
        elif op == "nested":
            x = live(a)
            if x is None:
                continue
            t1, t2 = texts[b % len(texts)], texts[rest[0] % len(texts)]
            inner = {}
            o = ropts[R[0][1]]
            r = Nested() if o is None else Nested(o)

            def other():
                inner["html"] = sut.commonmark.commonmark(t1)
                inner["rst"] = RST[0].render(P[0][0].parse(t2))
                inner["p"] = P[0][1]
            r.other = other
            d = cmp(c, r.render(x["doc"]), pristine(c, x["text"], x["popt"], "html", ROPTS[R[0][1]]), "rendering of %r that calls another" % x["text"])
            if d:
                return d
            if inner:
                c.count("nested renderings")
                d = cmp(c, inner["html"], pristine(c, t1, None, "html", None), "inner HTML of %r" % t1) or \
                    cmp(c, inner["rst"], pristine(c, t2, POPTS[inner["p"]], "rst", None), "inner RST of %r" % t2)
                if d:
                    return d
            n += 1
        elif op == "edit":
            x = live(a)
            if x is not None:
                x["ok"] = False
                m = x["doc"]
                ks = []
                k = m.first_child
                while k is not None:
                    ks.append(k)
                    k = k.nxt
                if b == 0 and ks:
                    ks[0].unlink()
                elif b == 1:
                    m.append_child(sut.Node("thematic_break", None))
                elif b == 2:
                    for k, _ in m.walker():
                        if k.literal:
                            k.literal = "edited"
                        k.list_data["edited"] = 1
                elif b == 3:
                    for k, _ in m.walker():
                        k.destination = k.title = k.info = "edited"
                else:
                    for k in ks:
                        k.unlink()
        elif op == "walk":
            x = live(a)
            if x is not None:
                w = x["doc"].walker()
                for _ in range(b):
                    if w.nxt() is None:
                        break
                walkers.append(w)
        elif op == "norm":
            x = live(a)
            if x is not None and not x["norm"]:
                x["doc"].normalize()
                x["norm"] = True
                x["full"] = full(x["doc"])
    if not case.get("last"):
        for x in docs:
            if not x["ok"]:
                continue
            c.count("trees unchanged")
            if full(x["doc"]) != x["full"]:
                return "the tree of %r was changed by later use" % x["text"]
    for now, orig in ((popts, POPTS), (ropts, ROPTS)):
        if now != orig:
            return "options became %r, were %r" % (now, orig)
        c.count("options unchanged")
    c.trivial = n < 5


def dropped(case, c):
    popt, ropt = POPTS[case["p"]], ROPTS[case["r"]]
    p, r, rst = sut.Parser(dict(popt or {})), sut.HtmlRenderer(dict(ropt)), sut.ReStructuredTextRenderer()
    texts = [case["drop"] % x for x in case["with"]]
    rnd = random.Random(c.seed)
    gc.collect()
    gc.freeze()
    for i in range(240):
        t = rnd.choice(texts)
        kind = ("html", "html", "rst", "json", "full")[i % 5] if i < 120 else "html"
        # the tree is gone before the next one is made
        got = output(p.parse(t), kind, r if kind == "html" else rst if kind == "rst" else None)
        d = cmp(c, got, pristine(c, t, popt, kind, ropt if kind == "html" else None), "%s of %r, with a parser and a renderer used %d times for documents since dropped" % (kind, t, i))
        if d:
            return d
        c.count("dropped documents")
        gc.collect()


MANY = ["[a%d]: /u%d 't%d'\n\n[a%d] [A%d][] ![i][a%d]", "[same]: /u%d '%d'\n\n[same] [a1] [a%d]", "x%d &#%d; \\&amp; &lt;%d", "``` i%d\n\ty%d\n```\n", "*a%d* __b%d__ `c%d` **d", "<http://h/%d> <m%d@b.c> <t%d>", "# h%d\n\ng%d\n---\n", "- i%d\n  - j%d\n\n    k\n", "> q%d\n> %d. r\n", "<div id=%d>\n\n<b>%d",
        "[x](/y%d \"z%d\") ![w](/é%d)", "\"s%d\" 'u%d' -- %d...", "- a\n%d) b\n\n    c%d\n", "l%d  \nm%d\\\nn", "| %d | \u00e9%d | \ufb01", "> - ```\n> - x%d", "%d" + "x" * 300, "y" * 300 + "%d *z*", "[" + "l" * 90 + "%d]: /u%d\n\n[" + "L" * 90 + "%d]",
        # the same length, beginning and end
        "s" * 150 + "%d" + "t" * 150, "```\n" + "s" * 400 + "%d" + "t" * 400, "[x](/" + "s" * 150 + "%d" + "t" * 150 + " '" + "s<" * 80 + "%d" + "t" * 150 + "')", "`" + "s" * 150 + "&%d" + "t" * 150 + "`", "<b c='" + "s" * 150 + "%d" + "t" * 150 + "'>", "<div>\n" + "s" * 300 + "%d" + "t" * 300,
        "[" + "l" * 200 + "%d" + "m" * 200 + "]: /%d\n\n[" + "l" * 200 + "%d" + "m" * 200 + "] *" + "l" * 2000 + "%d" + "m" * 2000 + "*", "a\n" * 60 + "*b%d*\n" + "a\n" * 60, "- a\n" * 30 + "- %d\n" + "- a\n" * 30]


def many(case, c):
    popt, ropt = POPTS[case["p"]], ROPTS[case["r"]]
    p, r, rst = sut.Parser(dict(popt or {})), sut.HtmlRenderer(dict(ropt)), sut.ReStructuredTextRenderer()
    rnd = random.Random("%d/%d" % (c.seed, case["long"]))
    used = []
    for i in range(case["n"]):
        t = rnd.choice(used) if used and rnd.random() < .12 else rnd.choice(MANY).replace("%d", str(i + 1))
        if rnd.random() < .1:
            t += "\n\n" + rnd.choice(STICKY)
        # what an earlier document may have left behind
        if rnd.random() < .4:
            t += "\n\n[same] ![foo][a%d] [r] [a1]\n" % i
        if rnd.random() < .4:
            t += "\n\n[same]: /same%d\n[a%d]: <> (x)\n" % (i, i + 1)
        used.append(t)
        doc = p.parse(t)
        for kind, o in (("html", r), ("rst", rst)) if i % 7 else (("full", None), ("html", r), ("json", None)):
            d = cmp(c, output(doc, kind, o), pristine(c, t, popt, kind, ropt if kind == "html" else None), "%s of %r, with a parser and a renderer used %d times" % (kind, t, i))
            if d:
                return d
        c.count("long histories' documents")


PROBE = r"""
import sys, json, hashlib
sys.path.insert(0, %r)
import sut, c15
out = []
for t in json.loads(sys.stdin.read()):
    for o in (None, {"smart": True}):
        for k in ("html", "rst", "json", "ast", "full"):
            out.append(hashlib.sha1(c15.result(t, o, k, None).encode("utf-8", "surrogatepass")).hexdigest())
print(json.dumps(out))
"""


def hash_seeds(case, c):
    r = random.Random("seeds%d" % c.seed)
    texts = STICKY + [G.any_doc(r, sut.REPO)[:2000] for _ in range(300 if c.thorough else 60)]
    res = []
    for s in case["seeds"]:
        env = dict(os.environ, PYTHONHASHSEED=s, VERIF_REPO=sut.REPO)
        code = "import sys; sys.path[:0] = [%r, %r]\n" % (os.path.join(os.path.dirname(sut.HERE), "lib"), os.path.join(os.path.dirname(sut.HERE), "checks")) + PROBE % sut.REPO
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps(texts).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
        if p.returncode:
            raise RuntimeError("probe: " + p.stderr.decode(errors="replace")[-800:])
        res.append(json.loads(p.stdout))
        c.count("hash seeds")
    for o in res[1:]:
        for i, (x, y) in enumerate(zip(res[0], o)):
            if x != y:
                return "two processes give different results for %r" % texts[i // 10]
