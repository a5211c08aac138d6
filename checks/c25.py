import json
import math
import os
import random
import resource
import signal
import sys
import time

import gen as G
import harness
import sut

ID = "C25"
TECHNIQUE = "resource monitor: executed lines and CPU time of parsing and rendering, in budgeted child processes, over repeated and nested constructs at doubling sizes"
QUICK = (200, 75)
THOROUGH = (6000, 1500)
COVER = False
LIMIT_AS = False
CASE_CPU = 600
RULE = ("Families a*n + b + c*n + d (and per-line, alternating and growing variants) of fixed known-dangerous and of random pieces, at doubling n. Each size runs in a child process under a CPU limit with the executed library lines counted. "
        "Violation: the child exceeds a budget far above quadratic cost, or the line count or the CPU time grows faster than n^2.5 over the last doublings (CPU time is measured again, best of three, before it counts). Non-trivial: all.")
REQUIRE = {"families": 600, "families screened": 10000, "measurements": 3000, "lines counted": 3000000, "superlinear families": 20, "fixed families": 100}
ASSUMPTIONS = ["between n^2 and n^2.5 nothing is reported", "effort inside C code (regular expressions, string copies) is seen as CPU time only"]
EXHAUSTIVE_NOTE = "the fixed list of families; every piece of 1-7 characters (thorough: of any length) of each of the fixed constructs repeated in place, with five endings, screened at some 600 characters"

BUDGET = 20                      # CPU seconds of one measurement


def work(text, fmt):
    doc = sut.Parser({"smart": True} if fmt == "smart" else {}).parse(text)
    if fmt == "rst":
        sut.ReStructuredTextRenderer().render(doc)
    else:
        sut.HtmlRenderer({"sourcepos": True} if fmt == "smart" else {}).render(doc)


def measure(text, fmt, count, budget=BUDGET):
    """(executed lines, CPU seconds), or None if the budget was exceeded"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (budget, budget + 1))
            n = [0]
            if count:
                M = sys.monitoring
                M.use_tool_id(3, "verif-lines")
                prefix = sut.PKG + os.sep

                def line(code, ln):
                    if not code.co_filename.startswith(prefix):
                        return M.DISABLE
                    n[0] += 1
                M.register_callback(3, M.events.LINE, line)
                M.set_events(3, M.events.LINE)
            t = time.process_time()
            try:
                work(text, fmt)
                err = None
            except Exception as e:
                err = repr(e)[:200]
            t = time.process_time() - t
            if count:
                sys.monitoring.set_events(3, 0)
            os.write(w, json.dumps([n[0], t, err]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
        return None
    if not data:
        raise harness.Skip("child status %d" % st)
    n, t, err = json.loads(data)
    if err:
        raise harness.Skip(err)
    return n, t


def build(f, n):
    k = f["kind"]
    p = f["parts"]
    if k == "rep":
        return p[0] + "".join(x * n if i % 2 == 0 else x for i, x in enumerate(p[1:]))
    if k == "grow":                                    # a, aa, aaa, ... separated
        m = int(math.sqrt(2 * n)) + 1
        return p[0] + "".join(p[1] * i + p[2] for i in range(1, m)) + p[3]
    if k == "number":                                  # pieces made distinct by their number
        return p[0] + "".join(p[1].replace("%", str(i)) for i in range(n)) + p[2] + "".join(p[3].replace("%", str(i)) for i in range(n))
    if k == "nest":                                    # containers nest, one line each
        m = int(math.sqrt(2 * n)) + 1
        return "\n".join(p[0] * i + p[1] for i in range(m)) + p[2]
    raise ValueError(k)


def unit(f):
    return max(1, len(build(f, 200)) - len(build(f, 100))) / 100.0


def exponent(a, b, la, lb):
    return math.log(max(b, 1e-9) / max(a, 1e-9)) / math.log(max(lb, 2) / max(la, 1)) if lb > la > 0 else 0


def screen(case, c):
    """Each given family at a few hundred characters, in one child: what takes long there is measured as a family."""
    fams = pumps(case)
    todo, slow = list(fams), []
    while todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.signal(signal.SIGPROF, signal.SIG_DFL)         # ends the child
                for i, f in enumerate(todo):
                    text = build(f, max(2, int(SCREEN / unit(f))))
                    signal.setitimer(signal.ITIMER_PROF, 5)
                    t = time.process_time()
                    try:
                        work(text, f["fmt"])
                    except Exception:
                        pass
                    os.write(w, b"%d %.4f\n" % (i, time.process_time() - t))
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            data += x
        os.close(r)
        os.waitpid(pid, 0)
        res = [x.split() for x in data.decode().splitlines()]
        slow += [todo[int(i)] for i, t in res if float(t) > .1]
        c.count("families screened", len(res))
        if len(res) < len(todo):
            slow.insert(0, todo[len(res)])
            c.count("families screened")
            break
        todo = todo[len(res) + 1:]
    for f in slow:
        c.count("families slow in screening")
        m = check(f, c)
        if m:
            return "%s: %s" % (json.dumps(f), m)


def check(f, c):
    if "screen" in f:
        return screen(f, c)
    c.count("families")
    if f.get("fixed"):
        c.count("fixed families")
    u = unit(f)
    L = 250
    series = []
    limit = 64000 if c.thorough else 8000
    stop_at = 3.0 if c.thorough else .6
    while L <= limit:
        n = max(2, int(L / u))
        text = build(f, n)
        r = measure(text, f["fmt"], True)
        c.count("measurements")
        if r is None:
            return "%d characters took more than %d s of CPU time (before: %s)" % (len(text), BUDGET, series)
        c.count("lines counted", r[0])
        series.append((len(text), r[0], round(r[1], 4), n))
        if len(series) >= 3:
            (l0, w0, t0, n0), (l1, w1, t1, n1), (l2, w2, t2, n2) = series[-3:]
            e1, e2 = exponent(w0, w1, l0, l1), exponent(w1, w2, l1, l2)
            if w2 > 20000 and e1 > 2.5 and e2 > 2.5:
                return "executed lines grow faster than n^2.5: %s (length, lines, s, n)" % (series[-3:],)
            if t2 > .6 and exponent(t0, t2, l0, l2) > 2.5:
                best = [min((measure(build(f, k), f["fmt"], False) or (0, BUDGET))[1] for _ in range(3)) for k in (n0, n1, n2)]
                c.count("measured again")
                if best[2] > .4 and exponent(best[0], best[2], l0, l2) > 2.5 and exponent(best[1], best[2], l1, l2) > 2.4:
                    return "CPU time grows faster than n^2.5: %s s for %s characters" % ([round(b, 3) for b in best], [l0, l1, l2])
        if r[1] > stop_at:
            break
        L *= 2
    if len(series) > 1:
        e = exponent(series[-2][1], series[-1][1], series[-2][0], series[-1][0])
        et = exponent(series[-2][2], series[-1][2], series[-2][0], series[-1][0])
        if max(e, et) > 1.4:
            c.count("superlinear families")
        if os.environ.get("VERIF_SHOW"):
            print("%.2f %.2f" % (e, et), series[-1], json.dumps(f), flush=True)


SHRINK = False
FMT = ["html", "html", "html", "rst", "smart"]


def rep(*p):
    return {"kind": "rep", "parts": list(p)}


FIXED = [rep(*p) for p in [
    ("", "["), ("", "]"), ("", "[", "a", "]"), ("", "["), ("", "[a]("), ("", "[a](", "x", "][]"), ("", "[a](b"), ("", "![a]("), ("", "[]("), ("", "[a][b]"), ("", "[a]", "\n\n[a]: /u", ""), ("", "[a](<b"), ("", "[a](b 'c"), ("", "[a](b \"c"), ("", "[a](b (c"),
    ("", "![["), ("", "![", "a", "](u)"), ("", "[", "a", "](u)"), ("", "[x", "](", "]"), ("", "!["), ("", "[ (]("), ("", "![[]()"), ("", "[](", "a", ")"), ("[a](", "(", "", ")"), ("[a](", "\\("), ("[a](<", "\\<"), ("[a](b '", "\\'"), ("[a](b '", "\\"), ("[a](b \"", "\\a"),
    ("[a](b (", "("), ("[a](b '", "a"), ("[a](", "a", " ", "'"), ("[a](b", " "), ("[a](b", "\n"), ("[", "a\\"), ("[", "\\]"), ("[", "\\[", "]", ""), ("[", "a", "]: b", ""),
    ("", "*"), ("", "**"), ("", "*a"), ("", "a*"), ("", "*a_"), ("", "_a*"), ("", "**a_ "), ("", "a**b"), ("", "a **b"), ("", "*a **a "), ("", "**x*"), ("", "*a", "", "a*"), ("", "_", "a", "_"), ("", "**a *"), ("", "*_"), ("", "a_*"), ("", "*a*_b_"), ("", "***a**"), ("", "a***b_"),
    ("", "__a *"), ("", "x*x_"), ("", "*a", "", "_"), ("", "_a", "", "*"), ("", "* a_"), ("", "*[a"), ("", "*[a]("), ("", "[*a"), ("", "[*a](b)"), ("", "[a*](b)"), ("", "_[a]"),
    ("", "`"), ("", "`a"), ("", "``a`"), ("", "`a``"), ("", "\\`"), ("", "` "), ("", "`\n"), ("`", "a"), ("", "```\n"), ("", "```a\n"), ("", "~~~\n"), ("", "~~~\n```\n"),
    ("", "<"), ("", "<a"), ("", "<a "), ("", "<a b"), ("<a", " b"), ("<a", " b=c"), ("<a", " b='c'"), ("<a b='", "'"), ("<a", " "), ("<a", "\n"), ("", "<!--"), ("", "<!--a"), ("<!--", "-a"), ("<!--", "--"), ("", "<?"), ("", "<!A "), ("", "<!A"), ("", "<![CDATA["), ("", "<![CDATA[]]"),
    ("", "</"), ("", "</a "), ("", "<http:"), ("<http:", "a"), ("<", "a"), ("<", "a@"), ("<a@", "a."), ("<a@", "a-"), ("<a@", "a"), ("", "<a@"), ("<", "a."), ("<a", "+"), ("", "<a@a."), ("", "a@a"), ("<a b", "=c"), ("<a", " b = "), ("<a b=", "c"), ("", "<a b='"), ("", "<a b=\""),
    ("", "&"), ("", "&a"), ("", "&#"), ("", "&#x"), ("&", "a"), ("&#", "1"), ("", "&amp"), ("", "&amp;"), ("", "&#35;"), ("", "\\"), ("", "\\*"), ("", "\\\n"),
    ("", "> "), ("", "> ", "a\n", "> "), ("", "> a\n"), ("", ">\n"), ("", "> ", "a", "\nb"), ("", "- "), ("", "- a\n"), ("", "- ", "a", "\nb"), ("", "-\n"), ("", "- a\n\n"), ("", "1. "), ("", "1. a\n"), ("", "* ", "a", "\n\n"), ("", "+ ", "a\n", "  b\n"), ("", "- - a\n"), ("", " - a\n"),
    ("- a", "\n"), ("- a", "\n", "b", ""), ("", "\n"), ("", " \n"), ("", "a\n\n"), ("", "a\n"), ("", "    a\n"), ("", "    a\n\n"), ("    a", "\n"), ("    a", "\n", "    b", "\n"), ("", "\ta\n"), ("", "# a\n"), ("# ", "#"), ("# ", " #"), ("# ", " ", "x", ""), ("# a", " ", "#", "", "#", "", "x"),
    ("# a", " ", "", "#", "", " ", "x"), ("", "a\n===\n"), ("", "a\n", "===", ""), ("a\n", "="), ("a\n", "=", "x", ""), ("a\n=", " "), ("", "***\n"), ("", "* "), ("", "* ", "x", ""), ("* * *", " ", "x", ""), ("", "*\t"), ("", "- ", "-"), ("", "_ ", "x"), ("a", " "), ("a", " ", "b", ""), ("a", " ", "\nb", ""),
    ("", "a  \n"), ("", "a \n"), ("", "a\\\n"), ("[a]: b", "\n"), ("", "[a]: b\n"), ("", "[a]: b\n'"), ("", "[a]:\n"), ("", "[a\n"), ("[a]: b '", "\n"), ("[a]: b '", "a\n"), ("[a]: b ", "' "), ("[a]:", " "), ("[a]: <", "b"), ("[a]: <", "<"), ("[a]: ", "("), ("[a]: b\n'", "a\n", "", ""),
    ("", "[a]: b 'c\n"), ("", "[a]: b \"\n"), ("", "> [a]: b\n"), ("", "- [a]: b\n"), ("[", "\n", "]: b", ""), ("[", " ", "]: b", ""), ("", "<div>\n"), ("", "<div>\n\n"), ("", "<script>\n"), ("", "<!--\n"), ("", "<a>\n"), ("", "<a>\n\n"), ("<", "a", ">\n", ""), ("<script>\n", "a\n"), ("<!--\n", "-\n"),
    ("", "<pre>"), ("", "'"), ("", '"'), ("", "'a"), ("", "\"a"), ("", "a'"), ("", "'\""), ("", "-"), ("a", "-"), ("a", "--- "), ("", "."), ("a", "..."), ("", "a."), ("", "!"), ("", "!a"), ("", ":"), ("", "é"), ("", "\u2003"), ("", "\xa0a"), ("", "\x00"), ("", "\t"), ("a", "\t"), ("", "\r"), ("", "\r\n"), ("", "😀"),
    ("", "a"), ("", "a "), ("", "0"), ("", "1) "), ("", "1.\n"), ("", "999999999. "), ("", "<a href=\"x\">a</a>"), ("", "![a](b \"c\")"), ("", "**a** "), ("", "- a\n  - b\n"), ("", "> - a\n"), ("", "- > a\n"), ("- ", "> "), ("", "> - "), ("", "- > "), ("", "1. > - "),
    ("", "> ", "```\n", "> ", "a", ""), ("", "- ", "\n", " "), ("", "- ", "\n\n", "  ", "a", ""), ("", "  ", "a", ""), ("- a\n", "  b\n"), ("- a\n\n", "  b\n\n"), ("- a\n", "\n", "  b\n", "\n"), ("", "- a\n\n  b\n"), ("", "> a\n\n"), ("", "```\n\n"), ("```\n", "\n"), ("```\n", "    \n"), ("    a\n", "    \n", "    b", ""),
    ("a", "*a", "a", "b**"), ("", "a", "", "*", "", "_"), ("", "*", "a", "**"), ("", "**", "a", "*"), ("", "***", "a", "**", "", "*"), ("", "*a ", "", "**b "), ("", "*a ", "b", "_c "), ("", "(*", "a", "*)"), ("", "a**", "b", "**c"), ("", "_(*", "x", "*"), ("", "[", "", "*", "]", "]")]]
FIXED += [{"kind": "grow", "parts": p} for p in [["", "`", " ", ""], ["", "`", "a", ""], ["", "*", "a", ""], ["", "*", " a", ""], ["", "_", "a ", ""], ["", "#", " a\n", ""], ["", "`", "\n", ""], ["", "[", "a", ""], ["", "~", "\n", ""], ["", " ", "- a\n", ""], ["", ">", "a\n", ""], ["", "> ", "- a\n", ""], ["", "- ", "\n", ""], ["a", "-", "b", ""],
                                                 ["", "\\", "a", ""], ["", "![", "]", ""], ["", "1", ". a\n", ""], ["", "*", "_", ""], ["", "a", "`", ""], ["", "<", "a>", ""]]]
FIXED += [{"kind": "number", "parts": p} for p in [["", "[a%]: /u%\n", "\n", "[a%] "], ["", "[a%] ", "\n\n", "[a%]: /u\n"], ["", "[a%][b%]", "", ""], ["", "%. a\n", "", ""], ["", "&x%;", "", ""], ["", "<b%>", "", "</b%>"], ["", "<b%>\n\n", "", ""], ["", "[%]: <%> '%'\n", "\n", "![%][%]"], ["", "`%", "", ""], ["", "```a%\n%\n```\n", "", ""]]]
FIXED += [{"kind": "nest", "parts": p} for p in [["  ", "- a", ""], ["> ", "a", ""], ["> ", "- a", ""], ["   ", "1. a", ""], ["  ", "- a\n", "\n\nb"], ["> ", "", ""], ["- ", "a", ""], ["  ", "* b", "\n" * 50 + "c"], ["\t", "- a", ""]]]
# grow and nest have quadratic length in their parameter already
for _i, _f in enumerate(FIXED):
    _f["fmt"] = "html"
    _f["fixed"] = True


# Constructs whose every short piece is repeated in place, with an ending which may keep the whole from matching.
# (Several spaces where one would do are where two parts of a pattern can both match.)
SCREEN = 600
CONSTRUCTS = ["<a  b  c  >", "<a  b  =  c  d  =  'e'  f  =  \"g\"  />", "<a b='c' d=\"e\">", "<a\nb\n=\nc\n>", "</a  >", "<!-- a - b -- c -->", "<!---->", "<?a ?b?>", "<!AB  c d>", "<![CDATA[a]b]]c]]>", "<ab.c+d-e:f/g?h>", "<a.b+c@d-e.f-g.h>", "&amp;&#35;&#x2a;", "&abc1;",
              "[a\\]b](c)", "[a](<b\\>c> 'd\\'e')", "[a](b(c)d(e) \"f\")", "[a](  b  (c)  )", "[a](\nb\n'c\nd'\n)", "![a [b](c) d](e \"f\")", "[a][b]", "[a]: b", "[a]: <b> 'c'", "[a\n b]:\n  <b>\n  \"c\nd\"  ", "[a]: b\n[c]: d 'e'\n", "*a **b** _c_ __d__*", "**a*b_c_**", "`a ``b` c``", "a  \nb\\\nc",
              "\"a 'b' c\" -- d... ", "# a # b #  ", "#\ta\t##", "a b\n===  ", "a\n---", "***  **  *", "- - - -", "_ \t_ \t_", "```a b\nc\n```", "~~~  a\n b\n~~~  ", "    a\n\n\n    b\n", "> a\n> > b\nc\n", "- a\n\n  - b\n\n\n  c\n", "1.  a\n10)  b\n", "- \n\n  a\n", "<div  a>\n\nb\n", "<script>\na\n</script>", "<!--\na\n-->\n",
              "<a  b>\n\n", "\\a\\*\\\\", "a\t\tb\t", "\u2003a\u3000*b*", "!a![b", "javascript:a", "<javascript:a%20>", "[a](data:image/png;b)"]


def pumps(case):
    s, k, i = case["screen"]
    v = s[i:i + k]
    out = []
    for suffix in (s[i + k:], s[i + k:-1], "", "\x00'\"" + s[i + k:]):
        out.append({"kind": "rep", "parts": [s[:i], v, suffix], "fmt": case["fmt"]})
    out.append({"kind": "rep", "parts": ["a " + s[:i], v, s[i + k:-1] + "`"], "fmt": case["fmt"]})
    return out


def enumerate_(c):
    for j, s in enumerate(CONSTRUCTS):
        for k in range(1, (len(s) if c.thorough else 7) + 1):
            for i in range(len(s) - k + 1):
                yield {"screen": [s, k, i], "fmt": "html" if (i + j) % 5 else "smart"}
    for f in FIXED:
        yield f
    for i, f in enumerate(FIXED):
        if c.thorough or i % 4 == 0:
            yield dict(f, fmt="smart" if i % 8 else "rst")


UNITS = ["[", "]", "(", ")", "<", ">", "*", "**", "_", "__", "`", "``", "\\", "!", "&", ";", "#", "'", '"', " ", "  ", "\n", "\n\n", "\t", "a", "b", "-", "--", "+", "1.", ":", "=", "/", "@", ".", "~~~", "```", "<!--", "-->", "<?", "?>", "<![CDATA[", "]]>", "![", "](", "](b", "[a]: ", "[a]", "<a", "</a", " b=", "> ", "- ", "* ", "1. ",
         "    ", "http://", "&amp;", "&#", "x", "é", "\\\\", "'a'", "(a)", "<b>", "\n    ", "\n> ", "\n- ", "\n  ", "===\n", "---\n", "<div>", "\r", "\x00", "..."]


def randfam(r):
    def p(lo=1, hi=4):
        return "".join(r.choice(UNITS) for _ in range(r.randint(lo, hi)))
    k = r.random()
    fmt = r.choice(FMT)
    if k < .72:
        parts = [p(0, 3) if r.random() < .5 else "", p()]
        while r.random() < .55 and len(parts) < 7:
            parts += [p(0, 2), p(1, 2)]
        return {"kind": "rep", "parts": parts, "fmt": fmt}
    if k < .82:
        return {"kind": "grow", "parts": [p(0, 1), p(1, 2), p(1, 2), p(0, 2)], "fmt": fmt}
    if k < .92:
        return {"kind": "number", "parts": [p(0, 1), p(1, 2) + "%" + p(1, 2), p(0, 2), r.choice(["", p(1, 2) + "%" + p(0, 1)])], "fmt": fmt}
    return {"kind": "nest", "parts": [r.choice(["> ", "  ", "   ", "- ", "1. ", "* ", ">", "\t"]), p(1, 3).replace("\n", ""), p(0, 3)], "fmt": fmt}


def variant(r):
    """A fixed family with a piece added or changed."""
    f = json.loads(json.dumps(r.choice(FIXED)))
    f.pop("fixed", None)
    f["fmt"] = r.choice(FMT)
    i = r.randrange(len(f["parts"]))
    u = r.choice(UNITS)
    f["parts"][i] = r.choice([f["parts"][i] + u, u + f["parts"][i]])
    return f


def gens(c):
    return [(1, "random family", randfam), (1, "variant", variant)]
