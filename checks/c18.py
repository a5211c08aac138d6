import itertools
import re

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C18"
TECHNIQUE = "metamorphic monitor (leading tabs against the spaces they stand for) plus exact reference-model comparison of code and text of tabbed documents"
QUICK = (7500, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Documents with tabs in indentation, after container markers, in code, in text and after text. Each is compared with itself after its leading tabs are expanded to 4-column stops (structure, list data and text equal, "
        "code and HTML text aside) and exactly with the model. Non-trivial: a leading tab exists.")
REQUIRE = {"expanded": 60000, "leading tabs": 100000, "after a marker": 30000, "code compared": 20000, "tabs kept in code": 5000, "tabs in text": 5000, "partial tabs": 3000}
ASSUMPTIONS = ["lib/refmodel.py states how many columns each construct consumes", "tabs after something that only looks like a marker may count as text: a line with nothing after such a tab is left as it is"]
EXHAUSTIVE_NOTE = "every document of up to 3 lines whose line prefixes are drawn from all tab/space/marker strings of length 3 (thorough: 4)"

PRE = re.compile(r"(?:[ \t]|>|[-+*](?=[ \t])|[0-9]{1,9}[.)](?=[ \t]))*")


def expand(text, c=None):
    out = []
    for line in text.split("\n"):
        m = PRE.match(line)
        p = m.group()
        rest = line[m.end():]
        if "\t" not in p or not rest.strip(" \t") and re.search("[-+*.)>]", p):
            out.append(line)
            continue
        col, s = 0, []
        for i, ch in enumerate(p):
            if ch == "\t":
                n = 4 - col % 4
                s.append(" " * n)
                col += n
                if c is not None:
                    c.count("leading tabs")
                    if p[:i].strip():
                        c.count("after a marker")
            else:
                s.append(ch)
                col += 1
        out.append("".join(s) + rest)
    return "\n".join(out)


def enumerate_(c):
    n = 4 if c.thorough else 3
    al = ["\t", " ", "-", ">"]
    pre = ["".join(t) for k in range(n + 1) for t in itertools.product(al, repeat=k)]
    for a in pre:
        yield {"lines": [a]}
    extra = ["", "\t", "\t\t", " \t", "  \t", "   \t", "    ", "> \t", ">\t", "-\t", ">\t\t"]
    if c.thorough:
        extra = [p for p in pre if len(p) <= 3]
    for a in pre:
        if "\t" in a:
            yield {"lines": [a], "second": extra}
    for a in ("-\ta", "1.\ta", "- \ta", "10)\ta", "123456789.\ta", "*\t\ta", "+  \ta", ">\ta", "> \ta", " -\ta", "  1.\ta", "   >\ta", "-\t-\ta", ">\t-\ta", "1.\t>\ta", "-", "-\t", "1.\t\ta", "\t-\ta"):
        for k in range(1, 5 if not c.thorough else 6):
            yield {"base": a, "n": k}


def docs_of(case):
    if "base" in case:
        k = case["n"]
        for t in itertools.product(["\t", " ", ">", "-"], repeat=k):
            p = "".join(t)
            if "\t" in p:
                yield case["base"] + "\n" + p + "b"
                yield case["base"] + "\n\n" + p + "b"
        return
    a = case["lines"][0]
    if "second" in case:
        for b in case["second"]:
            yield a + "x\n" + b + "y"
            yield a + "x\n\n" + b + "y"
            yield a + "x\n" + a + b + "y"
            yield "- z\n" + a + b + "x"
        return
    for s in ("x", "# x", "```", "***", "<div>", "-\tx", "1.\tx", ">\tx", "\tx", "[f]: /u", "x\ty\t", ""):
        yield a + s


TABBED = ["\t", "\t", " \t", "  \t", "   \t", "\t\t", "\t ", "    \t", "\t    ", "  \t  \t", " ", "  ", "    ", ""]
MARKS = [">", "-", "*", "+", "1.", "2)", "10.", "> ", "- ", ">\t", "-\t", "1.\t", ">\t\t", "-\t\t", "- \t", "> \t"]


def line(r):
    s = ""
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        s += r.choice(TABBED) + r.choice(MARKS)
    s += r.choice(TABBED)
    return s + r.choice(["a", "b c", "a\tb", "a \t b", "\tc", "# h", "#\th\t#", "```", "~~~\ti", "***", "*\t*\t*", "---", "===", "<div>", "<b>\tx", "[f]:\t/u\t't\tu'", "[f]", "`c\td`", "&#9;x", "x\\\t", "x\t", "x  \t", "a*\tb*", "-", "1.",
                             "<!--\t-->", "", "", "é\t日", "\u00a0\tx", "[a](\t/u\t)", "*\ta*", "**a\t**"])


def tabby(r):
    ls = []
    for _ in range(r.randint(1, 6)):
        if ls and r.random() < .15:
            ls.append(r.choice(["", "\t", " \t", "  "]))
        elif ls and r.random() < .3:
            m = PRE.match(ls[-1]).group()
            ls.append(re.sub("[-+*0-9.)]", " ", m) + r.choice(["", "\t", " ", "  "]) + r.choice(["a", "b", "\tc", "d\te", "- x", "-\tx"]))
        else:
            ls.append(line(r))
    return "\n".join(ls)


def retab(r, s):
    """Replace runs of leading spaces by tabs where the columns agree."""
    out = []
    for ln in s.split("\n"):
        m = re.match("[ >*+-]*", ln).group()
        p = ln[:len(m)].expandtabs(4)
        q, col = "", 0
        while col < len(p):
            k = 4 - col % 4
            seg = p[col:col + k]
            j = len(seg.rstrip(" "))
            if len(seg) == k and j < k and (r.random() < .7):
                q += seg[:j] + "\t"
            else:
                q += seg
            col += k
        out.append(q + ln[len(m):])
    return "\n".join(out)


def BIG(text):
    return text


def gens(c):
    return [(5, "tabby", tabby), (2, "retabbed", lambda r: retab(r, G.document(r))), (1.5, "soup", G.block_soup), (.7, "any", lambda r: G.any_doc(r, sut.REPO)), (.5, "lists", lambda r: retab(r, "\n".join(G.a_list(r, 3)))),
            (.6, "spec", lambda r: retab(r, G.spec_mutant(r)))]


def loosely(d):
    """Structure and text, whitespace collapsed, code and HTML block text left out."""
    t = d["t"]
    if t in ("code_block", "html_block"):
        r = {k: v for k, v in d.items() if k != "s"}
        if "info" in r:
            r["info"] = re.sub("[ \t]+", " ", r["info"]).strip(" ")
        r["words"] = re.sub("[ \t]+", "", d["s"]).strip("\n")
        return r
    r = {k: v for k, v in d.items() if k != "c"}
    for k in ("s", "title"):
        if k in r:
            r[k] = re.sub("[ \t]+", " ", r[k])
    if t == "code":
        r["s"] = r["s"].strip(" ")
    if "c" in d:
        r["c"] = [loosely(x) for x in d["c"]]
    return r


def exact(d):
    """What tabs can change: every text, whatever the inline constructs."""
    t = d["t"]
    if t in ("paragraph", "heading"):
        return {"t": t, "text": proj.flat_text(d)}
    r = {k: v for k, v in d.items() if k not in ("c", "tight")}
    if "c" in d:
        r["c"] = [exact(x) for x in d["c"]]
    return r


def check(case, c):
    if isinstance(case, dict):
        for t in docs_of(case):
            d = one(t, c)
            if d:
                return "%s (document %r)" % (d, t)
        return
    return one(case.replace("\r", ""), c)


def one(text, c):
    e = expand(text, c)
    a = sut.tree(text)
    if e != text:
        b = sut.tree(e)
        c.count("expanded")
        d = canon.first_diff(loosely(a), loosely(b))
        if d:
            return "expanding the leading tabs changes the document: " + d
    elif "\t" not in text:
        c.trivial = True
    m = M.parse(text)
    if proj.skeleton_kinds(a) != proj.skeleton_kinds(m):
        if e != text and proj.skeleton_kinds(M.parse(e)) == proj.skeleton_kinds(m) and "\t" in text and proj.skeleton_kinds(sut.tree(e)) == proj.skeleton_kinds(m):
            return "block structure: " + str(canon.first_diff(proj.skeleton_kinds(a), proj.skeleton_kinds(m)))
        c.count("skipped: different constructs recognised")
        return
    for x, y in zip(proj.verbatim(a), proj.verbatim(m)):
        if x["t"] in ("code_block", "html_block") and y["t"] == x["t"]:
            c.count("code compared")
            c.count("tabs kept in code", x["s"].count("\t"))
    for x, y in zip(blocks(a), blocks(m)):
        if x["t"] in ("code_block", "html_block"):
            if x["s"] != y["s"]:
                return "text of the %s is %r, expected %r" % (x["t"], x["s"], y["s"])
            if re.match(" {1,3}\t| {1,3}[^ ]", x["s"]) and "\t" in text:
                c.count("partial tabs")
        elif kinds(x) == kinds(y):
            s, t = proj.flat_text(x), proj.flat_text(y)
            if "\t" in t or "\t" in s:
                c.count("tabs in text")
            if s != t:
                return "text of the %s is %r, expected %r" % (x["t"], s, t)


def blocks(d):
    return [x for x in canon.walk(d) if x["t"] in ("paragraph", "heading", "code_block", "html_block")]


def kinds(d):
    return [x["t"] for x in canon.walk(d)]
