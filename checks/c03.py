import itertools
import re

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C03"
TECHNIQUE = "reference-model monitor on list nodes and list HTML over enumerated and generated list documents"
QUICK = (3200, 40)
THOROUGH = (350000, 900)
guided = True
RULE = ("List documents (generated nestings, blank-line placements, markers, indents; every document of 1-4 lines over a set of list line forms). "
        "Grouping, marker, start number, nesting and tightness of every list are compared with the model's, item membership by following the words of "
        "each line, and looseness also in the rendered HTML. Non-trivial: the document has a list.")
REQUIRE = {"lists compared": 20000, "tight lists": 5000, "loose lists": 5000, "ordered lists": 3000, "items": 30000, "html compared": 5000}
ASSUMPTIONS = ["lib/refmodel.py states the list rules of CommonMark 0.29; where the text leaves tightness open (vanished reference definitions) either is accepted"]

BLANKS = re.compile(r"\n(?:[ \t]*\n)+")
LINES = ["", "- a", "- b", "  c", "   - d", "1. e", "2) f", "> g", "  > h", "-", "* i", "    j", "  ```", "  - k", "      l", "# m", "9. n", "- - o", "n", "  "]
EXHAUSTIVE_NOTE = "every document of 1-3 (quick) or 1-4 (thorough) lines over %d list line forms, and 4-5 line blank/item/continuation patterns" % len(LINES)
CORE = ["", "- a", "  b", "  - c", "    d", "> e"]


def enumerate_(c):
    for n in (1, 2, 3) + ((4,) if c.thorough else ()):
        for t in itertools.product(LINES, repeat=n):
            yield "\n".join(t)
    for n in (4, 5) + ((6,) if c.thorough else ()):
        for t in itertools.product(CORE, repeat=n):
            yield "- x\n" + "\n".join(t)


class W:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return "w%d" % self.n


def lists(r, depth=4, w=None, inert=True):
    w = w or W()
    out = []
    ordered = r.random() < .45
    num = r.choice([1, 1, 1, 0, 2, 7, 10, 99, 999999998, 123456789, 5])
    mk = r.choice(".)") if ordered else r.choice("-+*")
    base = r.choice([0, 0, 0, 0, 1, 2, 3])
    pblank = r.choice([0, 0, .1, .5, 1])
    zeros = r.choice(["", "", "", "0", "00"])
    for i in range(r.choice([1, 2, 2, 3, 3, 4, 6, 12])):
        if r.random() < .05:
            mk = r.choice(".)") if ordered else r.choice("-+*")
        if r.random() < .03:
            ordered = not ordered
            mk = r.choice(".)") if ordered else r.choice("-+*")
        m = (zeros + "%d%s" % (min(num + i, 999999999), mk)) if ordered else mk
        if r.random() < .1 and ordered:
            m = "%d%s" % (r.randint(0, 20), mk)
        pad = r.choice([1, 1, 1, 1, 1, 2, 3, 4, 5])
        base += r.choice([0, 0, 0, 0, 0, 0, 1, -1])
        base = max(0, base)
        body = item_body(r, depth - 1, w)
        wd = len(m) + (pad if pad < 5 else 1)
        if r.random() < .07:
            out.append(" " * base + m + r.choice(["", " ", "   "]))
            if r.random() < .2:
                out.append("")
            wd = len(m) + 1
            body = body if r.random() < .8 else []
        else:
            out.append(" " * base + m + " " * pad + body[0])
            body = body[1:]
        for x in body:
            drift = r.choice([0] * 12 + [-1, 1, 2, -2, 4])
            out.append(x if x == "" and r.random() < .8 else " " * max(0, base + wd + drift) + x)
        if r.random() < pblank:
            out += [""] * r.choice([1, 1, 1, 2, 3])
    return out


def item_body(r, depth, w):
    out = []
    for i in range(r.choice([1, 1, 1, 2, 2, 3])):
        k = r.random()
        if i and r.random() < .5:
            out += [""] * r.choice([1, 1, 2])
        if depth > 0 and k < .33:
            out += lists(r, depth, w)
        elif k < .7:
            out += [w() for _ in range(r.choice([1, 1, 2]))]
        elif k < .78:
            out += ["> " + x for x in (lists(r, depth - 1, w) if depth > 0 and r.random() < .5 else [w()])]
            if r.random() < .3:
                out.append(r.choice([">", "> "]))
        elif k < .84:
            out += ["```", w(), ""] + ([w()] if r.random() < .5 else []) + ["```"]
        elif k < .88:
            out += ["    " + w(), "", "    " + w()]
        elif k < .92:
            out.append("# " + w())
        elif k < .94:
            out.append("***")
        elif k < .97:
            out += ["<div>", w(), "</div>"]
        else:
            out += ["[%s]: /u" % w()]
    return out


def list_doc(r):
    out = []
    w = W()
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if r.random() < .2:
            out += [w()] + ([""] if r.random() < .5 else [])
        ls = lists(r, r.choice([1, 2, 3, 4]), w)
        if r.random() < .2:
            ls = ["> " + x for x in ls]
        out += ls
        if r.random() < .6:
            out += r.choice([[""], ["", ""], ["<!-- -->"], [w()], ["", w()], ["", "", w()]])
    s = "\n".join(out)
    if r.random() < .3:
        s = G.mutate(r, s, ["\n", "\n\n", " ", "  ", "- ", "1. ", "> ", "    ", "\t", "2. ", "* ", "-", "\n- ", "\n  "])
    return s


def long_list(r):
    w = W()
    n = r.choice([10, 20, 40, 80, 150])
    ordered = r.random() < .5
    k = r.randint(0, n)
    out = []
    for i in range(n):
        out.append(("%d. " % (i + 1) if ordered else "- ") + w())
        if i == k and r.random() < .8:
            out.append("")
        if r.random() < .05:
            out.append("   " + r.choice(["- ", "", "> "]) + w())
    return "\n".join(out)


def BIG(text):
    return text


def gens(c):
    return [(6, "list_doc", list_doc), (1, "block_soup", G.block_soup), (1, "document", G.document), (.7, "spec_mutant", G.spec_mutant),
            (.2, "long_list", long_list), (.5, "mined", lambda r: G.mined_doc(r, sut.REPO)), (.4, "any", lambda r: G.any_doc(r, sut.REPO))]


def check(text, c):
    a = sut.parse(text)
    ca = canon.canon(a)
    b = M.parse(text)
    n = 0
    for x in canon.walk(ca):
        if x["t"] == "list":
            n += 1
            c.count("tight lists" if x["tight"] else "loose lists")
            if x["ordered"]:
                c.count("ordered lists")
        elif x["t"] == "item":
            c.count("items")
    if not n:
        c.trivial = True
    canon.settle(ca, b)
    if not any(x["t"] == "list" for x in canon.walk(b)) and not n:
        return
    d = canon.first_diff(proj.listy(ca), proj.listy(b))
    if d:
        # lists are only judged where the surrounding blocks are not what differs
        la, lb = ([x for x in canon.walk(t) if x["t"] in ("list", "item")] for t in (ca, b))
        if proj.listdiff([only_list(x) for x in la], [only_list(x) for x in lb]):
            return "lists differ from the specification's: observed vs expected at " + d
        c.skip("other blocks differ")
    c.count("lists compared", n)
    if proj.inert(b):
        d = canon.first_diff(proj.squeeze(ca), proj.squeeze(b))
        if d:
            return "an item contains other lines: observed vs expected at " + d
        h, e = sut.HtmlRenderer().render(a), M.html(b)
        # (whether an HTML block keeps the blank lines at its end is not stated)
        if BLANKS.sub("\n", h) != BLANKS.sub("\n", e) and "%" not in h:
            return "list rendered as %r, expected %r" % (h, e)
        c.count("html compared")


def only_list(x):
    """A list or item with the kinds of what it directly contains."""
    r = {k: v for k, v in x.items() if k != "c"}
    r["c"] = [k["t"] for k in x["c"]]
    return r
