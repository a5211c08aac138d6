import random
import re

import canon
import gen as G
import refmodel as M
import sut

ID = "C19"
TECHNIQUE = "metamorphic monitor: a document alone, inside block quotes, inside list items, and next to another document"
QUICK = (2600, 45)
THOROUGH = (300000, 1200)
guided = False
RULE = ("Documents of every kind without tabs, wrapped in '> ', in items with six kinds of marker, twice over in random nestings, and set next to another document with a block between. The wrapped trees and pages must "
        "contain the trees and pages of the parts unchanged. Non-trivial: the document has at least one block.")
REQUIRE = {"quoted": 10000, "itemised": 8000, "nested wraps": 10000, "concatenated": 7000, "blocks": 40000, "shared definitions": 2000, "pages": 15000}
ASSUMPTIONS = ["tabs are left out: a prefix moves them to other columns", "an item is built only from a document whose first line begins with a character other than a space", "the model decides whether a document is still open at its end (an unclosed fence or HTML block)"]
MARKERS = ["+ ", "1. ", "12) ", "0.  ", "+   ", "999999999) "]


def clean(s):
    return re.sub("[\t\r]", " ", s)


def anydoc(r):
    k = r.random()
    if k < .45:
        return clean(G.document(r))
    if k < .65:
        return clean(G.block_soup(r))
    if k < .8:
        return clean(G.spec_mutant(r))
    return clean(G.any_doc(r, sut.REPO))


def case(r):
    return {"a": anydoc(r), "b": anydoc(r), "k": r.randrange(1 << 30)}


def BIG(text):
    return {"a": text, "b": "b\n", "k": len(text)}


def gens(c):
    return [(1, "documents", case)]


def enumerate_(c):
    for i, s in enumerate(G.SPEC_MD):
        s = clean(s)
        for j in range(6 if c.thorough else 2):
            yield {"a": s, "b": clean(G.SPEC_MD[(i * 31 + j * 7 + c.seed) % len(G.SPEC_MD)]), "k": i * 6 + j}


def quote(lines, r=None):
    return ["> " + x for x in lines]


def item(lines, m, r):
    ind = " " * len(m)
    return [m + lines[0]] + [ind + x if x or r.random() < .4 else x for x in lines[1:]]


def can_item(lines):
    return lines and lines[0] and lines[0][0] != " "


def check(case, c):
    if not isinstance(case.get("k"), int):
        return None
    r = random.Random(case["k"])
    a = clean(case["a"])
    if a.endswith("\n"):
        a = a[:-1]                      # the lines of the document, without the end of the last
    lines = a.split("\n")
    a += "\n"
    ta = sut.tree(a)
    c.trivial = not ta["c"]
    c.count("blocks", len(ta["c"]))
    # quote
    q = "\n".join(quote(lines)) + "\n"
    tq = sut.tree(q)
    c.count("quoted")
    want = {"t": "document", "c": [{"t": "block_quote", "c": ta["c"]}]}
    d = canon.first_diff(tq, want)
    if d:
        return "quoted: observed vs expected at %s (%r)" % (d, q[:300])
    ha = sut.html(a)
    if page(sut.html(q)) != page("<blockquote>\n" + ha + "</blockquote>\n"):
        return "the page of the quoted document %r does not hold the document's page" % q[:300]
    c.count("pages")
    # item
    if can_item(lines):
        m = r.choice(MARKERS)
        s = "\n".join(item(lines, m, r)) + "\n"
        ts = sut.tree(s)
        c.count("itemised")
        d = in_item(ts, ta["c"], m)
        if d:
            return "as the item of %r: observed vs expected at %s (%r)" % (m, d, s[:300])
    # random nesting of both
    ls, wraps = lines, []
    for _ in range(r.randint(2, 4)):
        if r.random() < .5 or not can_item(ls):
            ls = quote(ls)
            wraps.append(">")
        else:
            m = r.choice(MARKERS)
            ls = item(ls, m, r)
            wraps.append(m)
    t = sut.tree("\n".join(ls) + "\n")
    c.count("nested wraps")
    kids = t["c"]
    for w in reversed(wraps):
        if w == ">":
            if len(kids) != 1 or kids[0]["t"] != "block_quote":
                return "wrapped as %s: %r where the block quote should be (%r)" % (wraps, [k["t"] for k in kids], "\n".join(ls)[:300])
            kids = kids[0]["c"]
        else:
            if len(kids) != 1 or kids[0]["t"] != "list" or len(kids[0]["c"]) != 1:
                return "wrapped as %s: %r where the list should be (%r)" % (wraps, [k["t"] for k in kids], "\n".join(ls)[:300])
            kids = kids[0]["c"][0]["c"]
    d = canon.first_diff({"t": "content", "c": kids}, {"t": "content", "c": ta["c"]})
    if d:
        return "wrapped as %s: observed vs expected at %s (%r)" % (wraps, d, "\n".join(ls)[:300])
    return concat(a, clean(case["b"]), r, c)


def in_item(t, kids, m):
    ordered = m[0] != "+"
    l = t["c"][0] if t["c"] else {}
    want = {"t": "document", "c": [{"t": "list", "ordered": ordered, "mark": m.strip()[-1], "start_no": int(m.strip()[:-1]) if ordered else None, "tight": l.get("tight"), "c": [{"t": "item", "c": kids}]}]}
    return canon.first_diff(t, want)


def page(h):
    return re.sub("\n+", "\n", h)


BARRIERS = ["# barrier", "***", "barrier", "<!-- barrier -->", "```\nbarrier\n```", "Barrier\n==="]
DEFS = "[foo]: /def1 \"t1\"\n[bar]: /def2\n\n[x y]: <d 3>\n\n"


def concat(a, b, r, c):
    pre = ""
    _, ra, pa = M.parse_full(a)
    _, rb, pb = M.parse_full(b)
    if ra or rb:
        return None
    if r.random() < .4:
        pre = DEFS
        c.count("shared definitions")
    bar = r.choice(BARRIERS)
    # is a closed at its end?
    ma = M.parse(pre + a)
    mb = M.parse(pre + a + "\n\n" + bar + "\n")
    bm = M.parse(bar)["c"]
    if len(mb["c"]) != len(ma["c"]) + 1 or shape(mb["c"][-1:]) != shape(bm) or shape(mb["c"][:-1]) != shape(ma["c"]):
        c.count("left open")
        return None
    ta, tb, tm = sut.tree(pre + a), sut.tree(pre + b), sut.tree(bar)
    s = pre + a + "\n\n" + bar + "\n\n" + b
    t = sut.tree(s)
    c.count("concatenated")
    d = canon.first_diff(t, {"t": "document", "c": ta["c"] + tm["c"] + tb["c"]})
    if d:
        return "concatenated: observed vs expected at %s (%r)" % (d, s[:400])
    c.count("pages")
    if page(sut.html(s)) != page(sut.html(pre + a) + sut.html(bar) + sut.html(pre + b)):
        return "the page of the concatenation is not the concatenation of the pages (%r)" % s[:400]


def shape(x):
    if isinstance(x, list):
        return [shape(y) for y in x]
    return {"t": x["t"], "s": x.get("s"), "c": [shape(y) for y in x.get("c", ())]}
