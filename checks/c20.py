import re

import canon
import gen as G
import refmodel as M
import sut

ID = "C20"
TECHNIQUE = "position monitor: every block's range against the lines that made it (reference model), its parent, its siblings and the document; data-sourcepos against the tree"
QUICK = (6000, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Documents of every kind. Each block must start exactly where the model says its first character or marker is, end at the end of a line not before the last line that holds its text, lie inside the document and its parent and not "
        "overlap its siblings; the page rendered with sourcepos must carry exactly the tree's positions. Non-trivial: at least two blocks below the document.")
REQUIRE = {"blocks": 150000, "documents compared": 30000, "data-sourcepos": 60000, "multi-line blocks": 30000, "nested blocks": 50000, "ends after blank lines": 2000}
ASSUMPTIONS = ["a block may end on a blank line after its text, as in every reference implementation", "lib/refmodel.py states which lines make a block"]
B = canon.BLOCKS


def BIG(text):
    return text


def gens(c):
    return [(3, "document", G.document), (3, "block_soup", G.block_soup), (2, "spec", G.spec_mutant), (1, "any", lambda r: G.any_doc(r, sut.REPO)), (1, "mutated", lambda r: G.mutate(r, G.document(r))), (.6, "links", G.link_doc),
            (.6, "endings", lambda r: re.sub("\n", lambda m: r.choice(["\n", "\r\n", "\r"]), G.document(r))), (.4, "trailing", lambda r: r.choice([G.document, G.block_soup])(r) + r.choice(["\n\n", "\n \n", "\n\n\n\n", " ", "\n\t", "\r\n\r\n"]))]


def enumerate_(c):
    # every pair of constructs, apart, adjacent and nested
    parts = ["a\nb", "# h", "h\n===", "***", "```\nc\n\nd\n```", "```\nopen", "    i\n\n    j", "<div>\nx", "<!-- c\n\n-->", "- l\n  m", "1. n\n\n   o", "> q\nlazy", "[f]: /u\n't'", "[f]: /u\ntext", "-", "> ", "- > x\n  > y", "  three", "\tt", "~~~\n~~~"]
    for a in parts:
        for b in parts:
            for s in (a + "\n" + b, a + "\n\n" + b, a + "\n\n\n" + b + "\n\n", "> " + a.replace("\n", "\n> ") + "\n\n" + b, "- " + a.replace("\n", "\n  ") + "\n- " + b.replace("\n", "\n  "), "1.  " + a.replace("\n", "\n    ") + "\n\n" + b):
                yield s


def inside(x, y, par, lines, c):
    """Monitors of one block: x observed, y by the model."""
    (sl, sc), (el, ec) = x["pos"]
    t = x["t"]
    n = max(1, len(lines))
    c.count("blocks")
    if [sl, sc] != list(y["start"]):
        return "%s starts at %d:%d, its first character is at %d:%d" % (t, sl, sc, y["start"][0], y["start"][1])
    if el < y["last"]:
        return "%s at %d:%d ends on line %d, its text on line %d" % (t, sl, sc, el, y["last"])
    if not (1 <= sl <= n) or not el <= n:
        return "%s has the range %s in a document of %d lines" % (t, x["pos"], len(lines))
    if ec != (len(lines[el - 1]) if lines else 0):
        return "%s ends at %d:%d, a line of %d characters" % (t, el, ec, len(lines[el - 1]) if lines else 0)
    if par and ([sl, sc] < par[0] or [el, ec] > par[1]):
        return "%s %s is not inside its parent %s" % (t, x["pos"], par)
    if el < sl:
        return "%s ends before it starts: %s" % (t, x["pos"])
    if el > sl:
        c.count("multi-line blocks")
    if el > y["last"]:
        c.count("ends after blank lines")
    kx = [k for k in x.get("c", ()) if k["t"] in B]
    ky = [k for k in y.get("c", ()) if k["t"] in B]
    prev = None
    for p, q in zip(kx, ky):
        if prev is not None and not prev[1] < p["pos"][0]:
            return "%s %s begins before the block before it has ended, %s" % (p["t"], p["pos"], prev)
        prev = p["pos"]
        if t != "document":
            c.count("nested blocks")
        d = inside(p, q, x["pos"], lines, c)
        if d:
            return d


def same(x, y):
    kx = [k for k in x.get("c", ()) if k["t"] in B]
    ky = [k for k in y.get("c", ()) if k["t"] in B]
    return x["t"] == y["t"] and len(kx) == len(ky) and all(same(p, q) for p, q in zip(kx, ky))


NAMES = {"paragraph": "p", "block_quote": "blockquote", "item": "li", "thematic_break": "hr", "code_block": "code"}


def expected_attrs(n, out):
    t = n.t
    if t != "document" and t in B and t != "html_block":
        gp = n.parent.parent
        if not (t == "paragraph" and gp is not None and gp.t == "list" and gp.list_data["tight"]):
            name = NAMES.get(t) or ("h%d" % n.level if t == "heading" else "ul" if n.list_data["type"] == "bullet" else "ol")
            out.append((name, "%d:%d-%d:%d" % (n.sourcepos[0][0], n.sourcepos[0][1], n.sourcepos[1][0], n.sourcepos[1][1])))
    k = n.first_child
    while k is not None:
        if k.t in B:
            expected_attrs(k, out)
        elif k.t == "html_inline":
            k.literal = ""
        elif k.first_child:
            expected_attrs(k, out)
        if k.t == "html_block":
            k.literal = ""
        k = k.nxt


def check(text, c):
    doc = sut.parse(text)
    a = canon.canon(doc, True)
    b = M.parse(text, pos=True)
    c.trivial = len(a["c"]) < 2 and not (a["c"] and a["c"][0].get("c") and a["c"][0]["c"][0]["t"] in B)
    for x in canon.walk(a):
        if x["t"] in B and "pos" not in x:
            return "%s has no position" % x["t"]
    if same(a, b):
        lines = re.split("\r\n|\n|\r", text)
        if text.endswith(("\n", "\r")) or lines == [""]:
            lines.pop()
        d = inside(a, b, None, lines, c)
        if d:
            return d
        c.count("documents compared")
    else:
        c.count("skipped: different blocks")
    want = []
    expected_attrs(doc, want)
    out = sut.HtmlRenderer({"sourcepos": True}).render(doc)
    got = re.findall(r'<(\w+)(?: (?!data-sourcepos)[a-z-]+="[^"]*")* data-sourcepos="([^"]*)"', out)
    c.count("data-sourcepos", len(got))
    if got != want:
        for i in range(max(len(got), len(want))):
            if got[i:i + 1] != want[i:i + 1]:
                return "data-sourcepos #%d is %s, the tree has %s" % (i, got[i:i + 1], want[i:i + 1])
    if "data-sourcepos" in sut.HtmlRenderer().render(doc):
        if "data-sourcepos" not in text:
            return "data-sourcepos without the option"
