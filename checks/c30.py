import canon
import c03
import c10
import c22
import gen as G
import sut

ID = "C30"
TECHNIQUE = "prefix monitor: the tree of every beginning of a document (cut after a line) against the tree of the whole"
QUICK = (420, 90)
THOROUGH = (60000, 1200)
guided = True
RULE = ("Documents of every kind are cut after each line (at most 40 cuts each), parsed and compared with the whole document's tree: every block that has a later sibling in the beginning's tree is finished and must be in the whole tree at the same place, "
        "with the same content and the same source position; the blocks that are last may grow, but only a paragraph may become something else. Inline content is compared where the document has no definition. Non-trivial: at least two finished blocks.")
REQUIRE = {"cuts": 15000, "finished blocks": 50000, "with inlines": 15000, "finished nested blocks": 8000, "open fences": 500}
ASSUMPTIONS = ["a definition further down changes what brackets mean, so documents with ]: are compared by blocks only", "tightness of a list is settled when the list ends"]
BLOCKS = canon.BLOCKS
GROW = {"document", "block_quote", "list", "item"}


def flat(x):
    """Without inline content."""
    out = {k: v for k, v in x.items() if k != "c"}
    if "c" in x:
        out["c"] = [flat(y) for y in x["c"]] if x["t"] in GROW else []
    return out


def compare(a, b, c, path="", depth=0):
    """a: the beginning's open block, b: the same in the whole document."""
    while True:
        ca, cb = a["c"], b["c"]
        for i in range(len(ca) - 1):
            c.count("finished blocks")
            if depth:
                c.count("finished nested blocks")
            if i >= len(cb):
                return "%s[%d] %s is gone" % (path, i, canon.short(ca[i]))
            d = canon.first_diff(ca[i], cb[i])
            if d:
                return "%s[%d] is finished and changes: before vs after at %s" % (path, i, d)
        if not ca:
            return
        i = len(ca) - 1
        if i >= len(cb):
            if ca[i]["t"] != "paragraph":
                return "%s[%d] %s is gone" % (path, i, canon.short(ca[i]))
            return
        x, y = ca[i], cb[i]
        if x["t"] == "paragraph":
            return
        if x["t"] != y["t"]:
            return "%s[%d]: a %s becomes a %s" % (path, i, x["t"], y["t"])
        if x.get("pos") and y.get("pos") and x["pos"][0] != y["pos"][0]:
            return "%s[%d]: the %s begins at %s, then at %s" % (path, i, x["t"], x["pos"][0], y["pos"][0])
        if x["t"] == "list" and (x["ordered"], x["mark"], x["start_no"]) != (y["ordered"], y["mark"], y["start_no"]):
            return "%s[%d]: the list changes from %s to %s" % (path, i, canon.short(x), canon.short(y))
        if x["t"] == "code_block" and x["fenced"]:
            c.count("open fences")
            if not y["s"].startswith(x["s"]) or x["info"] != y["info"] or not y["fenced"]:
                return "%s[%d]: the fenced code changes from %s to %s" % (path, i, canon.short(x), canon.short(y))
        if x["t"] in ("heading", "thematic_break"):
            d = canon.first_diff(x, y)
            if d:
                return "%s[%d] is finished and changes: before vs after at %s" % (path, i, d)
        if x["t"] not in GROW:
            return
        a, b, path, depth = x, y, "%s[%d]" % (path, i), depth + 1


def check(text, c):
    text = text.replace("\r", "\n").replace("\0", "x")
    lines = text.split("\n")
    if len(text) > 6000 or len(lines) > 400:
        c.skip("long")
    whole = canon.canon(sut.parse(text), True)
    defs = "]:" in text
    if defs:
        whole = flat(whole)
    n = len(lines)
    step = max(1, n // 40)
    before = c.counters["finished blocks"]
    for i in range(1, n, step):
        part = canon.canon(sut.parse("\n".join(lines[:i]) + "\n"), True)
        c.count("cuts")
        if defs:
            part = flat(part)
        else:
            c.count("with inlines")
        d = compare(part, whole, c)
        if d:
            return "the first %d lines: %s" % (i, d)
    c.trivial = c.counters["finished blocks"] < before + 2


def BIG(text):
    return text if len(text) < 6000 else None


def gens(c):
    return [(3, "document", G.document), (2, "block_soup", G.block_soup), (2, "lists", lambda r: "\n".join(c03.lists(r))), (1, "any", lambda r: G.any_doc(r, sut.REPO)),
            (1, "spec", lambda r: "\n\n".join(G.spec_mutant(r) for _ in range(r.randint(1, 4)))), (1, "nested", lambda r: "\n".join(c22.nested(r))),
            (1, "several", lambda r: r.choice(["\n", "\n\n", "\n***\n"]).join(G.document(r) for _ in range(3))), (.5, "page", c10.page)]
