import re

import gen as G
import htmlev as H
import sut

ID = "C13"
TECHNIQUE = "structural invariant monitor on every returned tree, event-sequence monitor on its walker, before/after monitor on normalize()"
QUICK = (7000, 45)
THOROUGH = (400000, 1200)
guided = True
RULE = ("Random, structured, spec-derived and coverage-kept documents, smart on and off. Every node's links are checked against its neighbours', its type against its parent's, its fields against its type; the walker's events are "
        "compared with a recursive traversal of the child links; normalize() is compared with merging adjacent texts. Non-trivial: the tree has at least 3 nodes.")
REQUIRE = {"nodes": 500000, "trees": 40000, "walker events": 500000, "subtree walks": 20000, "texts merged by normalize": 50000, "links": 10000, "items": 10000, "images": 2000}
ASSUMPTIONS = ["an autolink inside a link is still produced by every reference implementation and is accepted"]

BLOCK = {"document", "block_quote", "list", "item", "heading", "paragraph", "thematic_break", "code_block", "html_block"}
INLINE = {"text", "softbreak", "linebreak", "code", "html_inline", "emph", "strong", "link", "image"}
CONTAINER = {"document", "block_quote", "list", "item", "heading", "paragraph", "emph", "strong", "link", "image"}
HOLDS = {"document": BLOCK - {"document", "item"}, "block_quote": BLOCK - {"document", "item"}, "item": BLOCK - {"document", "item"}, "list": {"item"}, "heading": INLINE, "paragraph": INLINE, "emph": INLINE, "strong": INLINE,
         "link": INLINE, "image": INLINE}


def BIG(text):
    return text


def gens(c):
    return [(2, "any", lambda r: G.any_doc(r, sut.REPO)), (2, "document", G.document), (2, "block_soup", G.block_soup), (2, "inline_soup", G.inline_soup), (1.5, "links", G.link_doc), (1, "emph", G.emph), (1, "spec", G.spec_mutant),
            (.3, "unicode", G.rand_unicode), (.3, "big", lambda r: "\n\n".join(G.any_doc(r, sut.REPO) for _ in range(8)))]


def kids(n):
    out = []
    k = n.first_child
    seen = set()
    while k is not None:
        if id(k) in seen:
            raise Broken("sibling links of %r go in a circle" % n)
        seen.add(id(k))
        out.append(k)
        k = k.nxt
    return out


class Broken(Exception):
    pass


def collect(doc):
    """All nodes in document order, with the links and types checked."""
    if doc.t != "document" or doc.parent is not None or doc.nxt is not None or doc.prv is not None:
        raise Broken("the root is %r with outer links" % doc)
    order, seen = [], set()
    st = [(doc, 0)]
    while st:
        n, _ = st.pop()
        if id(n) in seen:
            raise Broken("%r is in the tree twice" % n)
        seen.add(id(n))
        order.append(n)
        ks = kids(n)
        if n.t not in BLOCK | INLINE:
            raise Broken("unknown node type %r" % n.t)
        if ks and n.t not in CONTAINER:
            raise Broken("leaf %r has children" % n)
        if (n.first_child, n.last_child) != ((ks[0], ks[-1]) if ks else (None, None)):
            raise Broken("first/last child of %r are %r/%r" % (n, n.first_child, n.last_child))
        for i, k in enumerate(ks):
            if k.parent is not n:
                raise Broken("parent of %r is %r, not %r" % (k, k.parent, n))
            if k.prv is not (ks[i - 1] if i else None):
                raise Broken("previous sibling of %r is %r" % (k, k.prv))
            if k.t not in HOLDS[n.t]:
                raise Broken("%s inside %s" % (k.t, n.t))
        st.extend((k, 0) for k in reversed(ks))
        field(n)
    return order


def field(n):
    t = n.t
    if t in BLOCK and n.is_open:
        raise Broken("%r is left open" % n)
    if t in ("text", "code", "html_inline", "code_block", "html_block"):
        if not isinstance(n.literal, str):
            raise Broken("%s has the literal %r" % (t, n.literal))
    if t == "heading" and (type(n.level) is not int or not 1 <= n.level <= 6):
        raise Broken("heading level %r" % (n.level,))
    if t == "list" and not n.first_child:
        raise Broken("empty list")
    if t in ("list", "item"):
        ld = n.list_data
        if ld.get("type") not in ("bullet", "ordered"):
            raise Broken("%s of type %r" % (t, ld.get("type")))
        if ld["type"] == "ordered" and (not isinstance(ld.get("start"), int) or not 0 <= ld["start"] <= 999999999 or ld.get("delimiter") not in (".", ")")):
            raise Broken("ordered list data %r" % ld)
        if ld["type"] == "bullet" and (ld.get("bullet_char") not in ("-", "+", "*")):
            raise Broken("bullet list data %r" % ld)
    if t in ("link", "image"):
        if not isinstance(n.destination, str) or not isinstance(n.title, str):
            raise Broken("%s with destination %r and title %r" % (t, n.destination, n.title))
    if t == "link":
        p = n.parent
        while p is not None and p.t in INLINE:
            if p.t == "link" and not autolink(n):
                raise Broken("link in a link")
            p = p.parent
    if t in BLOCK and t != "document" and n.parent is None:
        raise Broken("no parent")


def autolink(n):
    k = n.first_child
    if k is None or k.nxt is not None or k.t != "text" or n.title:
        return False
    from urllib.parse import unquote
    a = unquote(n.destination.replace("mailto:", "", 1) if "@" in k.literal and not k.literal.startswith("mailto:") else n.destination, errors="replace")
    b = unquote(re.sub("[\ud800-\udfff]", "\ufffd", k.literal), errors="replace")
    return a == b or unquote(n.destination, errors="replace") == b


def expected_events(n):
    out = []
    st = [(n, True)]
    while st:
        x, e = st.pop()
        out.append((x, e))
        if e and x.t in CONTAINER:
            st.append((x, False))
            st.extend((k, True) for k in reversed(kids(x)))
    return out


def same_events(a, b):
    return len(a) == len(b) and all(x is y and e == f for (x, e), (y, f) in zip(a, b))


def check(text, c):
    n0 = len(text)
    doc = sut.Parser({"smart": True} if n0 % 3 == 0 else {}).parse(text)
    try:
        order = collect(doc)
        want = expected_events(doc)
    except Broken as e:
        return str(e)
    c.trivial = len(order) < 3
    c.count("trees")
    c.count("nodes", len(order))
    for x in order:
        if x.t == "link":
            c.count("links")
        elif x.t == "item":
            c.count("items")
        elif x.t == "image":
            c.count("images")
    limit = 2 * len(order) + 2
    # walking, three ways
    got = []
    w = doc.walker()
    ev = w.nxt()
    while ev is not None:
        got.append((ev["node"], bool(ev["entering"])))
        if len(got) > limit:
            return "the walker does not stop"
        ev = w.nxt()
    if not same_events(got, want):
        return "walker events %s" % where(got, want)
    got = []
    for x, e in doc.walker():
        got.append((x, bool(e)))
        if len(got) > limit:
            return "the walker's iterator does not stop"
    if not same_events(got, want):
        return "iterator events %s" % where(got, want)
    c.count("walker events", len(got))
    if w.nxt() is not None:
        return "a finished walker goes on"
    # subtrees
    for x in order[:: max(1, len(order) // 4)]:
        got = []
        for y, e in x.walker():
            got.append((y, bool(e)))
            if len(got) > limit:
                return "the walker of %r does not stop" % x
        if not same_events(got, expected_events(x)):
            return "walker events of %r %s" % (x, where(got, expected_events(x)))
        c.count("subtree walks")
    # resuming anywhere
    if order:
        k = (n0 * 7 + 3) % len(want)
        w = doc.walker()
        w.resume_at(*want[k])
        got = [(x, bool(e)) for x, e in w]
        if not same_events(got, want[k:]):
            return "after resume_at(%r, %r) %s" % (want[k][0], want[k][1], where(got, want[k:]))
    return normalize(doc, order, c)


def normalize(doc, order, c):
    before = sut.HtmlRenderer().render(doc), sut.ReStructuredTextRenderer().render(doc)
    opts = {"safe": True, "softbreak": "<br />", "sourcepos": True}
    before2 = sut.HtmlRenderer(dict(opts)).render(doc)
    want = {}
    for x in order:
        if x.t in CONTAINER:
            l = []
            for k in kids(x):
                if k.t == "text" and l and l[-1][1] is not None:
                    l[-1][1] += k.literal
                    c.count("texts merged by normalize")
                else:
                    l.append([k, k.literal if k.t == "text" else None])
            want[id(x)] = l
    doc.normalize()
    try:
        after = collect(doc)
    except Broken as e:
        return "after normalize(): %s" % e
    for x in after:
        if x.t in CONTAINER:
            ks = kids(x)
            if id(x) not in want:
                return "normalize() made %r" % x
            l = want[id(x)]
            if len(l) != len(ks):
                return "normalize() leaves %d children in %s, expected %d" % (len(ks), x.t, len(l))
            for k, (k0, s) in zip(ks, l):
                if s is None and k is not k0 or s is not None and (k.t != "text" or k.literal != s):
                    return "normalize() makes %r of %r" % (k, s if s is not None else k0)
    if (sut.HtmlRenderer().render(doc), sut.ReStructuredTextRenderer().render(doc)) != before or sut.HtmlRenderer(dict(opts)).render(doc) != before2:
        return "normalize() changes a rendering"


def where(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x is None or y is None or x[0] is not y[0] or x[1] != y[1]:
            return "#%d: %r, expected %r" % (i, x, y)
