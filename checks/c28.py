import json
import re

import c10
import c21
import c22
import gen as G
import htmlev as H
import sut
from c15 import full
from commonmark.render.renderer import Renderer

ID = "C28"
TECHNIQUE = "rebuilding, part-wise and logging monitors on trees edited by random programs: equal trees render alike, pages are read back and compared with the tree"
QUICK = (1200, 90)
THOROUGH = (150000, 1200)
RULE = ("A parsed document or an empty one is edited by a random program (move, remove, insert, wrap, copy, change a value; blocks stay where blocks belong and inlines where inlines do; custom nodes with their own markup). "
        "An equal tree is then built from fresh nodes in another order and every renderer and the JSON dump must give the same for both; the page is read by the strict tokenizer and compared with the tree; a container's page must be "
        "that of its parts; a subclass that only records must be called once per walker event and change nothing; no node may change. Non-trivial: at least 4 nodes after the edits.")
REQUIRE = {"trees": 5000, "rebuilt nodes": 60000, "pages read": 5000, "parts": 15000, "visits": 100000, "custom nodes": 1500, "edits": 30000, "reStructuredText layouts": 1000, "visitors": 5000, "hostile values": 3000, "texts split": 20000}
ASSUMPTIONS = ["the values a node needs are set (a destination for a link, a literal for a text, list data for a list)", "raw markup of custom nodes is the caller's business"]

INL = {"text", "softbreak", "linebreak", "code", "html_inline", "emph", "strong", "link", "image", "custom_inline"}
INLC = {"emph", "strong", "link", "image", "custom_inline"}
BLK = {"block_quote", "list", "paragraph", "heading", "thematic_break", "code_block", "html_block", "custom_block"}
HOLDS = {"document": "b", "block_quote": "b", "item": "b", "custom_block": "b", "list": "i", "paragraph": "t", "heading": "t",
         "emph": "t", "strong": "t", "link": "t", "image": "t", "custom_inline": "t"}
VALUES = ["", "a", "x y", "<b>", "\"", "&", "&amp;", "'", "a\"b<c>&d", "é", "\U0001d4ab", "-->", "]]>", "`", "*", "\\", "javascript:a", "/u?a=b&c=d", "&lt;", "\u2028", "<!--", "%22", "%", "\u00a0", "a  b"]
LINES = ["x\ny", "y", "x", "a\nb\nc", "y\ny", "b\nc", "x\n y"]


def kind(n):
    return "t" if n.t in INL else "i" if n.t == "item" else "b"


def kids(n):
    return c21.kids(n)


def below(root):
    out, st = [], [root]
    while st:
        n = st.pop()
        out.append(n)
        st.extend(reversed(kids(n)))
    return out


def listdata(k):
    o = k % 3
    return {"type": "ordered" if o else "bullet", "tight": k % 2 == 0, "start": [1, 7, 0, 123456789, 2][k % 5] if o else None,
            "delimiter": [None, "period", "paren"][o], "bullet_char": None if o else "*", "padding": 2, "marker_offset": 0}


def fill(n, k, c):
    """Give a fresh node the values its type needs."""
    v = VALUES[k % len(VALUES)]
    t = n.t
    if k % len(VALUES) > 2:
        c.count("hostile values")
    if t in ("text", "code", "code_block", "html_inline", "html_block"):
        n.literal = v if t != "text" or k // 3 % 3 else LINES[k // 9 % len(LINES)]
        if t == "code_block":
            n.literal = [v, v + "\n", v + "\n\n " + v + "\n", ""][k // 7 % 4]
            n.info = VALUES[k // 5 % len(VALUES)] if k % 2 else None
            n.is_fenced = k // 3 % 2 == 1
    elif t in ("link", "image"):
        n.destination = v
        n.title = VALUES[k // 5 % len(VALUES)] if k % 2 else None
    elif t == "heading":
        n.level = 1 + k % 6
    elif t == "list":
        n.list_data = listdata(k)
    elif t == "item":
        n.list_data = listdata(k)
    return n


def copy(n):
    m = sut.Node(n.t, json.loads(json.dumps(n.sourcepos)))
    for f in ("literal", "info", "destination", "title", "level", "is_fenced", "on_enter", "on_exit"):
        setattr(m, f, getattr(n, f))
    m.list_data = dict(n.list_data)
    return m


def rebuild(root, seed, c):
    """An equal tree of fresh nodes, put together in an order of its own."""
    new = {id(n): copy(n) for n in below(root)}
    order = below(root)
    if seed % 2:
        order = order[::-1]
    for n in order:
        p, ks = new[id(n)], [new[id(k)] for k in kids(n)]
        c.count("rebuilt nodes")
        how = (seed >> 1) % 4
        if how == 0:
            for k in ks:
                p.append_child(k)
        elif how == 1:
            for k in reversed(ks):
                p.prepend_child(k)
        elif ks:
            mid = (seed >> 3) % len(ks)
            p.append_child(ks[mid])
            for k in reversed(ks[mid + 1:]):
                ks[mid].insert_after(k)
            for k in ks[:mid]:
                ks[mid].insert_before(k)
            if how == 3:
                # there and back
                ks[0].unlink()
                p.prepend_child(ks[0])
                p.append_child(ks[-1])
    return new[id(root)]


def put(n, p, j):
    """Insert n as a child of p, somewhere."""
    ks = [k for k in kids(p) if k is not n]
    j %= 2 * len(ks) + 2
    if not ks or j == 0:
        p.append_child(n)
    elif j == 1:
        p.prepend_child(n)
    elif j % 2:
        ks[(j - 2) // 2].insert_after(n)
    else:
        ks[(j - 2) // 2].insert_before(n)


NEW = ["text", "emph", "code", "link", "paragraph", "strong", "image", "softbreak", "heading", "list", "block_quote", "code_block", "custom_inline", "linebreak", "thematic_break", "custom_block", "html_block", "html_inline", "item", "text"]
CHANGED = {"text", "code", "code_block", "html_inline", "html_block", "link", "image", "heading", "list"}


def edit(root, o, a, b, c):
    ns = below(root)
    n = ns[a % len(ns)]
    if o == 0:                                          # move
        if n is root:
            return
        own = set(map(id, below(n)))
        ps = [p for p in ns if HOLDS.get(p.t) == kind(n) and id(p) not in own]
        if ps:
            put(n, ps[b % len(ps)], b // 7)
    elif o == 1:                                        # remove
        if n is not root:
            n.unlink()
    elif o == 2:                                        # new
        m = fill(sut.Node(NEW[b % len(NEW)], [[[1, 1], [2, 3]], None][b % 2]), b // 20, c)
        ps = [p for p in ns if HOLDS.get(p.t) == kind(m)]
        if ps:
            put(m, ps[a % len(ps)], b // 3)
    elif o == 3:                                        # change values
        n = ([x for x in ns if x.t in CHANGED] or [root])
        n = n[a % len(n)]
        if n.t in CHANGED:
            fill(n, b, c)
    elif o == 4:                                        # wrap
        if n is root or n.t == "item":
            return
        ts = ["emph", "strong", "link", "custom_inline", "image"] if kind(n) == "t" else ["block_quote", "custom_block", "list"]
        m = fill(sut.Node(ts[b % len(ts)], None), b, c)
        n.insert_before(m)
        if m.t == "list":
            i = fill(sut.Node("item", None), b, c)
            m.append_child(i)
            m = i
        m.append_child(n)
    elif o == 5:                                        # copy a part
        if n is root or len(ns) > 400:
            return
        m = rebuild(n, b, c)
        ps = [p for p in ns if HOLDS.get(p.t) == kind(m)]
        put(m, ps[b % len(ps)], b // 7)
    elif o == 6:                                        # unwrap
        if n is not root and n.t in ("emph", "strong", "link", "custom_inline", "image", "block_quote", "custom_block"):
            for k in kids(n):
                n.insert_before(k)
            n.unlink()
    elif o == 8:                                        # the same text twice, or a line of it
        ts = [x for x in ns if x.t == "text"]
        if ts:
            n = ts[a % len(ts)]
            m = copy(n)
            ls = n.literal.split("\n")
            m.literal = ls[b % len(ls)] if b // 7 % 2 else n.literal
            (n.insert_after if b // 3 % 3 else n.insert_before)(m)
    elif o == 7:
        if n.t in ("paragraph", "heading") or n.t in INLC:
            n.normalize()


def in_image(n):
    p = n.parent
    while p is not None:
        if p.t == "image":
            return True
        p = p.parent
    return False


def state(root):
    return full(root), [id(n) for n in below(root)]


class Log(sut.HtmlRenderer):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = []


class LogRst(sut.ReStructuredTextRenderer):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = []


def logged(cls, t):
    inner = getattr(cls, t, None)

    def f(self, node, entering):
        self.seen.append((id(node), entering))
        if node.t != t:
            self.seen.append(("wrong method", t))
        if inner:
            return inner(self, node, entering)
    return f


class Visitor(Renderer):
    pass


def visit(t):
    def f(self, node, entering):
        self.lit(("<%s" if entering else ">%s") % t)
        if entering and node.literal:
            self.out(node.literal)
    return f


for _t in sorted(INL | BLK | {"document", "item"}):
    setattr(Log, _t, logged(sut.HtmlRenderer, _t))
    setattr(LogRst, _t, logged(sut.ReStructuredTextRenderer, _t))
    setattr(Visitor, _t, visit(_t))


def visited(n):
    out = ["<" + n.t + (n.literal or "")]
    if n.t in HOLDS:
        for k in kids(n):
            out.append(visited(k))
        out.append(">" + n.t)
    return "".join(out)


def events(n):
    out = [(id(n), True)]
    if n.t in HOLDS:
        for k in kids(n):
            out += events(k)
        out.append((id(n), False))
    return out


RO = c10.RO


def check(case, c):
    text, ops = case["text"], case["ops"]
    if re.search("[\ue000-\ue002]", text):
        c.skip("placeholder characters")
    h = c10.hash_(text + str(len(ops)))
    doc = sut.Parser({"smart": h % 3 == 0}).parse(text)
    for o, a, b in ops:
        edit(doc, o, a, b, c)
        c.count("edits")
    ns = below(doc)
    if len(ns) > 1500:
        c.skip("large")
    c.count("trees")
    c.trivial = len(ns) < 4
    for i, n in enumerate(ns):
        if n.t in ("custom_inline", "custom_block"):
            c.count("custom nodes")
            n.on_enter, n.on_exit = [("x", "y"), ("x", None), (None, "y"), (None, None)][i % (4 if n.t == "custom_inline" else 3)]
            if in_image(n):
                n.on_enter = n.on_exit = None
        elif n.t == "item" and n.parent.list_data.get("type") != n.list_data.get("type"):
            n.list_data = dict(n.parent.list_data)      # an item is of its list's type

    # ---- equal trees render alike
    twin = rebuild(doc, h, c)
    for o in (RO[0], RO[1 + h // 3 % 5]):
        x, y = sut.HtmlRenderer(dict(o)).render(doc), sut.HtmlRenderer(dict(o)).render(twin)
        if x != y:
            return "options %s: %r for the edited tree, %r for an equal new one" % (o, x, y)
    page = sut.HtmlRenderer().render(doc)
    x, y = sut.ReStructuredTextRenderer().render(doc), sut.ReStructuredTextRenderer().render(twin)
    if x != y:
        return "reStructuredText: %r for the edited tree, %r for an equal new one" % (x, y)
    # a text in pieces, and put together again
    rt = y
    for k, n in enumerate(below(twin)):
        if n.t == "text" and len(n.literal or "") > 1:
            lit = n.literal
            j = 1 + (h + 7 * k) % (len(lit) - 1)
            n.literal = lit[:j]
            m = sut.Node("text", None)
            m.literal = lit[j:]
            n.insert_after(m)
            c.count("texts split")
    for how in ("split", "put together again"):
        x = sut.HtmlRenderer().render(twin)
        if re.sub("\n+", "\n", x) != re.sub("\n+", "\n", page):
            return "%r, with its texts %s %r" % (page, how, x)
        x = sut.ReStructuredTextRenderer().render(twin)
        if x != rt:
            return "reStructuredText %r, with its texts %s %r" % (rt, how, x)
        if how == "split":
            twin.normalize()
    twin = rebuild(doc, h, c)
    for n in ns:
        if n.string_content and n.t in INL | BLK:
            n.string_content = ""
    st0 = state(doc)
    x, y = sut.dumpJSON(doc), sut.dumpJSON(twin)
    if x != y:
        return "JSON: %r for the edited tree, %r for an equal new one" % (x, y)
    d = c21.compare(doc, json.loads(x), c)
    if d:
        return d

    # ---- parts
    for n in ns:
        ks = kids(n)
        if n.t in ("document", "block_quote", "list", "emph", "strong") and ks and len(ks) < 60 and not in_image(n):
            whole = sut.HtmlRenderer().render(n)
            r = sut.HtmlRenderer()
            parts = [r.render(k) for k in ks]
            c.count("parts", len(ks))
            g = {"document": "", "block_quote": "blockquote", "emph": "em", "strong": "strong", "list": "ul" if n.list_data.get("type") == "bullet" else "ol"}[n.t]
            nl = "\n" if n.t in ("block_quote", "list") else ""
            body = "".join(parts)
            if n.t in ("document", "block_quote", "list"):
                # where a block begins a line
                want = ""
                for q in parts:
                    if want and not want.endswith("\n") and q:
                        want += "\n"
                    want += q
                body = want + ("\n" if g and want and not want.endswith("\n") else "")
            if g:
                m = re.match("<%s(?: start=\"[0-9]+\")?>%s" % (g, nl), whole)
                end = "</%s>%s" % (g, nl)
                if not m or not whole.endswith(end):
                    return "%r is not the page of a %s" % (whole, n.t)
                whole = whole[m.end():len(whole) - len(end)]
            if whole != body:
                if n.t in ("document", "block_quote", "list") and any(k.t in ("paragraph", "custom_block") for k in ks):
                    squash = re.compile("\n+")
                    if squash.sub("", whole) == squash.sub("", body):
                        continue
                return "a %s is rendered as %r, its parts as %r" % (n.t, whole, parts)

    # ---- who is called
    ev = events(doc)
    r = Log()
    if r.render(doc) != page:
        return "a renderer that only records gives %r, not %r" % (r.render(doc), page)
    c.count("visits", len(ev))
    if r.seen[:len(ev)] != ev or len(r.seen) != len(ev):
        return "the renderer's methods were called %d times, the tree has %d events" % (len(r.seen), len(ev))
    r = LogRst()
    r.render(doc)
    if r.seen != ev:
        return "the reStructuredText renderer's methods were called %d times, the tree has %d events" % (len(r.seen), len(ev))
    x, y = Visitor().render(doc), visited(doc)
    c.count("visitors")
    if x != y:
        return "a renderer of one's own gives %r, the tree calls for %r" % (x, y)
    if state(doc) != st0:
        return "rendering or dumping changed the tree"

    # ---- custom nodes' markup, in its place
    for i, n in enumerate(ns):
        if n.t in ("custom_inline", "custom_block"):
            for f in ("on_enter", "on_exit"):
                if getattr(n, f):
                    setattr(n, f, "%s<%s%d%s" % (H.S, "B" if n.t == "custom_block" else "", i, H.E))

    # ---- the page, read back
    raw = {}
    for i, n in enumerate(ns):
        if n.t in ("html_inline", "html_block"):
            raw[id(n)] = i
            n.literal = "%s<%s%d%s" % (H.S, "B" if n.t == "html_block" else "", i, H.E)
    out = sut.HtmlRenderer().render(doc)
    custom = {}
    for i, n in enumerate(ns):
        if n.t in ("custom_inline", "custom_block"):
            b = "rawb" if n.t == "custom_block" else "raw"
            custom[id(n)] = ([(b, i)] if n.on_enter else [], [(b, i)] if n.on_exit else [])
    try:
        got = H.normal(H.read(out))
        want = H.normal(H.expect(doc, "\n", raw, custom=custom))
    except H.Bad as e:
        return "%s in %r" % (e, out)
    c.count("pages read")
    d = H.diff(got, want)
    if d:
        return "events of the page and the tree differ at %s" % d
    for i, n in enumerate(ns):
        if n.t == "custom_block" and n.on_enter:
            m = n.on_enter
            j = out.find(m)
            if j > 0 and out[j - 1] != "\n" or out[j + len(m)] != "\n":
                return "the markup of a custom block is not on a line of its own: %r" % out
    # ---- its layout in reStructuredText
    if not any(n.t in ("custom_inline", "custom_block", "html_inline") or
               n.t in ("paragraph", "heading", "item", "list", "block_quote", "image", "link") and not n.first_child or
               n.t == "code_block" and (not n.literal.strip() or not n.literal.endswith("\n")) or
               n.t in ("text", "code") and not n.literal.strip() or
               n.t == "document" and not n.first_child or
               n.t == "item" and n.first_child.t in ("html_block", "thematic_break") for n in ns):
        c.count("reStructuredText layouts")
        d = c22.layout(doc, c, " ")
        if d:
            return "reStructuredText: " + d + " in %r" % sut.ReStructuredTextRenderer().render(doc)


def program(r, text):
    w = [0, 0, 0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8]
    return {"text": text, "ops": [[r.choice(w), r.randrange(1 << 20), r.randrange(1 << 20)] for _ in range(r.choice([1, 2, 3, 5, 8, 13, 30]))]}


def gens(c):
    return [(3, "parsed", lambda r: program(r, G.any_doc(r, sut.REPO)[:500])), (3, "document", lambda r: program(r, G.document(r)[:500])),
            (2, "page", lambda r: program(r, c10.page(r)[:400])), (2, "nested", lambda r: program(r, "\n".join(c22.nested(r))[:500])),
            (2, "built", lambda r: program(r, ""))]
