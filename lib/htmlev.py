"""Strict reading of rendered HTML into events, and the events a tree stands for."""
import re

S, E = "\ue000", "\ue001"            # around the number of a raw HTML node
TAGS = {"p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "ul", "ol", "li", "pre", "code", "em", "strong", "a"}
VOID = {"hr", "br", "img"}
BLOCK = {"p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "ul", "ol", "li", "pre", "hr"}
ALLOWED = {"a": {"href", "title"}, "img": {"src", "alt", "title"}, "ol": {"start"}, "code": {"class"}}
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": "\""}
COMMENT = "<!-- raw HTML omitted -->"
TAG = re.compile(r'<(/?)([a-z][a-z0-9]*)((?: [a-z][a-z-]*="[^"]*")*)( /)?>')
ATTR = re.compile(r' ([a-z][a-z-]*)="([^"]*)"')
RAW = re.compile(S + "<(B?)([0-9]+)" + E)


class Bad(Exception):
    pass


def unesc(s, where, free=()):
    """The characters an escaped text stands for; anything unescaped is refused."""
    for f in free:
        s = s.replace(f, f.replace("<", "\x00L").replace(">", "\x00G"))
    if "<" in s or ">" in s or "\"" in s:
        raise Bad("unescaped < > or \" in %s: %r" % (where, s[:200]))

    def one(m):
        if m.group(1) not in ENT:
            raise Bad("unescaped & in %s: %r" % (where, s[max(0, m.start() - 30):m.start() + 30]))
        return ENT[m.group(1)]
    s = re.sub("&(?:([a-z]+);)?", one, s)
    return s.replace("\x00L", "<").replace("\x00G", ">") if free else s


def read(h, softbreak="\n"):
    """Events of the HTML h: ('s', tag, attrs), ('e', tag), ('v', tag, attrs), ('t', text), ('raw', n), ('comment',)."""
    ev = []
    stack = []
    pos = 0
    free = (softbreak,) if "<" in softbreak else ()
    while pos < len(h):
        ch = h[pos]
        if ch == S:
            m = RAW.match(h, pos)
            if m:
                ev.append(("rawb" if m.group(1) else "raw", int(m.group(2))))
                pos = m.end()
                continue
        if ch == "<":
            if h.startswith(COMMENT, pos):
                ev.append(("comment",))
                pos += len(COMMENT)
                continue
            m = TAG.match(h, pos)
            if not m:
                raise Bad("not a tag of the renderer: %r" % h[pos:pos + 80])
            close, tag, attrs, selfc = m.groups()
            pos = m.end()
            if close:
                if attrs or selfc or not stack or stack[-1] != tag:
                    raise Bad("end tag %r closes %r" % (m.group(), stack[-1:]))
                stack.pop()
                ev.append(("e", tag))
                continue
            d = {}
            for k, v in ATTR.findall(attrs):
                if k in d:
                    raise Bad("attribute %s twice in %r" % (k, m.group()))
                d[k] = unesc(v, "attribute " + k, free if k == "alt" else ())
            extra = set(d) - ALLOWED.get(tag, set()) - {"data-sourcepos"}
            if extra:
                raise Bad("attribute %s of <%s>" % (sorted(extra), tag))
            if tag in VOID:
                if not selfc:
                    raise Bad("void element %r is not self-closed" % m.group())
                ev.append(("v", tag, d))
            elif tag in TAGS:
                if selfc:
                    raise Bad("element %r is self-closed" % m.group())
                stack.append(tag)
                ev.append(("s", tag, d))
            else:
                raise Bad("unknown element %r" % m.group())
            continue
        j = pos
        while j < len(h) and h[j] != "<" and not (h[j] == S and RAW.match(h, j)):
            j += 1
        ev.append(("t", unesc(h[pos:j], "text")))
        pos = j
    if stack:
        raise Bad("never closed: %r" % stack)
    return ev


def alt(node, softbreak):
    """The text an image's content stands for."""
    out = []
    st = [node.first_child] if node.first_child else []
    for x in inorder(node):
        if x.t in ("text", "code", "html_inline"):
            out.append(x.literal)
        elif x.t == "softbreak":
            out.append(softbreak)
        elif x.t == "linebreak":
            out.append("\n")
    return "".join(out)


def inorder(node):
    k = node.first_child
    while k is not None:
        yield k
        yield from inorder(k)
        k = k.nxt


def expect(doc, softbreak="\n", raw=None, safe=False, custom=None):
    """Events the tree stands for; raw numbers HTML nodes by identity, custom gives a custom node's events at its ends."""
    ev = []

    def html(x, block):
        ev.append(("comment",) if safe else ("rawb" if block else "raw", raw[id(x)]))

    def kids(n):
        k = n.first_child
        while k is not None:
            go(k)
            k = k.nxt

    def go(n):
        t = n.t
        if t == "document":
            kids(n)
        elif t == "text":
            ev.append(("t", n.literal))
        elif t == "softbreak":
            if softbreak == "<br />":
                ev.append(("v", "br", {}))
            else:
                ev.append(("t", softbreak))
        elif t == "linebreak":
            ev.append(("v", "br", {}))
        elif t == "code":
            ev.append(("s", "code", {}))
            ev.append(("t", n.literal))
            ev.append(("e", "code"))
        elif t in ("emph", "strong"):
            g = "em" if t == "emph" else "strong"
            ev.append(("s", g, {}))
            kids(n)
            ev.append(("e", g))
        elif t == "link":
            a = {"href": n.destination}
            if n.title:
                a["title"] = n.title
            ev.append(("s", "a", a))
            kids(n)
            ev.append(("e", "a"))
        elif t == "image":
            a = {"src": n.destination, "alt": ALT(n)}
            if n.title:
                a["title"] = n.title
            ev.append(("v", "img", a))
        elif t == "html_inline":
            html(n, False)
        elif t == "html_block":
            html(n, True)
        elif t == "paragraph":
            gp = n.parent.parent
            tight = gp is not None and gp.t == "list" and gp.list_data["tight"]
            if not tight:
                ev.append(("s", "p", {}))
            kids(n)
            if not tight:
                ev.append(("e", "p"))
        elif t == "heading":
            ev.append(("s", "h%d" % n.level, {}))
            kids(n)
            ev.append(("e", "h%d" % n.level))
        elif t == "thematic_break":
            ev.append(("v", "hr", {}))
        elif t == "code_block":
            ev.append(("s", "pre", {}))
            ev.append(("s", "code", {"class": n.info} if n.info and n.info.strip() else {}))
            ev.append(("t", n.literal))
            ev.append(("e", "code"))
            ev.append(("e", "pre"))
        elif t == "block_quote":
            ev.append(("s", "blockquote", {}))
            kids(n)
            ev.append(("e", "blockquote"))
        elif t == "list":
            ld = n.list_data
            g = "ul" if ld["type"] == "bullet" else "ol"
            a = {}
            if g == "ol" and ld["start"] != 1:
                a["start"] = str(ld["start"])
            ev.append(("s", g, a))
            kids(n)
            ev.append(("e", g))
        elif t == "item":
            ev.append(("s", "li", {}))
            kids(n)
            ev.append(("e", "li"))
        elif custom is not None and t in ("custom_inline", "custom_block"):
            ev.extend(custom[id(n)][0])
            kids(n)
            ev.extend(custom[id(n)][1])
        else:
            raise Bad("node type " + t)

    def ALT(n):
        return re.sub("\n+", "\n", alt(n, softbreak))
    go(doc)
    return ev


def normal(ev, drop_pos=True):
    """Merge texts and drop the newlines next to block tags and after line breaks, which HTML ignores."""
    out = []
    for e in ev:
        if e[0] == "t":
            if not e[1]:
                continue
            if out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + e[1])
                continue
        elif e[0] in "sv" and len(e) == 3:
            a = dict(e[2])
            if drop_pos:
                a.pop("data-sourcepos", None)
            if "alt" in a:
                a["alt"] = re.sub("\n+", "\n", a["alt"])
            e = (e[0], e[1], a)
        out.append(e)
    res = []
    for i, e in enumerate(out):
        if e[0] == "t":
            s = e[1]
            if i == 0 or block(out[i - 1]) or out[i - 1][:2] == ("v", "br"):
                s = s.lstrip("\n")
            if i + 1 == len(out) or block(out[i + 1]):
                s = s.rstrip("\n")
            if not s:
                continue
            e = ("t", s)
        res.append(e)
    return res


def block(e):
    return e[0] in ("rawb", "comment") or e[0] in "sev" and e[1] in BLOCK


def same(a, b):
    """Is event a (observed) what b (expected) calls for?"""
    if a == b:
        return True
    if a[0] == b[0] == "s" and a[1] == b[1] == "code" and set(a[2]) == set(b[2]) == {"class"}:
        info = b[2]["class"]
        words = {info.split()[0], re.split("[ \t\n\x0b\x0c\r]+", info.strip(" \t\n\x0b\x0c\r"))[0]}
        return a[2]["class"] in {"language-" + w for w in words}
    return False


def diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x is None or y is None or not same(x, y):
            return "#%d: %r, expected %r" % (i, x, y)
    return None
