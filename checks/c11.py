import re

import gen as G
import htmlev as H
import sut

ID = "C11"
TECHNIQUE = "strict tokenizer over safe-mode pages with a browser's reading of URL schemes, compared with the page of the same tree without safe mode"
QUICK = (9000, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Documents with raw HTML in every position and URLs whose schemes are spelt in every way (letter case, references, escapes, angle brackets, definitions, autolinks, images), near misses included. The safe page may hold only "
        "the renderer's tags and one fixed comment per raw HTML node, no dangerous URL as a browser reads it, and otherwise the events of the same tree. Non-trivial: raw HTML or a dangerous URL is present.")
REQUIRE = {"safe pages": 60000, "raw HTML nodes": 30000, "dangerous URLs": 20000, "harmless URLs": 30000, "data images": 1500, "identical pages": 10000, "raw in alt": 500}
ASSUMPTIONS = ["a browser strips leading C0 controls and spaces and removes tabs and newlines before it reads the scheme", "data:image/png etc. followed by more letters is not decided by the statement and accepted either way"]

SCHEMES = ["javascript", "vbscript", "file", "data"]
PART = ["alert(1)", "x", "///etc", "text/html,<b>", "", "image/svg+xml,x", "image/png;base64,AAAA", "image/gif,x", "image/jpeg;q", "image/webp;x", "IMAGE/PNG,", "image/pn", "image/", "%0aalert", "//a", "image/bmp,x", " image/png,", "image%2fpng,",
        "text/html;image/png,", "?image/gif", "x-data:image/png,"]
NEAR = ["javascriptx:", "xjavascript:", "/javascript:", "#data:", "?file:", "javascript", "javascript%3A", "http://x/data:", "data/", "files:", "java:", "script:", "mailto:file:", "%6aavascript:", "javaſcript:", ".javascript:", "javascript/:", "https://a?b=vbscript:",
        "da ta:", "*data:", "-javascript:", "0file:", "java%09script:", "file/", "x:javascript:"]


def spell(r, s):
    """s as it may be written in a destination."""
    out = []
    for ch in s:
        k = r.random()
        if ch.isalpha() and k < .4:
            ch = ch.swapcase()
        if ch == ":" and k < .3:
            out.append(r.choice(["&colon;", "\\:", "&#58;", "&#x3a;", "&#x3A;", "&#0058;"]))
        elif ch.isalnum() and k > .93:
            out.append(r.choice(["&#%d;" % ord(ch), "&#x%x;" % ord(ch), "&#X%X;" % ord(ch), "&#0%d;" % ord(ch)]))
        elif ch == "/" and k < .2:
            out.append(r.choice(["&sol;", "\\/"]))
        else:
            out.append(ch)
    return "".join(out)


def url(r):
    k = r.random()
    if k < .6:
        s = r.choice(SCHEMES) + ":" + r.choice(PART)
        if r.random() < .1:
            s = r.choice(["\t", " ", "&Tab;", "&#9;", "&#1;", "\x01", "&NewLine;", "&nbsp;", "\\", "&ZeroWidthSpace;"]) + s
        if r.random() < .06:
            i = r.randint(1, 4)
            s = s[:i] + r.choice(["&Tab;", "&#10;", "\\", "%0a", "\u00ad", "&#0;", "&#173;"]) + s[i:]
        return s if r.random() < .2 else spell(r, s)
    if k < .85:
        return r.choice(NEAR) + r.choice(PART)
    return r.choice(["/u", "http://a.b", "", "#x", "mailto:a", "ftp://q", "a:b", "é"])


def raw(r):
    return r.choice(["<b>", "</b>", "<img src=x onerror=1>", "<!-- c -->", "<?p?>", "<!X y>", "<![CDATA[x]]>", "<a href='javascript:1'>", "<em>", "</a>", "<br />", "<script>x</script>", "<p>", "<i\n>", "<a b=\"*c*\">"])


def rawblock(r):
    return r.choice(["<div>\n*a*\n</div>", "<script>\nx\n\ny</script>", "<!-- a\n\nb -->", "<?x\n?>", "<!A\n>", "<p>", "</em>", "<a>\n*x*", "<pre>\n\n</pre>", "<![CDATA[\nx]]>", "<style>", "<h2>", "<div", "<li>", "<iframe src=javascript:1>"])


def dest(r):
    u = url(r)
    return "<" + u.replace("<", "").replace(">", "") + ">" if r.random() < .3 else re.sub("[ \t]", "", u) if r.random() < .9 else u


def piece(r, d=2):
    k = r.random()
    t = r.choice(["", "", " \"t\"", " 'javascript:x'"])
    if k < .25:
        return r.choice(["", "!"]) + "[" + (piece(r, d - 1) if d and r.random() < .4 else r.choice(["a", "*b*", "`c`", raw(r)])) + "](" + dest(r) + t + ")"
    if k < .35:
        return "<" + url(r).replace(" ", "").replace("<", "").replace(">", "") + ">"
    if k < .45:
        return r.choice(["[r]", "![r]", "[x][r]", "![x" + raw(r) + "][R]", "[r][]"])
    if k < .7:
        return raw(r)
    if k < .8:
        return "*" + raw(r) + "a" + piece(r, d - 1) + "*" if d else "z"
    return r.choice(["a", "b ", " ", "\n", "&lt;b&gt;", "\\<b>", "`<b>`", "  \n", "javascript:x", "<a@b.c>"])


def page(r):
    parts = []
    if r.random() < .4:
        parts.append("[r]: " + dest(r) + r.choice(["", " \"t\"", "\n'u'"]))
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .65:
            parts.append("".join(piece(r) for _ in range(r.randint(1, 4))))
        elif k < .85:
            parts.append(rawblock(r))
        elif k < .92:
            parts.append("# " + piece(r).replace("\n", " "))
        else:
            parts.append("```\n" + rawblock(r) + "\n```")
    s = r.choice(["\n\n", "\n\n", "\n"]).join(parts)
    return G.wrap(r, s) if r.random() < .2 else s


def BIG(text):
    return text


def gens(c):
    return [(6, "page", page), (1, "document", G.document), (.6, "links", G.link_doc), (.6, "inline_soup", G.inline_soup), (1, "any", lambda r: G.any_doc(r, sut.REPO)), (.3, "mined", lambda r: G.mined_doc(r, sut.REPO))]


def enumerate_(c):
    # every letter case of every scheme, in every kind of place, and one reference or escape at every position
    words = []
    for w in SCHEMES:
        n = len(w)
        for k in range(0, 1 << n, 1 if n < 9 or c.thorough else 5):
            words.append("".join(ch.upper() if k >> i & 1 else ch for i, ch in enumerate(w)) + ":x")
        for i, ch in enumerate(w + ":"):
            for f in ("&#%d;" % ord(ch), "&#x%X;" % ord(ch), "&#00%d;" % ord(ch)):
                words.append((w + ":")[:i] + f + (w + ":")[i + 1:] + "y")
    for w in words:
        yield "[a](%s) ![b](%s)\n[c](<%s> 't') [r] ![r]\n<%s>\n\n[r]: %s" % (w, w, w, w, w)
        yield "> - [a][ R ]\n>\n>   [r]:\n>   <%s>\n>   't'\n\n![[x](%s)![y](%s)](%s)" % (w, w, w, w)
    for p in ("data:image/", "DATA:Image/", "data&colon;image&sol;"):
        for t in ("png", "gif", "jpeg", "webp", "PNG", "Gif", "svg+xml", "jpg", "bmp", "x", "", "*", "text/html,image/png", "tiff", "xpng", "-png", " png"):
            for e in (";base64,AA", ",x", "", ";a=b"):
                yield "[a](<%s>) ![b](<%s>)\n\n[r]: <%s>\n\n![r]" % ((p + t + e,) * 3)
    # every string one edit away from a listed image type, or from a scheme
    for t in ("data:image/png", "data:image/gif", "data:image/jpeg", "data:image/webp", "javascript:", "vbscript:", "file:"):
        near = set()
        for i in range(len(t) + 1):
            near.update([t[:i] + t[i + 1:], t[:i] + t[i:i + 1] * 2 + t[i + 1:], t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:]])
            near.update(t[:i] + x + t[i + k:] for x in ("x", "-", "/", "%20", "S", "\u017f", "\u212a", "\u0130", "1", ".", "&Tab;") for k in (0, 1))
        for u in sorted(near):
            for e in (";base64,AA", ",x"):
                yield "[a](<%s>) ![b](<%s>)\n\n[r]: <%s>\n\n![r]" % ((u + e,) * 3)


def browser_scheme(u):
    u = re.sub("[\t\n\r]", "", u.lstrip("".join(chr(i) for i in range(33))))
    m = re.match(r"([A-Za-z][A-Za-z0-9+.-]*):", u)
    return m.group(1).lower() if m else None


IMG = re.compile(r"data:image/(?:png|gif|jpeg|webp)", re.I | re.A)
IMGOK = re.compile(r"data:image/(?:png|gif|jpeg|webp)(?![A-Za-z0-9!#$&^_.+-])", re.I | re.A)


def danger(u):
    """True, False, or None where the statement leaves it open."""
    s = browser_scheme(u)
    if s not in ("javascript", "vbscript", "file", "data"):
        return False
    v = u.strip()
    if s == "data" and IMG.match(v):
        return False if IMGOK.match(v) else None
    return True


def check(text, c):
    if H.S in text or H.E in text or "\ue002" in text:
        c.skip("placeholder characters")
    n = len(text)
    doc = sut.Parser({"smart": n % 5 == 0}).parse(text)
    o = {"safe": True}
    if n % 4 == 1:
        o["softbreak"] = " "
    if n % 4 == 2:
        o["sourcepos"] = True
    safe = sut.HtmlRenderer(dict(o)).render(doc)
    try:
        got = H.read(re.sub(' alt="[^"]*"', lambda m: m.group().replace(H.COMMENT, "\ue002"), safe), o.get("softbreak", "\n"))
    except H.Bad as e:
        return "safe page: %s" % e
    c.count("safe pages")
    raws = [x for x in H.inorder(doc) if x.t in ("html_inline", "html_block")]
    c.count("raw HTML nodes", len(raws))
    seen = safe.count(H.COMMENT)
    if seen != len(raws) and H.COMMENT not in "".join(x.literal or "" for x in H.inorder(doc)):
        return "%d raw HTML nodes, %d comments" % (len(raws), seen)
    for e in got:
        if e[0] in ("s", "v") and len(e) == 3:
            for k in ("href", "src"):
                if k in e[2] and danger(e[2][k]):
                    return "%s=%r of <%s> in safe mode" % (k, e[2][k], e[1])
    bad = opened = 0
    for x in H.inorder(doc):
        if x.t in ("link", "image"):
            d = danger(x.destination)
            if d is None:
                opened += 1
                c.count("left open")
            c.count("dangerous URLs" if d else "harmless URLs")
            bad += bool(d)
            if d is False and browser_scheme(x.destination) == "data":
                c.count("data images")
    if not raws and not bad:
        c.trivial = True
    o2 = dict(o)
    del o2["safe"]
    if not raws and not bad and not opened:
        if sut.HtmlRenderer(o2).render(doc) != safe:
            return "safe mode changes a page without raw HTML or dangerous URLs"
        c.count("identical pages")
    # the events of the same tree, raw HTML replaced by the comment and dangerous URLs left out
    for i, x in enumerate(raws):
        y = x.parent
        while y is not None and y.t != "image":
            y = y.parent
        if y is not None:
            c.count("raw in alt")
        x.literal = "\ue002"
    want = H.normal(H.expect(doc, o.get("softbreak", "\n"), None, True))
    got = H.normal(got)
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else None
        b = want[i] if i < len(want) else None
        if a and b and len(a) == len(b) == 3 and a[:2] == b[:2]:
            for k in ("href", "src"):
                if k in b[2] and danger(b[2][k]) is not False:
                    if a[2].get(k, "") not in ("", b[2][k]):
                        return "%s is %r for the destination %r" % (k, a[2][k], b[2][k])
                    a[2].pop(k, None)
                    b[2].pop(k, None)
        if a is None or b is None or not H.same(a, b):
            return "event #%d of the safe page is %r, expected %r" % (i, a, b)
