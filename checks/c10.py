import html.parser
import re

import gen as G
import htmlev as H
import sut

ID = "C10"
TECHNIQUE = "strict tokenizer over every rendered page, its events compared with those the tree stands for"
QUICK = (14000, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Documents rich in markup characters, references, tags, titles, info strings and images, rendered with each option setting. The page is read by a tokenizer that knows only the renderer's own tags and the four "
        "character references (raw HTML nodes are replaced by marked placeholders first); nesting is checked and the events are compared with those of the tree. Non-trivial: the page has a character reference or an attribute.")
REQUIRE = {"pages": 40000, "references": 50000, "images": 5000, "links": 10000, "titles": 3000, "raw placeholders": 5000, "code classes": 1000, "raw in alt": 300, "numbered lists": 1000, "second parser": 5000}
ASSUMPTIONS = ["the newlines next to block tags and after <br /> are layout", "the class of a code block is its info string's first word, cut at Unicode or ASCII whitespace"]

NASTY = ["<", ">", "\"", "&", "'", "&lt;", "&amp;", "&quot;", "&amp;lt;", "&amp;amp;", "\\<", "\\&", "\\\"", "<b>", "</b>", "<!-- x -->", "<i a=\"&\">", "&copy;", "a", "b ", "é", "`<b>`", "`\"&`", "``&lt;``", "*", "**", "_", "\n", "  \n",
         "\\\n", "--", "\"a\"", "'b'", "&#60;", "&#38;", "&#34;", "&#x22;", "</p>", "</code></pre>", "\" onx=\"", "&#10;", "]]>", "<script>", "</li>", "&#39;", "&lt", "&#0;", "\x0b"]


def nasty(r, n=None):
    return "".join(r.choice(NASTY) for _ in range(n or r.randint(1, 8)))


def attr(r):
    d = r.choice(["/u", "<" + nasty(r, 2).replace("\n", "").replace("<", "").replace(">", "") + ">", "/a?b=c&d", "\"q\"", "&quot;x", "a&amp;lt;b", "'", "javascript:\"x\"", "http://a.b/\"><b>"])
    t = r.choice(["", "", " \"" + nasty(r, 3).replace("\"", "\\\"").replace("\n\n", "") + "\"", " '" + nasty(r, 3).replace("'", "\\'") + "'", " (a\"b<c>&d)"])
    return d, t


def page(r):
    parts = []
    for _ in range(r.randint(1, 5)):
        k = r.random()
        d, t = attr(r)
        if k < .3:
            parts.append(nasty(r))
        elif k < .5:
            parts.append(r.choice(["", "!", "!"]) + "[" + r.choice([nasty(r, 3), "![" + nasty(r, 3) + "](/i)", "*a* " + nasty(r, 2), "[x](/y)" + nasty(r, 2), "`c<`<b x=\"y\">"]) + "](" + d + t + ")")
        elif k < .58:
            parts.append("[r]: " + d + t + "\n\n![r] [r]")
        elif k < .66:
            parts.append("```" + r.choice(["", " ", "~ "]) + r.choice(["a\"b", "&lt;x&gt; y", "<script>", "c++", "é&", "a&quot;b c", "\\\"x", "\u00a0z", "&nbsp;q", "a\u3000b", "&#10;x", "&#32;", "\"><b>"]) + "\n" + nasty(r, 4) + "\n```")
        elif k < .72:
            parts.append("    " + nasty(r, 3).replace("\n", "\n    "))
        elif k < .78:
            parts.append(r.choice(["<div>", "<!--", "<p a=\"", "<?x"]) + nasty(r, 3))
        elif k < .84:
            parts.append("#" * r.randint(1, 6) + " " + nasty(r, 3).replace("\n", " "))
        elif k < .9:
            parts.append(r.choice(["<http://a&b\"c>", "<a&@b.c>", "<x:\">", "<http://[&quot;]>"]))
        else:
            parts.append("\n".join("%d. %s" % (r.choice([0, 1, 2, 3, 999999999]), nasty(r, 2).replace("\n", " ")) for _ in range(2)))
    s = r.choice(["\n\n", "\n\n", "\n"]).join(parts)
    k = r.random()
    if k < .15:
        s = G.wrap(r, s)
    return s


def BIG(text):
    return text


def gens(c):
    return [(6, "page", page), (1, "document", G.document), (1, "inline_soup", G.inline_soup), (1, "links", G.link_doc), (1, "spec", G.spec_mutant), (1, "any", lambda r: G.any_doc(r, sut.REPO)), (.3, "unicode", G.rand_unicode)]


RO = [{}, {"softbreak": " "}, {"softbreak": "<br />"}, {"sourcepos": True}, {"safe": True}, {"safe": True, "sourcepos": True}]


class Reader(html.parser.HTMLParser):
    """A second, lenient reader: texts and attributes as a browser would decode them."""
    CDATA_CONTENT_ELEMENTS = ()

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.ev = []

    def handle_starttag(self, tag, attrs):
        self.ev.append(("s", tag, dict(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.ev.append(("v", tag, dict(attrs)))

    def handle_endtag(self, tag):
        self.ev.append(("e", tag))

    def handle_data(self, d):
        self.ev.append(("t", d))


def check(text, c):
    if H.S in text or H.E in text or "\ue002" in text:
        c.skip("placeholder characters")
    h = hash_(text)
    smart = h % 3 == 0
    doc = sut.Parser({"smart": smart}).parse(text)
    raw, n, lits = {}, 0, {}
    for x in H.inorder(doc):
        if x.t in ("html_inline", "html_block"):
            raw[id(x)] = n
            lits[n] = x.literal
            x.literal = "%s<%s%d%s" % (H.S, "B" if x.t == "html_block" else "", n, H.E)
            n += 1
            c.count("raw placeholders")
            if x.t == "html_inline" and in_image(x):
                c.count("raw in alt")
    trivial = True
    for o in (RO[0], RO[1 + h // 3 % 5]):
        sb = o.get("softbreak", "\n")
        out = sut.HtmlRenderer(dict(o)).render(doc)
        try:
            if o.get("safe"):
                got = H.normal(safe_read(out, sb))
                want = H.normal(mask(H.expect(doc, sb, raw, True)))
            else:
                got = H.normal(H.read(out, sb))
                want = H.normal(H.expect(doc, sb, raw))
        except H.Bad as e:
            return "%s (options %s)" % (e, o)
        if o.get("safe"):
            got = mask(got)
        d = H.diff(got, want)
        if d:
            return "events of the page and the tree differ at %s (options %s)" % (d, o)
        if o.get("sourcepos"):
            m = re.search(r'data-sourcepos="(?!\d+:\d+-\d+:\d+")', out)
            if m:
                return "malformed data-sourcepos: %r" % out[m.start():m.start() + 60]
        c.count("pages")
        refs = sum(out.count(x) for x in ("&amp;", "&lt;", "&gt;", "&quot;"))
        c.count("references", refs)
        c.count("images", out.count("<img "))
        c.count("links", out.count("<a "))
        c.count("titles", out.count(' title="'))
        c.count("code classes", out.count(' class="language-'))
        c.count("numbered lists", out.count('<ol'))
        if refs or "=" in out:
            trivial = False
        if not n and not o and not re.search("[\r\x00]", out):
            # nothing but the renderer's own output: the library's HTML parser must agree
            p = Reader()
            p.feed(out)
            p.close()
            d = H.diff(H.normal(p.ev), want)
            if d and not re.search(r"&\w", "".join(e[1] for e in want if e[0] == "t")):
                return "an HTML parser reads the page differently at " + d
            c.count("second parser")
    c.trivial = trivial


def safe_read(out, sb):
    # raw HTML in an alt attribute is replaced by the comment, unescaped
    return H.read(re.sub(' alt="[^"]*"', lambda m: m.group().replace(H.COMMENT, "\ue002"), out), sb)


def mask(ev):
    """Safe mode's URLs are another property's business."""
    out = []
    for e in ev:
        if e[0] in ("s", "v") and len(e) == 3:
            a = {k: v for k, v in e[2].items() if k not in ("href", "src")}
            if "alt" in a:
                a["alt"] = re.sub("%s<[0-9]+%s" % (H.S, H.E), "\ue002", a["alt"])
            e = (e[0], e[1], a)
        out.append(e)
    return out


def in_image(x):
    while x is not None:
        if x.t == "image":
            return True
        x = x.parent
    return False


def hash_(s):
    n = 7
    for ch in s[:200]:
        n = (n * 31 + ord(ch)) % 1000003
    return n
