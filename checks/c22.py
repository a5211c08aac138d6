import re

import gen as G
import sut

ID = "C22"
TECHNIQUE = "layout monitor: every line of the reStructuredText output, its indentation and markup against the tree; composition and heading monitors"
QUICK = (10000, 40)
THOROUGH = (400000, 1200)
guided = True
RULE = ("Documents with every construct nested in every other. The output's non-blank lines must be, in order, those the tree calls for: text with *, **, ``, `text <url>`_ markup, .. code:: and .. image:: directives with their "
        "lines indented, '* ' and '#. ' items, quotes; blocks stand apart by blank lines; heading underlines are long enough and one character per level; top-level blocks rendered alone give the same lines. Non-trivial: some nesting or directive.")
REQUIRE = {"lines": 300000, "documents": 30000, "indented lines": 80000, "code lines": 10000, "images": 5000, "headings": 10000, "items": 30000, "quoted blocks": 10000, "links": 5000, "composed": 8000, "multi-line alts": 500, "gaps": 50000, "blank code lines": 2000}
ASSUMPTIONS = ["thematic breaks and raw HTML have no reStructuredText form here and are left out", "special characters of reStructuredText in text are not escaped (the library does not claim to)"]


class Sheet:
    """Lines the tree calls for."""

    def __init__(self, ch=" "):
        self.lines = []          # [indent, text, starts a block]
        self.cur = None
        self.ind = 0
        self.ch = ch
        self.gap = False

    def out(self, s):
        for k, part in enumerate(s.split("\n")):
            if k:
                self.nl()
            if part:
                if self.cur is None:
                    self.cur = [self.ind, "", self.gap]
                    self.gap = False
                self.cur[1] += part

    def nl(self):
        if self.cur is not None:
            self.lines.append(self.cur)
            self.cur = None

def kids(n):
    out = []
    k = n.first_child
    while k is not None:
        out.append(k)
        k = k.nxt
    return out


def inline(n, s, c):
    for k in kids(n):
        t = k.t
        if t == "text":
            s.out(k.literal)
        elif t in ("softbreak", "linebreak"):
            s.nl()
        elif t == "code":
            s.out("``" + k.literal + "``")
        elif t in ("emph", "strong"):
            m = "*" if t == "emph" else "**"
            s.out(m)
            inline(k, s, c)
            s.out(m)
        elif t == "link":
            c.count("links")
            s.out("`")
            inline(k, s, c)
            s.out(" <" + k.destination + ">`_")
        elif t == "image":
            c.count("images")
            s.out(".. image:: " + k.destination)
            s.nl()
            s.ind += 4
            s.out(":alt: ")
            a = len(s.lines)
            inline(k, s, c)
            if len(s.lines) > a:
                c.count("multi-line alts")
            s.ind -= 4


def blocks(n, s, c):
    first = True
    for k in kids(n):
        t = k.t
        if t in ("paragraph", "heading", "code_block", "list"):
            if not (t == "paragraph" and n.t == "item" and k.prv is None):
                s.nl()
        if t not in ("thematic_break", "html_block"):
            s.gap = s.gap or not first
        before = len(s.lines)
        if t == "paragraph":
            inline(k, s, c)
            s.nl()
        elif t == "heading":
            c.count("headings")
            a = len(s.lines)
            inline(k, s, c)
            s.nl()
            longest = max([len(s.ch) and len(x[1]) + x[0] - s.ind for x in s.lines[a:]] or [0])
            if longest:
                s.lines.append([s.ind, ("banner", k.level, longest), False])
        elif t == "code_block":
            w = k.info.split() if k.info else []
            s.out(".. code::" + (" " + w[0] if w else ""))
            s.nl()
            if k.literal:
                s.gap = True
            lns = k.literal.split("\n")
            if lns[-1] == "":
                lns.pop()
            for ln in lns:
                # "code" marks lines whose distance from the line before is that in the code
                s.lines.append([s.ind + 4, ln, s.gap, "code" if ln is not lns[0] or not s.gap else "first"])
                s.gap = False
            c.count("code lines", len(lns))
            s.gap = False
        elif t == "list":
            s.nl()
            for it in kids(k):
                m = "* " if k.list_data["type"] == "bullet" else "#. "
                c.count("items")
                s.nl()
                s.out(m)
                s.ind += len(m)
                blocks(it, s, c)
                s.ind -= len(m)
                s.nl()
        elif t == "block_quote":
            c.count("quoted blocks")
            s.ind += 4
            blocks(k, s, c)
            s.ind -= 4
        first = first and t not in ("paragraph", "heading", "code_block", "list") and len(s.lines) == before


BANNER = {}


def check(text, c):
    doc = sut.Parser({"smart": True} if len(text) % 5 == 0 else None).parse(text)
    d = layout(doc, c, " ")
    if d:
        return d
    if len(text) % 4 == 0:
        d = layout(doc, c, ".")
        if d:
            return "indent_char '.': " + d
    # each top-level block alone
    ks = kids(doc)
    if 1 < len(ks) < 12:
        whole = [x.rstrip() for x in sut.ReStructuredTextRenderer().render(doc).split("\n") if x.strip()]
        parts = []
        r = sut.ReStructuredTextRenderer()
        for k in ks:
            one = sut.Node("document", [[1, 1], [1, 1]])
            one.append_child(k)
            parts += [x.rstrip() for x in r.render(one).split("\n") if x.strip()]
        c.count("composed")
        if whole != parts:
            for i in range(max(len(whole), len(parts))):
                if whole[i:i + 1] != parts[i:i + 1]:
                    return "line %r of the whole, %r where the block stands alone" % (whole[i:i + 1], parts[i:i + 1])


def layout(doc, c, ch):
    out = sut.ReStructuredTextRenderer(indent_char=ch).render(doc) if ch != " " else sut.ReStructuredTextRenderer().render(doc)
    s = Sheet(ch)
    blocks(doc, s, c)
    s.nl()
    c.count("documents")
    want = []
    skipped = 0                      # blank lines of code since the last other line
    for x in s.lines:
        if not isinstance(x[1], str) or x[1].replace(ch, "").strip():
            want.append(x[:3] + [(x[3] if len(x) > 3 else ""), skipped])
            skipped = 0
        elif len(x) > 3:
            skipped += 1
            if x[3] == "first":
                skipped += 1         # the blank line after the directive
    got = []
    gap = 99
    for ln in out.split("\n"):
        if not ln.replace(ch, "").strip():
            gap += 1
            continue
        got.append((ln, gap))
        gap = 0
    c.trivial = not any(x[0] for x in want)
    i = 0
    for i in range(max(len(got), len(want))):
        if i >= len(got):
            return "line %r is missing from the output" % (want[i][1],)
        if i >= len(want):
            return "unexpected line %r at the end" % got[i][0]
        ln, gap = got[i]
        ind, body, needs, code, skipped = want[i]
        c.count("lines")
        if ind:
            c.count("indented lines")
        if not isinstance(body, str):
            _, level, longest = body
            b = ln[len(ch) * ind:]
            if ln[:len(ch) * ind] != ch * ind or len(set(b)) != 1 or b[0] not in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~":
                return "%r is no underline for the heading at level %d, indented by %d" % (ln, level, ind)
            if len(b) < longest:
                return "the underline %r is shorter than the heading's %d characters" % (ln, longest)
            if BANNER.setdefault(level, b[0]) != b[0] or any(v == b[0] for k, v in BANNER.items() if k != level):
                return "level %d headings are underlined by %r (%r)" % (level, b[0], BANNER)
            continue
        if ln.rstrip() != (ch * ind + body).rstrip():
            return "line %r, expected %r" % (ln, ch * ind + body)
        if needs:
            c.count("gaps")
            if not gap:
                return "no blank line before %r" % ln
        if skipped:
            c.count("blank code lines", skipped)
        if gap < skipped or code == "code" and gap != skipped:
            return "%d blank lines before %r, %d in the code" % (gap, ln, skipped)


def nested(r, d=3):
    out = []
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if d and k < .2:
            out += ["> " + x for x in nested(r, d - 1)]
        elif d and k < .45:
            m = r.choice(["- ", "1. ", "* ", "3) "])
            for _ in range(r.randint(1, 3)):
                b = nested(r, d - 1)
                if b[0][:1] in (" ", ""):
                    b = ["p"] + [""] + b
                out += [m + b[0]] + [" " * len(m) + x if x else "" for x in b[1:]]
                if r.random() < .3:
                    out.append("")
        elif k < .55:
            out += [r.choice(["#", "##", "###", "####", "#####", "######"]) + " " + inl(r).replace("\n", " ")]
        elif k < .6:
            out += [inl(r), r.choice(["===", "---"])]
        elif k < .7:
            out += ["```" + r.choice(["", "py", " c x", "é"])] + r.choice([["x"], ["x", "", "  y"], [], ["\tz", " w"], ["", "q", ""], ["", "", "a", "", "", " ", "b", "", ""], ["a", "\t", "", "b"]]) + ["```"]
        elif k < .75:
            out += ["", "    ind", "", "      more", ""]
        elif k < .8:
            out += [r.choice(["***", "<div>\nx\n</div>", "<!-- c -->", "[foo]: /u"])]
        else:
            out += inl(r).split("\n")
        if r.random() < .8:
            out.append("")
    return [y for x in out for y in x.split("\n")]


def inl(r):
    return "".join(r.choice(["foo", "bar ", "*a*", "**b**", "`c d`", "[t](/u)", "![alt](/i)", "![a\nb *c*](/i 't')", "[![x](y)](/z)", "\n", "  \n", "\\\n", "日本", "<b>", "&#10;", "\"q\"", "***s***", "[*e*](<a b>)", "![![in](o)out](p)", "é ", "--", "[foo]",
                             "`` ` ``", "&nbsp;", " "]) for _ in range(r.randint(1, 5)))


def BIG(text):
    return text


def gens(c):
    return [(6, "nested", lambda r: "\n".join(nested(r))), (2, "document", G.document), (1, "block_soup", G.block_soup), (1, "links", G.link_doc), (1, "spec", G.spec_mutant), (1, "any", lambda r: G.any_doc(r, sut.REPO)),
            (.5, "inline", lambda r: r.choice(["", "- ", "> ", "# ", "1. "]) + inl(r).replace("\n\n", "\n"))]
