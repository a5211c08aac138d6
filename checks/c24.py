import html as _html
import re
import urllib.parse

import gen as G
import sut

ID = "C24"
TECHNIQUE = "conservation monitor: numbered words and marked characters traced from the source into the output, in constructed and in random documents"
QUICK = (14000, 40)
THOROUGH = (250000, 1200)
guided = False
RULE = ("Documents whose words are numbered in source order. Constructed ones use a second kind of word wherever text may legitimately vanish (destinations, titles, labels, info strings, definitions), so every other word must be in the HTML's "
        "visible text (alt texts included) exactly once and in order, with any unbalanced, broken or nested markup around. In random documents with their words numbered likewise: none twice, none out of order, and none missing but where the "
        "source has a definition, fence or destination to hold it. Non-ASCII characters and spaces are counted on both sides. Non-trivial: at least three words.")
REQUIRE = {"words traced": 800000, "constructed documents": 15000, "random documents": 10000, "alt words": 5000, "code words": 20000, "non-ASCII characters": 50000, "html words": 3000, "words kept whole documents": 20000, "consumed words": 400}
ASSUMPTIONS = ["ASCII spaces and tabs at line ends, and markup characters, are not 'words'"]

TAG = re.compile(r"<(?:a|img|code|p|li|ul|ol|h[1-6]|blockquote|pre|hr)((?: [a-z-]+=\"[^\"]*\")+)(?: /)?>")
W = re.compile(r"w(\d+)x")
ODD = "\xa0\u2003\u3000\u2028\u2029\x85\u200b\ufeff\u00ad\u1680\u202f日éß😀\u0301\x1c\x1f\x7f\x01"
ODDRE = re.compile("[" + ODD + "]")


def visible(out, c):
    def tag(m):
        a = re.search(r' alt="([^"]*)"', m.group(0))
        if a:
            c.count("alt words", len(W.findall(a.group(1))))
            return " " + a.group(1) + " "
        return ""
    return TAG.sub(tag, out)


def render(text):
    k = len(text)
    p = sut.Parser({"smart": True}) if k % 7 == 0 else sut.Parser()
    o = {}
    if k % 5 == 0:
        o["sourcepos"] = True
    if k % 11 == 0:
        o["softbreak"] = "<br />"
    return sut.HtmlRenderer(o).render(p.parse(text))


def check(case, c):
    kind, text = case
    out = render(text)
    vis = visible(out, c)
    src = [int(x) for x in W.findall(text)]
    c.trivial = len(src) < 3
    got = [int(x) for x in W.findall(vis)]
    c.count("words traced", len(got))
    seen = -1
    for g in got:
        if g == seen:
            return "word w%dx appears twice in the output" % g
        if g < seen:
            return "word w%dx comes after w%dx in the output%s" % (g, seen, " again" if got.count(g) > 1 else "")
        seen = g
    if got and not set(got) <= set(src):
        return "the output has words the source has not: %r" % sorted(set(got) - set(src))[:3]
    c.count("code words", sum(len(W.findall(x)) for x in re.findall(r"<code[ >].*?</code>", out, re.S)))
    if kind == "made":
        c.count("constructed documents")
        lost = sorted(set(src) - set(got))
        if lost:
            return "word w%dx of the source is not in the visible text" % lost[0]
        c.count("words kept whole documents")
        c.count("html words", len(re.findall(r"<(?:b|div|i|!--)[^>]*w\d+x", out)))
    else:
        c.count("random documents")
        lost = set(src) - set(got)
        if lost and "]:" not in text:
            attrs = set(int(x) for x in W.findall(" ".join(TAG.findall(out))))
            c.count("consumed words", len(lost & attrs))
            img = "![" in text
            for m in W.finditer(text):
                i = int(m.group(1))
                if i not in lost or i in attrs:
                    continue
                line = text[max(text.rfind("\n", 0, m.start()), text.rfind("\r", 0, m.start())) + 1:m.start()]
                if "```" in line or "~~~" in line:
                    continue                                    # may be an info string
                if img and "](" in text[:m.start()]:
                    continue                                    # may belong to a link within an image description
                return "word w%dx of the source appears nowhere in the output" % i
        elif "]:" not in text:
            c.count("words kept whole documents")
    # characters
    odd = ODDRE.findall(text)
    if odd and (kind == "made" or "]:" not in text and "```" not in text and "~~~" not in text and not ("![" in text and "](" in text)):
        o = _html.unescape(vis) if "&" in vis else vis
        if kind != "made":
            o += _html.unescape(urllib.parse.unquote(" ".join(TAG.findall(out)), errors="replace"))
        for ch in set(odd):
            n = text.count(ch)
            c.count("non-ASCII characters", n)
            have = o.count(ch) if ch not in "\x01\x7f\x1f" else (o + vis).count(ch)
            if have < n:
                return "%d of %d characters U+%04X are gone from the output" % (n - have, n, ord(ch))
            if kind == "made" and "&" not in text and vis.count(ch) != n:
                return "%d characters U+%04X in the output for %d in the source" % (vis.count(ch), ord(ch), n)


# ------------------------------------------------------------------ constructed documents
class Maker:
    def __init__(self, r):
        self.r, self.n, self.z = r, 0, 0
        self.odd = r.random() < .4
        self.labels = ["z%dl" % i for i in range(r.randint(0, 3))]

    def w(self):
        self.n += 1
        s = "w%dx" % self.n
        if self.odd and self.r.random() < .3:
            k = self.r.choice(ODD)
            s = self.r.choice([s + k, k + s, s + k + k, k + s + k])
        return s

    def d(self):
        """something that may vanish"""
        self.z += 1
        return self.r.choice(["z%dz", "/z%dz", "http://e.x/z%dz?a=b&c", "#z%dz", "<z%dz q>", "z(%d)z", ""]).replace("%d", str(self.z))

    def t(self):
        self.z += 1
        return self.r.choice(["", "", ' "z%dt"', " 'z%dt q'", " (z%dt)", ' "z%dt', "  \t'z%dt\nq'"]).replace("%d", str(self.z))

    def lab(self):
        r = self.r
        k = r.choice(self.labels) if self.labels and r.random() < .8 else "z9nolabel"
        return r.choice([k, k.upper(), " " + k + " "])

    def inline(self, d=3, one=False):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.random()
            if k < .3 or d == 0:
                p = r.choice(["%w", "%w", "%w %w", "%w.", "\"%w\"", "'%w'", "%w--%w", "%w...", "\\%w", "%w\\*", "&amp;%w", "%w&%w;", "a%w", "%w_%w", "%w'%w", "#%w", "%w!", "%w:", "%w=%w", "- %w"])
            elif k < .55:
                m = r.choice(["*", "**", "***", "_", "__", "___", "****", "*_"])
                e = r.choice([m, m, m, m[::-1], "*", "**", "_", "", " " + m])
                p = m + self.inline(d - 1, one) + e
            elif k < .65:
                m = r.choice(["`", "``"])
                p = m + r.choice(["%w", " %w ", "%w %w", "%w*%w*", " %w`` "[:-2] if m == "`" else "%w` %w", "<%w>", "&amp; %w", "\\%w\\"]) + r.choice([m, m, m, ""])
            elif k < .78:
                i = r.choice(["", "", "!"])
                p = i + "[" + self.inline(d - 1, one) + "]" + r.choice(["(" + self.d() + self.t() + ")", "(" + self.d() + self.t() + ")", "[" + self.lab() + "]", "[]", "", "(q" + self.d() + " z "])
                if one:
                    p = p.replace("\n", " ")
            elif k < .84:
                p = r.choice(["<http://e.x/%w>", "<%w@e.x>", "<b %w>", "<b c='%w'>%w</b>", "<!-- %w -->", "<?%w?>", "<!X %w>", "<![CDATA[%w]]>", "</b >%w", "< %w>", "<i %w", "<%w", "%w>"])
            elif k < .92:
                p = r.choice(["[", "]", "![", "*", "**", "_", "`", "<", ">", "&", "\\", "!", "(", ")", "~~", "[]", "''", '"', "<b", "[ ]", "***", "\\\\", "\\]", "\\["]) + r.choice(["", " "]) + "%w"
            elif one:
                p = "%w"
            else:
                p = "%w" + r.choice(["\n", "  \n", "\\\n", " \n", "\t\n"]) + "%w"
            while "%w" in p:
                p = p.replace("%w", "\x00", 1)
                p = p.replace("\x00", self.w())
            out.append(p)
        return r.choice([" ", " ", "", "*", " * "]).join(out) if len(out) > 1 else out[0]

    def safe(self, s):
        """Nothing that could make a word part of a definition, label, fence or destination."""
        s = re.sub(r"\]:", "] :", s)
        s = re.sub(r"`{3,}", "``", s)
        s = re.sub(r"~{3,}", "~~", s)
        s = re.sub(r"\]\((?=[^()]*w\d)", "] (", s)
        return s

    def para(self, one=False):
        s = self.safe(self.inline(3, one))
        if one:
            s = s.replace("\n", " ")
        return s.split("\n")

    def blocks(self, d=3, top=False):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if k < .35 or d == 0:
                out += self.para()
            elif k < .45:
                out += [r.choice(["#", "##", "###### ", " ##"]) + " " + self.para(True)[0] + r.choice(["", " #", " ##"])]
            elif k < .5:
                out += self.para() + [r.choice(["===", "---", "-"])]
            elif k < .58:
                f = r.choice(["```", "~~~", "````"])
                out += ["", f + r.choice(["", "z1i", " z2i z3i", "z{\\&amp;"])] + [r.choice(["%w", "  %w", "", "\t%w*%w*", "<%w>", "> %w", "- %w", "&amp; %w", "```"[:2] + "%w", "[%w](z)"]) for _ in range(r.randint(0, 4))] + r.choice([[f], [f], [f], []])
            elif k < .64:
                out += ["", "    %w", r.choice(["", "    %w", "      * %w", "\t%w", "     "]), "    %w", ""]
            elif k < .72:
                out += [r.choice(["<div>", "<!-- %w", "<pre>", "<div c='%w'>", "</div>", "<script>", "<?php", "<!X"])] + r.choice([["%w", "*%w*", ""], ["%w"], ["-->", "%w"], ["", "%w"], ["</script>", "</pre>", "?> >", "%w"], [""]])
            elif k < .84:
                inner = self.fill(self.blocks(d - 1))
                out += [r.choice(["> ", "> ", ">", " > "] if x[:1] not in (" ", "\t", ">") else ["> "]) + x if r.random() < .93 or not x.strip() else x for x in inner]
            elif k < .97:
                m = r.choice(["- ", "* ", "+ ", "1. ", "0) ", "12.  ", "-   "])
                for _ in range(r.randint(1, 3)):
                    inner = self.fill(self.blocks(d - 1))
                    out += [m + inner[0]] + [(" " * len(m) + x if x.strip() else "") if r.random() < .95 else x for x in inner[1:]]
                    if r.random() < .3:
                        out.append("")
            else:
                out += [r.choice(["***", "- - -", "___"])]
            out = self.fill(out)
            if r.random() < .6:
                out.append("")
        return out or ["%w"]

    def fill(self, lines):
        res = []
        for x in lines:
            while "%w" in x:
                x = x.replace("%w", "\x00", 1).replace("\x00", self.w(), 1)
            res.append(x)
        return res

    def doc(self):
        r = self.r
        body = self.fill(self.blocks())
        defs = []
        for k in self.labels:
            t = self.t().rstrip()
            while t.lstrip()[:1] == '"' and not t.endswith('"'):
                t = ""
            defs.append("[%s]: %s%s" % (k, self.d() or "/q", t))
        s = "\n".join(body)
        k = r.random()
        if defs and k < .5:
            s = "\n".join(defs) + "\n\n" + s
        elif defs:
            s = s + "\n\n" + "\n".join(defs)
        return s


def made(r):
    m = Maker(r)
    return ["made", m.doc()]


WORD = re.compile(r"(?<![<&/\w#:.\\(\[])[a-z]{2,}(?![\w:;>=.@/\]-])|日本|漢")


def numbered(text):
    n = [0]

    def f(m):
        n[0] += 1
        return "w%dx" % n[0]
    return ["any", WORD.sub(f, re.sub(r"w\d+x", "ww", text))]


def odd(r, text):
    p = list(text)
    for _ in range(r.randint(0, 4)):
        p.insert(r.randint(0, len(p)), r.choice(ODD))
    return "".join(p)


def BIG(text):
    return numbered(re.sub(r"(?<![<&/\w#:.\\(\[])([a-z])(?![\w:;>=.@/\]-])", r"\1\1", text))


def gens(c):
    def rnd(f):
        def g(r):
            s = f(r)
            return numbered(odd(r, s) if r.random() < .3 else s)
        return g
    return [(5, "constructed", made), (2, "document", rnd(G.document)), (1, "block_soup", rnd(G.block_soup)), (1, "inline", rnd(G.inline_soup)), (.7, "emph", rnd(G.emph)), (.7, "spec", rnd(G.spec_mutant)), (1, "any", rnd(lambda r: G.any_doc(r, sut.REPO))),
            (.7, "links", rnd(G.link_doc))]


def smaller(case):
    import harness
    if case[0] == "made":                       # whole lines and words only: the construction must stay sound
        ls = case[1].split("\n")
        for i in range(len(ls)):
            yield ["made", "\n".join(ls[:i] + ls[i + 1:])]
        return
    for t in harness.smaller(case[1]):
        yield [case[0], t]
