import re

import c10
import c22
import gen as G
import sut

ID = "C33"
TECHNIQUE = "differential monitor: the entry points, equivalent options and combinations of options against each other on the same documents"
QUICK = (700, 60)
THOROUGH = (300000, 1200)
guided = True
RULE = ("Each document goes through commonmark() in every format and through parser, renderers and dumps; through parsers and renderers with the options left out, empty, spelt with their default values, false or true in other spellings, and with options "
        "meant for others; through subclasses that change nothing; and through every combination of the HTML options, of which each must do what it does alone. Results must be equal. Non-trivial: at least 20 characters of page.")
REQUIRE = {"documents": 4000, "entry points compared": 30000, "equivalent options compared": 30000, "combinations compared": 50000, "pages with positions": 8000, "pages with soft breaks": 1500, "soft breaks of several kinds": 1000, "unknown formats refused": 1200}
ASSUMPTIONS = ["documents that spell data-sourcepos themselves are judged without it"]
S = "\u2997\u2998"
POS = re.compile(r' data-sourcepos="\d+:\d+-\d+:\d+"')
OFF = [False, None, 0, ""]
ON = [True, 1, "yes", [0]]


class SubParser(sut.Parser):
    pass


class SubHtml(sut.HtmlRenderer):
    pass


class SubRst(sut.ReStructuredTextRenderer):
    pass


class Str(str):
    pass


def page(text, ropts, popts=None):
    return sut.HtmlRenderer(ropts).render(sut.Parser(popts).parse(text))


def diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return "...%r vs ...%r" % (a[max(0, i - 20):i + 30], b[max(0, i - 20):i + 30])
    return "%r vs %r" % (a[-40:], b[-40:])


def check(text, c):
    import random
    if len(text) > 4000:
        c.skip("long")
    r = random.Random(len(text) * 31 + sum(map(ord, text[:50])))
    c.count("documents")
    cm = sut.commonmark.commonmark
    base = sut.HtmlRenderer().render(sut.Parser().parse(text))
    c.trivial = len(base) < 20
    rst = sut.ReStructuredTextRenderer().render(sut.Parser().parse(text))
    js = sut.dumpJSON(sut.Parser().parse(text))
    same = [("commonmark(text)", cm(text), base), ("commonmark(text, 'html')", cm(text, "html"), base), ("commonmark(text, format='html')", cm(text, format="html"), base), ("commonmark(text, 'rst')", cm(text, "rst"), rst),
            ("commonmark(text, 'json')", cm(text, "json"), js), ("subclasses", SubHtml().render(SubParser().parse(text)), base), ("a subclass of str", cm(Str(text)), base)]
    if len(text) < 1500:
        a, _ = sut.printed(sut.dumpAST, sut.Parser().parse(text))
        b, res = sut.printed(cm, text, "ast")
        same.append(("commonmark(text, 'ast')", b, a))
        if res is not None:
            return "commonmark(text, 'ast') returned %r" % (res,)
    same.append(("a subclass of ReStructuredTextRenderer", SubRst().render(SubParser().parse(text)), rst))
    for name, x, y in same:
        c.count("entry points compared")
        if x != y:
            return "%s differs from its pipeline: %s" % (name, diff(x, y))
    if r.random() < .3:
        f = r.choice(["HTML", "Html", "xml", "", "latex", "js", "html ", "docutils", None, 0])
        try:
            out, res = sut.printed(cm, text, f)
            return "commonmark(text, %r) returned %r" % (f, res)
        except ValueError:
            c.count("unknown formats refused")

    # equal options
    equal = [("Parser(None)", page(text, {}, None), base), ("all defaults spelt", page(text, {"safe": False, "sourcepos": False, "softbreak": "\n"}, {"smart": False}), base),
             ("smart %r" % OFF[r.randrange(4)], page(text, {}, {"smart": OFF[r.randrange(4)]}), base), ("safe off", page(text, {"safe": r.choice(OFF)}), base), ("sourcepos off", page(text, {"sourcepos": r.choice(OFF)}), base),
             ("softbreak unset", page(text, {"softbreak": r.choice([None, ""])}), base), ("options of the renderer given to the parser", page(text, {}, {"safe": True, "sourcepos": True, "softbreak": "X"}), base),
             ("options of the parser given to the renderer", page(text, {"smart": True, "strange": 1}), base), ("smart spelt otherwise", page(text, {}, {"smart": r.choice(ON)}), page(text, {}, {"smart": True})),
             ("safe spelt otherwise", page(text, {"safe": r.choice(ON)}), page(text, {"safe": True})), ("sourcepos spelt otherwise", page(text, {"sourcepos": r.choice(ON)}), page(text, {"sourcepos": True}))]
    for name, x, y in equal:
        c.count("equivalent options compared")
        if x != y:
            return "%s changes the page: %s" % (name, diff(x, y))

    # combinations
    if "data-sourcepos" in text or "\u2997" in text or "\u2998" in text or "2997" in text or "2998" in text.lower() or "10647" in text or "10648" in text:
        return
    for sm in (False, True):
        tree = sut.Parser({"smart": sm}).parse(text)
        pages = {}
        for safe in (False, True):
            for pos in (False, True):
                for sb in (None, S):
                    o = {"safe": safe, "sourcepos": pos}
                    if sb:
                        o["softbreak"] = sb
                    pages[safe, pos, bool(sb)] = sut.HtmlRenderer(o).render(tree)
        for (safe, pos, sb), x in pages.items():
            c.count("combinations compared")
            y = x
            if sb:
                if S in x:
                    c.count("pages with soft breaks")
                y = y.replace(S, "\n")
                if y != pages[safe, pos, False] and re.sub("\n+", "\n", y) != re.sub("\n+", "\n", pages[safe, pos, False]):
                    # (a hard break after a soft one adds no empty line to an alt text)
                    return "softbreak changes more than soft breaks (safe %s, sourcepos %s): %s" % (safe, pos, diff(y, pages[safe, pos, False]))
            if pos:
                z = POS.sub("", x)
                if z != x:
                    c.count("pages with positions")
                if z != pages[safe, False, sb]:
                    return "sourcepos changes more than attributes (safe %s, softbreak %r): %s" % (safe, sb and S, diff(z, pages[safe, False, sb]))
            if sb and S in x:
                v = r.choice([" ", "<br />", "<br />\n", "&", "\"", "  ", "\t", "\r\n", "%s", "\\1", "\n\n", "é"])
                c.count("soft breaks of several kinds")
                y = sut.HtmlRenderer({"safe": safe, "sourcepos": pos, "softbreak": v}).render(tree)
                z = x.replace(S, v)
                if y != z and re.sub("\n+", "\n", y) != re.sub("\n+", "\n", z):
                    return "softbreak %r (safe %s, sourcepos %s): %s" % (v, safe, pos, diff(y, z))
            if safe and not ("<" in text or "&" in text or ":" in text):
                # nothing to leave out
                if x != pages[False, pos, sb]:
                    return "safe changes a page without HTML and schemes: %s" % diff(x, pages[False, pos, sb])


def gens(c):
    return [(3, "document", G.document), (2, "block_soup", G.block_soup), (2, "inline_soup", G.inline_soup), (1, "any", lambda r: G.any_doc(r, sut.REPO)), (1, "spec", G.spec_mutant), (1, "nested", lambda r: "\n".join(c22.nested(r))), (1, "page", c10.page)]
