import random

import gen as G
import sut

ID = "C01"
TECHNIQUE = "exception, type and CPU-budget monitor around every output of hostile, random and coverage-kept inputs"
QUICK = (2000, 45)
THOROUGH = (500000, 1500)
guided = False
RECURSION = 1000            # CPython's default: deep documents must not depend on a raised limit
CASE_CPU = 60
RULE = ("Random and structured texts over all of Unicode (surrogates, NUL, controls), every code point in syntactic positions, very long lines and very deep nesting; each is parsed with smart on and off and "
        "rendered in every format and option setting. Monitors: no exception, results are str, CPU budget per case. Non-trivial: not empty.")
REQUIRE = {"html": 40000, "rst": 15000, "json": 15000, "ast": 15000, "module function": 5000, "deep documents": 150, "surrogate inputs": 1000, "code points": 5000}
ASSUMPTIONS = ["outputs are produced in memory; encoding them for a terminal is the caller's business"]
EXHAUSTIVE_NOTE = "code points in 14 syntactic positions (quick: all below U+0360, separators, surrogate and plane edges and a seeded sample; thorough: all)"

POS = ["{0}", "a{0}b", "*{0}a*{0}", "[{0}]", "[{0}]: {0} \"{0}\"", "[a]({0} '{0}')", "<{0}>", "<a {0}=\"{0}\">", "<x:{0}>", "&{0};", "\\{0}", "`{0}`", "- {0}", "#{0}", "```{0}\n{0}\n```", "1{0}. a", "> {0}", "    {0}", "!{0}[", "_{0}_"]

RENDER = [{}, {"safe": True}, {"sourcepos": True}, {"softbreak": " "}, {"softbreak": "<br />"}, {"safe": True, "sourcepos": True, "softbreak": "<br />"}, {"softbreak": ""}, {"softbreak": None}, {"safe": False, "sourcepos": False}]


def enumerate_(c):
    if c.thorough:
        blocks = range(0, 0x110000, 32)
    else:
        blocks = [b for b in range(0, 0x110000, 32) if b < 0x340 or 0x2000 <= b < 0x2080 or b in (0xD7E0, 0xD800, 0xDBE0, 0xDC00, 0xDFE0, 0xFFE0, 0x10FFE0, 0x1F600, 0x3000, 0xFF00) or (b // 32) % 400 == c.seed % 400]
    for n, b in enumerate(blocks):
        for k in range(0, len(POS), 4):
            yield {"base": b, "pos": [k, k + 4], "opt": n % 9}


def deep(r):
    k = r.random()
    n = r.choice([30, 60, 120, 120, 300, 300, 700, 1100]) if r.random() < .5 else r.choice([30, 60, 120])
    if k < .35:
        unit = r.choice(["> ", "- ", "1. ", "* > ", ">- ", "+ ", ">", "> 1) "])
        m = min(n, 400) if len(unit) > 2 or unit != ">" else n
        return {"x": [["", unit, m, "a\nb\n"]]}
    if k < .5:
        return {"x": [["", r.choice(["*a ", "_a **", "**a ", "*a _b "]), n, "x"], ["", r.choice([" *", "*", "**", "_ *", "** "]), n, ""]]}
    if k < .65:
        return {"x": [["", r.choice(["[", "![", "[a]("]), n, "x"], ["", r.choice(["]", "](/u)", ")", "][]", "][a]"]), n, ""]]}
    if k < .75:
        m = min(n, 120) if r.random() < .9 else min(n, 250)
        return {"nest": [r.choice(["list", "quote", "mixed"]), m]}
    return {"x": [["", r.choice(["`", "`` ", "<", "<a ", "&", "\\", "*", "_", "~~~\n", "# ", "<!--", "a\n", "\n", "\t", "    x\n", "- a\n", "> ", "-\n", "*\n", "[a]: b\n", "![", "](", "\"", "'", "a*b_c", "(", "<?", "]]>", " ", "=\n", "1.\n",
                                   "\r", "\r\n", "\0", "\ud800", "&#0;", "<a b=\"", "http://a.b ", "[a]\n"]), r.choice([10, 100, 100, 1000, 1000, 3000]), r.choice(["", "a", "\n"])]]}


def build(case):
    if isinstance(case, str):
        return case
    if "text" in case:
        return case["text"]
    if "base" in case:
        out = []
        for i in range(case["base"], case["base"] + 32):
            for p in POS[case["pos"][0]:case["pos"][1]]:
                out.append(p.format(chr(i)))
        return "\n\n".join(out)
    if "nest" in case:
        kind, n = case["nest"]
        ls = []
        pre = ""
        for i in range(n):
            k = kind if kind != "mixed" else ("list", "quote")[i % 2]
            if k == "list":
                ls.append(pre + "- a")
                pre += "  "
            else:
                pre += "> "
                ls.append(pre + "b")
        return "\n".join(ls)
    return "".join(a + u * n + b for a, u, n, b in case["x"])


def uni(r):
    return {"text": G.rand_unicode(r, r.randint(1, 60)), "opt": r.randrange(9)}


def spiced(r):
    """Structured documents with odd characters put in."""
    s = r.choice([G.document, G.block_soup, G.inline_soup, G.link_doc, G.spec_mutant, G.emph])(r)
    for _ in range(r.randint(1, 5)):
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(["\0", "\ud800", "\udfff", "\udc80", "\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\ufeff", "\uffff", "\U0010ffff", "&#1;", "&#xd800;", "&#x110000;", "\x7f", "\u0130", "\ufb03", "\\", "&", "\n", "\t",
                              "&#0;", "\u202e", "\u0661", "²", "½", "ⅷ", "1²."]) + s[i:]
    return {"text": s, "opt": r.randrange(9)}


def BIG(text):
    return {"text": text, "opt": len(text) % 9}


def gens(c):
    return [(3, "unicode", uni), (4, "spiced", spiced), (3, "any", lambda r: {"text": G.any_doc(r, sut.REPO), "opt": r.randrange(9)}), (.35, "deep", deep),
            (.5, "mined", lambda r: {"text": G.mined_doc(r, sut.REPO), "opt": r.randrange(9)}),
            (1, "random_ascii", lambda r: {"text": "".join(r.choice("[]()<>*_`~#&;!\\\"'- \n\t:=+1.>ab/?") for _ in range(r.randint(1, 60))), "opt": r.randrange(9)})]


def text_type(x):
    return isinstance(x, str)


def check(case, c):
    text = build(case)
    if not text:
        c.trivial = True
    opt = case.get("opt", 0)
    if "base" in case:
        c.count("code points", 32)
    is_deep = "x" in case or "nest" in case
    if is_deep:
        c.count("deep documents")
    if any(0xD800 <= ord(ch) < 0xE000 for ch in text):
        c.count("surrogate inputs")
    for smart in ((False, True) if "base" not in case else (opt % 2 == 0,)):
        doc = sut.Parser({"smart": smart} if smart or opt % 2 else None).parse(text)
        if getattr(doc, "t", None) != "document":
            return "parse returned %r" % (doc,)
        for o in ([RENDER[opt], RENDER[(opt + 3) % 9]] if not is_deep else [RENDER[5]]):
            h = sut.HtmlRenderer(dict(o)).render(doc)
            if not text_type(h):
                return "HTML is a %s" % type(h).__name__
            c.count("html")
        if smart and opt % 3:
            continue
        s = sut.ReStructuredTextRenderer().render(doc)
        if not text_type(s):
            return "RST is a %s" % type(s).__name__
        c.count("rst")
        j = sut.dumpJSON(doc)
        if not text_type(j):
            return "JSON is a %s" % type(j).__name__
        c.count("json")
        p, _ = sut.printed(sut.dumpAST, doc)
        if not text_type(p) or not p:
            return "the printed AST is empty"
        c.count("ast")
    if opt == 0:
        for f in ("html", "json", "rst"):
            if not text_type(sut.commonmark.commonmark(text, f)):
                return "commonmark(text, %r) returned no text" % f
            c.count("module function")
        p, _ = sut.printed(sut.commonmark.commonmark, text, "ast")
        if not p:
            return "commonmark(text, 'ast') printed nothing"
