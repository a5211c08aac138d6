import itertools
import unicodedata

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C05"
TECHNIQUE = "reference-model monitor on emphasis trees, enumerated delimiter strings and Unicode flanking contexts"
QUICK = (9000, 40)
THOROUGH = (600000, 1200)
guided = True
RULE = ("Inline texts rich in delimiter runs: generated ones, every string of up to 7 (thorough 9) characters over '*_a .', and every Unicode character class around runs. "
        "The inline tree (emph, strong, leftover literal text) is compared with a nearest-opener model wherever the other inline constructs agree. "
        "Non-trivial: the text has a * or _.")
REQUIRE = {"emph": 20000, "strong": 10000, "paragraphs compared": 50000, "literal delimiters": 20000, "flanking characters": 500}
ASSUMPTIONS = ["lib/refmodel.py resolves emphasis by a plain nearest-opener search as rules 1-17 of CommonMark 0.29 say"]
EXHAUSTIVE_NOTE = "all strings over '*_a .' up to length 7 (quick) / 9 (thorough); all strings of 5 (6) run tokens; each character of the punctuation, space and symbol categories next to runs"

RUNS = ["*", "**", "***", "_", "__", "a", " ", ".", "****"]


def chars(c):
    cs = [chr(i) for i in range(0x110000) if not 0xD800 <= i < 0xE000]
    sel = [x for x in cs if unicodedata.category(x)[0] in "PZ" or unicodedata.category(x) in ("Sc", "Sk", "Sm", "Cf", "Cc")]
    if c.thorough:
        return cs
    return sel + cs[c.seed % 97::97]


def enumerate_(c):
    n = 9 if c.thorough else 7
    batch = []
    for k in range(1, n + 1):
        for t in itertools.product("*_a .", repeat=k):
            if t[0] == " " or t[-1] == " " or not ("*" in t or "_" in t):
                continue
            batch.append("z" + "".join(t) if k > 6 else "".join(t))
            if len(batch) == 12:
                yield {"t": batch}
                batch = []
    for k in range(2, 7 if c.thorough else 6):
        for t in itertools.product(RUNS, repeat=k):
            batch.append("".join(t))
            if len(batch) == 12:
                yield {"t": batch}
                batch = []
    yield {"t": batch}
    cs = [x for x in chars(c) if x not in "\n\r\0"]
    for i in range(0, len(cs), 4):
        yield {"u": "".join(cs[i:i + 4])}


def nested(r):
    """Long and deep delimiter structures."""
    k = r.random()
    if k < .3:
        n = r.randint(2, 40)
        return "".join(r.choice(["*", "**", "_", "__", "***"]) + G.word(r) for _ in range(n)) + "".join(r.choice(["*", "**", "_", "***"]) for _ in range(r.randint(0, n)))
    if k < .6:
        parts = []
        for _ in range(r.randint(1, 25)):
            parts.append(r.choice(["*", "**", "***", "_", "__", "*" * r.randint(4, 13), "_" * r.randint(3, 9)]))
            parts.append(r.choice(["a", "a ", " a", " ", ".", "(", ")", "é", "a.", "\n", "`*`", "<http://a*b>", "\\*", "&#42;", "[", "](/u)", "![", "[foo]"]))
        return "".join(parts)
    if k < .8:
        d = r.choice(["*", "_", "**", "__"])
        e = r.choice(["*", "_", "**", "***"])
        return (d + "a " + e + "b ") * r.randint(1, 15) + (e + " " + d) * r.randint(0, 10) + "c" + (e + d) * r.randint(0, 10)
    return "".join(r.choice("*_") * r.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 30]) + r.choice(["a", " ", ".", "a ", "", "\u00a0", "«", "\u2003", "€"]) for _ in range(r.randint(2, 12)))


def BIG(text):
    return text


def gens(c):
    return [(3, "emph", lambda r: "x" + G.emph(r) if r.random() < .5 else G.emph(r)), (3, "nested", nested), (1, "inline_soup", G.inline_soup),
            (1, "link_emph", lambda r: G.link(r, text=G.emph(r, 5)) + G.emph(r, 5) if r.random() < .5 else r.choice("*_") + G.link(r) + G.emph(r)),
            (.5, "spec", G.spec_mutant), (.5, "any", lambda r: G.any_doc(r, sut.REPO)), (.3, "mined", lambda r: G.mined_doc(r, sut.REPO)),
            (.5, "document", G.document)]


def texts(case):
    if isinstance(case, dict):
        if "t" in case:
            return "\n\n".join(case["t"])
        out = []
        for ch in case["u"]:
            out += ["a*%s*" % ch, "*%sa*" % ch, "*a%s*" % ch, "*a*%s" % ch, "%s*a*" % ch, "_a_%s" % ch, "%s_a_" % ch, "a%s_b_" % ch, "_a%s_b" % ch, "a**%sb**c" % ch, "x_%sy_" % ch, "a*%s*b" % ch]
        return "\n\n".join("z " + x for x in out)
    return case


def check(case, c):
    text = texts(case)
    if isinstance(case, dict) and "u" in case:
        c.count("flanking characters", len(case["u"]))
    if "*" not in text and "_" not in text:
        c.trivial = True
        return
    a, b = sut.tree(text), M.parse(text)
    pa, pb = proj.paragraphs(a), proj.paragraphs(b)
    if len(pa) != len(pb):
        c.skip("blocks differ")
    for x, y in zip(pa, pb):
        n = {"emph": 0, "strong": 0}
        for k in canon.walk(x):
            if k["t"] in n:
                c.count(k["t"])
            elif k["t"] == "text" and ("*" in k["s"] or "_" in k["s"]):
                c.count("literal delimiters")
        x, y = proj.loose_dest(x), proj.loose_dest(y)
        if x["c"] == y["c"]:
            c.count("paragraphs compared")
            continue
        if others(x) != others(y):
            c.count("paragraphs with other differences")
            continue
        return "emphasis differs: observed vs expected at " + str(canon.first_diff(x, y))


def others(x):
    """The inline constructs that bind tighter than emphasis, in order, and the text without delimiters."""
    out = []
    for k in canon.walk(x):
        if k["t"] in ("code", "html_inline"):
            out.append((k["t"], k["s"]))
        elif k["t"] in ("link", "image"):
            out.append((k["t"], k["dest"], k["title"]))
        elif k["t"] in ("softbreak", "linebreak"):
            out.append(k["t"])
    # whether it is lost delimiters or other lost text: letters must agree
    return out, [ch for ch in proj.flat_text(x) if ch not in "*_"]
