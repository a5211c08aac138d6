import itertools
import re

import canon
import gen as G
import sut

ID = "C17"
TECHNIQUE = "metamorphic monitor: the same lines under every line-ending style, with and without the last one, and NUL against U+FFFD"
QUICK = (2700, 45)
THOROUGH = (300000, 1200)
RULE = ("Documents of every kind written with LF, CR LF, CR and random mixtures, with and without an ending after the last line, and with NULs put in. Tree with positions, HTML (with sourcepos), RST, JSON and printed AST must be equal, "
        "and no output may hold NUL. Non-trivial: at least two lines or a NUL.")
REQUIRE = {"variants": 100000, "CR": 10000, "CR LF": 10000, "mixed": 20000, "last ending": 15000, "NUL": 4000, "lines": 200000}
ASSUMPTIONS = ["a CR ending followed by an empty line ending in LF is one CR LF and not used as a mixture"]
EXHAUSTIVE_NOTE = "all strings over a, LF, CR and one block marker up to length 7 (8), each read as its lines"


def lines_of(text):
    return re.split("\r\n|\n|\r", text)


def enumerate_(c):
    for m in ("-", ">", "`", "#", " ", "\t", "    x", "```", "<!--"):
        for k in range(1, (9 if len(m) == 1 else 8) if c.thorough else (8 if len(m) == 1 else 7)):
            batch = []
            for t in itertools.product(["a", "\n", "\r", m], repeat=k):
                if "\r" in t:
                    batch.append("".join(t))
                    if len(batch) == 200:
                        yield {"strings": batch}
                        batch = []
            if batch:
                yield {"strings": batch}


def doc(r):
    s = G.any_doc(r, sut.REPO) if r.random() < .6 else r.choice([G.document, G.block_soup, G.link_doc, G.spec_mutant])(r)
    if r.random() < .25:
        for _ in range(r.randint(1, 4)):
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(["\0", "\0\0", "&#0;", "a\0b", "\ufffd"]) + s[i:]
    return {"text": s, "mix": r.randrange(1 << 30)}


WITHNL = ["`a\nb`", "[a\nb](/u\n\"t\n u\")", "[x]: /u\n'a\nb'\n\n[x]", "[f\noo]\n\n[F OO]: /u", "<b\na='c\nd'>", "<!-- a\nb -->", "a  \nb", "a\\\nb", "a \nb", "<div>\na\n\nb", "```\na\n\nb\n```", "    a\n\n\n    b", "> a\nb\n> c", "- a\n\n\n  b\n- c",
          "h\n===", "h\ni\n---", "<?a\nb?>", "<![CDATA[\n]]>", "<!A\nb>", "![a\nb](/u)", "**a\nb**", "\"a\nb\"", "# a\nb", "<pre>\n\na</pre>\nb", "~~~\n\n~~~", "-\n  a", "-\n\n  a", ">\n> a\n>", "&#10;\na", "a\n\n\n\nb", "[x]:\n/u\n\n[x]", "\n\n a\n",
          "- a\n  b\n\n      c\n\n\n  d", "\ta\n\n\tb\n", "* * *\na\n***", "[a]: b\n[c]: d 'e\n\nf'\n[a][c]"]


def multi(r):
    return {"text": r.choice(["\n", "\n\n", "\n\n\n"]).join(r.choice(WITHNL) for _ in range(r.randint(1, 4))) + r.choice(["", "\n", "\n\n", " ", "\n \n"]), "mix": r.randrange(1 << 30)}


def BIG(text):
    return {"text": text, "mix": len(text)}


def gens(c):
    return [(4, "any", doc), (3, "multi-line constructs", multi), (.5, "unicode", lambda r: {"text": G.rand_unicode(r, 40), "mix": r.randrange(1 << 30)})]


def everything(text, light=False):
    d = sut.parse(text)
    res = [canon.canon(d, True), sut.HtmlRenderer({"sourcepos": True}).render(d)]
    if not light:
        res += [sut.ReStructuredTextRenderer().render(d), sut.dumpJSON(d), sut.printed(sut.dumpAST, d)[0]]
    return res


NAMES = ["tree", "HTML", "RST", "JSON", "printed AST"]


def differ(a, b):
    for n, x, y in zip(NAMES, a, b):
        if x != y:
            if n == "tree":
                return "trees: " + str(canon.first_diff(x, y))
            i = 0
            while i < min(len(x), len(y)) and x[i] == y[i]:
                i += 1
            return "%s: ...%r against ...%r" % (n, x[max(0, i - 30):i + 60], y[max(0, i - 30):i + 60])


def join(lines, ends):
    return "".join(a + b for a, b in zip(lines, ends + [""]))


def mixture(lines, r):
    out = []
    for i, _ in enumerate(lines[1:]):
        e = r.choice(["\n", "\r\n", "\r"])
        if out and out[-1] == "\r" and lines[i] == "" and e[0] == "\n":
            e = "\r"
        out.append(e)
    return out


def check(case, c):
    if "strings" in case:
        for s in case["strings"]:
            ls = lines_of(s)
            want = everything("\n".join(ls), True)
            got = everything(s, True)
            c.count("variants")
            c.count("mixed")
            d = differ(got, want)
            if d:
                return "%r and its lines joined by LF differ in %s" % (s, d)
        return
    import random
    r = random.Random(case["mix"])
    lines = lines_of(case["text"])
    text = "\n".join(lines)
    c.trivial = len(lines) < 2 and "\0" not in text
    c.count("lines", len(lines))
    base = everything(text)
    m1 = mixture(lines, r)
    for name, ends in (("CR", ["\r"] * (len(lines) - 1)), ("CR LF", ["\r\n"] * (len(lines) - 1)), ("mixed", m1), ("mixed", mixture(lines, r))):
        v = join(lines, ends)
        if len(lines) > 1:
            c.count("variants")
            c.count(name)
            d = differ(everything(v, name != "mixed"), base)
            if d:
                return "%s endings (%r) change the %s" % (name, v if len(v) < 300 else v[:300], d)
    if lines[-1] != "":
        for e in ("\n", "\r", "\r\n"):
            v = join(lines, m1) + e
            c.count("variants")
            c.count("last ending")
            d = differ(everything(v, e != "\n"), base)
            if d:
                return "the ending %r after the last line changes the %s" % (e, d)
    if "\0" in text or r.random() < .3:
        if "\0" not in text:
            i = r.randint(0, len(text))
            text = text[:i] + "\0" + text[i:]
        c.count("NUL")
        a = everything(text)
        d = differ(a, everything(text.replace("\0", "\ufffd")))
        if d:
            return "NUL and U+FFFD differ in %s" % d
        for n, x in zip(NAMES, a):
            if "\0" in (repr(x).replace("\\x00", "\0") if n == "tree" and "\\x00" not in text else x if n != "tree" else ""):
                return "NUL in the %s" % n
        if "\\u0000" in a[3] and "\\u0000" not in text:
            return "NUL in the JSON"
    elif "&#0;" in text or "&#x0;" in text:
        if any("\0" in x for x in base[1:]):
            return "NUL in an output"
