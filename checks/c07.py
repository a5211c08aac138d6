import itertools

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C07"
TECHNIQUE = "reference-model monitor plus placement/order/spelling metamorphic monitors on reference definitions"
QUICK = (6500, 40)
THOROUGH = (400000, 1200)
guided = True
RULE = ("Documents with definitions of every shape in every container, before and after their uses; every definition tail of up to 4 (thorough 5) tokens; labels respelled by case and whitespace "
        "for every character with a case mapping; shuffled, repeated and relocated definitions. Resolved links and remaining text are compared with the model or with the constructed expectation. "
        "Non-trivial: the document contains a definition-like text.")
REQUIRE = {"definitions": 20000, "resolved": 10000, "case pairs": 1000, "relocated": 1000, "first wins": 1000, "documents compared": 20000}
ASSUMPTIONS = ["lib/refmodel.py states the definition grammar of CommonMark 0.29; str.casefold is the Unicode case fold"]
EXHAUSTIVE_NOTE = "'[f]:' + all sequences of up to 4 (5) tail tokens; every code point whose case fold differs from itself or has several spellings"

TAIL = [" ", "\n", "/u", "<u v>", "<>", "\"t\"", "'t'", "(t)", "x", "\"t", "\t", "\\", "\n\n", "[g]: /g", "\"a\nb\""]
TAIL5 = [" ", "\n", "/u", "<>", "\"t\"", "(t)", "x", "\"t", "[g]: /g"]


def case_chars():
    out = []
    for i in range(0x110000):
        if 0xD800 <= i < 0xE000:
            continue
        ch = chr(i)
        vs = sorted({v for v in (ch.lower(), ch.upper(), ch.title(), ch.casefold()) if v != ch and v.casefold() == ch.casefold()})
        for v in vs:
            out.append((ch, v))
    return out


def enumerate_(c):
    for n in range(0, 5):
        if n < 4:
            it = itertools.product(TAIL, repeat=n)
        else:
            it = itertools.product(TAIL if c.thorough else TAIL5, repeat=n)
        for t in it:
            yield {"text": "[f]:" + "".join(t) + "\n\n[f] [g]"}
    cs = case_chars()
    for i in range(0, len(cs), 6):
        yield {"pairs": cs[i:i + 6]}
    for n in (1, 2, 500, 996, 997, 998, 999, 1000, 1001):
        for form in ("a" * n, ("a " * n)[:n - 1] + "b", "\\]" * (n // 2) + "x" * (n % 2), "a" + "\n" * min(1, n - 2) + "b" * max(0, n - 2), "é" * n):
            for use in ("[%s]", "[%s][]", "[z][%s]", "![%s]"):
                yield {"text": "[" + form + "]: /u\n\n" + use % form}


def BIG(text):
    return {"text": text}


def gens(c):
    return [(3, "soup", soup), (2, "place", place), (1.5, "first", first), (1.5, "spell", spell), (1, "link_doc", lambda r: {"text": G.link_doc(r)}),
            (.6, "document", lambda r: {"text": "\n".join(G.blocks(r) + G.refdef(r).split("\n") + [""] + G.blocks(r) + [G.link(r)])}),
            (.4, "spec", lambda r: {"text": G.spec_mutant(r)}), (.3, "any", lambda r: {"text": G.any_doc(r, sut.REPO)})]


def soup(r):
    out = []
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .6:
            out += G.refdef(r).split("\n")
        elif k < .75:
            out.append(G.link(r))
        elif k < .85:
            out.append(r.choice(["", "", "===", "---", "text", "# h", "```", "<div>", "    code", "***", "\"t\"", "'t'", "- a", "> q"]))
        else:
            out.append("[%s]" % G.label(r))
        if r.random() < .4:
            out.append("")
    k = r.random()
    if k < .3:
        pre = r.choice(["> ", "- ", "1. "])
        out = [(pre if i == 0 or pre == "> " and r.random() < .9 else " " * len(pre)) + x for i, x in enumerate("\n".join(out).split("\n"))]
    return {"text": "\n".join(out) + "\n\n" + " ".join("[%s]" % r.choice(G.LABELS) for _ in range(3))}


LBL = ["alpha", "beta", "gamma", "delta", "eps", "Zeta two", "eta-3", "θ", "i*o*ta", "k`ap", "λ\\]x", "a&amp;b", "1", "n.u"]


def definition(r, lab, k):
    d = "/u%d" % k
    t = r.choice(["", "", "t%d" % k, "t%d" % k])
    sep = r.choice([" ", "\n", "\n  ", "\t", "  "])
    tq = r.choice(["\"%s\"", "'%s'", "(%s)"]) % t if t else ""
    return "[%s]:%s%s%s" % (lab, r.choice([" ", "\n", "", "\t", "\n "]), r.choice([d, "<%s>" % d]), (sep + tq) if t else ""), d, t


def place(r):
    """Definitions put at random places; the uses must resolve to them."""
    labs = r.sample(LBL, r.randint(1, 6))
    defs, uses = [], []
    for k, lab in enumerate(labs):
        s, d, t = definition(r, lab, k)
        defs.append(s)
        uses.append(r.choice([["[%s]" % lab, 0], ["[txt%d][%s]" % (k, lab), 0], ["[%s][]" % lab, 0], ["![%s]" % lab, 1], ["![alt][%s]" % lab, 1]]) + [d, t])
    blocks = []
    for s in defs:
        w = r.random()
        if w < .3:
            blocks.append(s)
        elif w < .5:
            blocks.append("\n".join("> " + x for x in s.split("\n")))
        elif w < .7:
            blocks.append("- " + "\n  ".join(s.split("\n")))
        elif w < .8:
            blocks.append("> 1. " + "\n>    ".join(s.split("\n")))
        elif w < .9:
            blocks.append(s + "\ntext after " + "w")
        else:
            blocks.append("   " + "\n   ".join(x.lstrip() for x in s.split("\n")))
    for u in uses:
        blocks.append(r.choice(["%s", "> %s", "- %s", "# %s", "a %s b", "*%s*", "1. x\n   - %s"]) % u[0])
    if r.random() < .4:
        blocks.append("filler")
    order = list(range(len(blocks)))
    r.shuffle(order)
    i0 = len(defs)
    return {"text": "\n\n".join(blocks[i] + ("\n\n<!-- -->" if blocks[i][:2] in ("> ", "- ", "1.") else "") for i in order),
            "uses": [uses[i - i0] for i in order if i0 <= i < i0 + len(uses)]}


def first(r):
    """Several definitions of one label: the first counts, wherever the others are."""
    lab = r.choice(LBL)
    n = r.randint(2, 6)
    ds = [definition(r, r.choice([lab, lab.upper() if lab.isalpha() else lab, " " + lab + " "]), k) for k in range(n)]
    body = []
    for s, d, t in ds:
        w = r.random()
        body.append(s if w < .5 else "\n".join("> " + x for x in s.split("\n")) + "\n" if w < .75 else "- " + "\n  ".join(s.split("\n")) + "\n\n<!-- -->")
    use = r.choice(["[%s]", "[x][%s]", "[%s][]"]) % lab
    at = r.randint(0, n)
    body[at:at] = ["", use, ""]
    return {"text": "\n\n".join(body), "uses": [[use, 0, ds[0][1], ds[0][2]]], "first": 1}


def spell(r):
    """Respelled labels: case, inner and outer whitespace."""
    base = [G.word(r) if r.random() < .5 else r.choice(["Straße", "ΑΓΩ", "ﬁn", "Ǆ", "ŉ", "ὒ", "ẞ", "Ⅷ", "ⓐ", "Կ", "abc", "i̇"]) for _ in range(r.randint(1, 4))]

    def var(w):
        v = r.choice([w, w, w.upper(), w.lower(), w.casefold(), w.title(), w.swapcase()])
        return v if v.casefold() == w.casefold() else w

    def ws():
        return r.choice([" ", " ", "  ", "\t", " \t ", "\n", " \n ", "\x0b", "\x0c"])

    def out():
        return r.choice(["", "", " ", "\t", "  "])
    sp = [out() + "".join((ws() if i else "") + var(w) for i, w in enumerate(base)) + out() for _ in range(3)]
    return {"text": "[%s]: /u\n\n[t][%s]\n\n[%s]" % tuple(sp), "dests": ["/u", "/u"]}


def check(case, c):
    if "pairs" in case:
        text = "\n".join("[x%s]: /u%d" % (a, i) for i, (a, b) in enumerate(case["pairs"])) + "\n\n" + "\n\n".join("[t][x%s]" % b for a, b in case["pairs"])
        a = sut.tree(text)
        got = [x["dest"] for x in canon.walk(a) if x["t"] == "link"]
        want = []
        firsts = {}
        for i, (x, y) in enumerate(case["pairs"]):
            want.append("/u%d" % firsts.setdefault(("x" + x).casefold(), i))
        c.count("case pairs", len(want))
        if got != want:
            return "labels differing in case only: links resolve to %r, expected %r" % (got, want)
        return
    text = case["text"]
    if "]:" not in text:
        c.trivial = True
    a, b = sut.tree(text), M.parse(text)
    c.count("definitions", text.count("]:"))
    c.count("resolved", sum(x["t"] in ("link", "image") for x in canon.walk(a)))
    if "dests" in case:
        got = [x["dest"] for x in canon.walk(a) if x["t"] == "link"]
        if got != case["dests"] and [x["dest"] for x in canon.walk(b) if x["t"] == "link"] == case["dests"]:
            return "respelled labels resolve to %r, expected %r" % (got, case["dests"])
    if "uses" in case:
        want = [("image" if u[1] else "link", u[2], u[3]) for u in case["uses"]]

        def got(t):
            return [(x["t"], x["dest"], x["title"]) for x in canon.walk(t) if x["t"] in ("link", "image")]
        if got(b) == want:
            c.count("first wins" if case.get("first") else "relocated")
            if got(a) != want:
                return "uses resolve to %r, expected %r" % (got(a), want)
    x, y = proj.loose_dest(strip_lists(proj.no_emph_all(a))), proj.loose_dest(strip_lists(proj.no_emph_all(b)))
    if x != y:
        # judged only where definitions are at stake: links, leftover text, vanished paragraphs
        if "]:" not in text or links(x) == links(y) and letters(x) == letters(y) and n_par(x) == n_par(y):
            c.count("documents with other differences")
            return
        return "definitions: observed vs expected at " + str(canon.first_diff(x, y))
    c.count("documents compared")


def links(d):
    return [(x["t"], x["dest"], x["title"]) for x in canon.walk(d) if x["t"] in ("link", "image")]


def letters(d):
    return [ch for ch in proj.flat_text(d) if ch not in "*_ \n"]


def n_par(d):
    return sum(x["t"] == "paragraph" for x in canon.walk(d))


def strip_lists(d):
    r = {k: v for k, v in d.items() if k not in ("c", "tight", "mark", "start_no")}
    if "c" in d:
        r["c"] = [strip_lists(x) for x in d["c"]]
    return r
