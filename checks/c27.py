import html
import html.entities
import json
import os
import subprocess
import sys
import unicodedata

import gen as G
import sut
from commonmark import entitytrans
from commonmark.normalize_reference import normalize_reference

try:
    from commonmark.normalize_reference import XLAT
except ImportError:
    XLAT = None

ID = "C27"
TECHNIQUE = "differential monitor: the bundled entity decoder, tables and case folding against the standard library's, and the library loaded as an old Python would load it against itself"
QUICK = (12000, 45)
THOROUGH = (400000, 1200)
RULE = ("Every entity name and prefix, every numeric reference, every code point's folding (enumerated), and random strings of references and folding-sensitive characters are decoded and folded by the bundled code and by Python's. "
        "Three child processes load the library natively, as Python 3.3 (bundled entity table and case folding) and as a narrow Python 2 build (folding of UTF-16 units); labels and rendered documents must agree. Non-trivial: a reference or a folded character occurs.")
REQUIRE = {"references": 200000, "code points": 1000000, "labels": 20000, "documents": 10000, "entity names": 2231, "folded labels": 10000}
ASSUMPTIONS = ["foldings added after Unicode 12 (the bundled table's version) are left to the native implementation", "old versions are simulated by what the library inspects (sys.version_info, sys.maxunicode, str.casefold); Python 2 itself is not here"]
EXHAUSTIVE_NOTE = "all names of html.entities.html5 (with ';', without, with a suffix, as every proper prefix), all numeric references 0..0x120000 in decimal and hexadecimal, all 0x110000 code points' foldings"
COVER = False
SHRINK = True

# Unicode 13-15 foldings
LATER = {0x2c2f, 0xa7c0, 0xa7c7, 0xa7c9, 0xa7d0, 0xa7d6, 0xa7d8, 0xa7f5} | set(range(0x10570, 0x10596))
FOLDS = [i for i in range(0x110000) if chr(i).casefold() != chr(i) and i not in LATER]
NAMES = sorted(html.entities.html5)


def begin(c):
    c.state["kids"] = {}


class NotLoaded(Exception):
    pass


def kid(c, mode):
    k = c.state["kids"].get(mode)
    if k is None:
        e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.abspath(sut.__file__)), VERIF_REPO=sut.REPO)
        k = subprocess.Popen([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(sut.__file__)), "oldpy.py"), mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)
        ln = k.stdout.readline()
        if not ln:
            raise RuntimeError("the %s process did not start" % mode)
        info = json.loads(ln)
        if "load" in info:
            c.state["kids"][mode] = k
            c.state[mode] = info
        else:
            c.count("%s: bundled entity table in use" % mode, bool(info["html5"]))
            c.count("%s: bundled folding in use" % mode, bool(info["bundled fold"]))
            c.state["kids"][mode] = k
    if mode in c.state:
        raise NotLoaded(mode)
    return k


def ask(c, mode, op, text):
    k = kid(c, mode)
    k.stdin.write(json.dumps({"op": op, "text": text}).encode() + b"\n")
    k.stdin.flush()
    ln = k.stdout.readline()
    if not ln:
        raise RuntimeError("the %s process died" % mode)
    r = json.loads(ln)
    return r["r"] if "r" in r else "raised " + r["e"]


def finish(c):
    for k in c.state.get("kids", {}).values():
        k.stdin.close()
        k.wait()
        k.stdout.close()


def enumerate_(c):
    for i in range(0, len(NAMES), 32):
        yield ["names", i]
    for i in range(0, 0x120000, 2048):
        yield ["numeric", i]
    for i in range(0, 0x110000, 8192):
        yield ["fold", i]
    for i in range(0, len(NAMES), 256):
        yield ["html", " ".join("&" + n + ("" if n.endswith(";") else " ") for n in NAMES[i:i + 256])]
    for i in range(0, len(FOLDS), 24):
        yield ["labeldoc", [chr(x) for x in FOLDS[i:i + 24] if not 0xd800 <= x < 0xe000]]


def unesc(s):
    if not hasattr(entitytrans, "_unescape"):
        return None
    a, b = entitytrans._unescape(s), html.unescape(s)
    if a != b:
        return "_unescape(%r) is %r, the standard library gives %r" % (s, a, b)


def check(case, c):
    try:
        return check_(case, c)
    except NotLoaded as e:
        info = c.state[str(e)]
        if info["own"]:
            return "the library cannot be loaded as an old Python would (%s): %s" % (e, info["load"])
        c.skip("simulating %s failed: %s" % (e, info["load"]))


def ask_or_native(c, mode, op, text, want):
    """Answer of a simulated version, or what is expected where it cannot be simulated."""
    try:
        return ask(c, mode, op, text)
    except NotLoaded:
        if c.state[mode]["own"]:
            raise
        c.count("not simulated: " + mode)
        return want


def check_(case, c):
    op, x = case
    if isinstance(x, str) and any(ord(k) in LATER for k in x):
        c.skip("a folding later than the table's version")
    if op == "names":
        for n in NAMES[x:x + 32]:
            c.count("entity names")
            v = entitytrans._html5.get(n)
            if v != html.entities.html5[n]:
                return "the table has %r for &%s, the standard %r" % (v, n, html.entities.html5[n])
            for s in ["&" + n, "&" + n + "x", "&" + n + ";", "x&" + n + "&" + n, "&" + n.upper(), "&" + n[1:]] + ["&" + n[:k] + t for k in range(1, len(n)) for t in ("", "zq;")]:
                c.count("references")
                m = unesc(s)
                if m:
                    return m
        if x == 0:
            extra = set(entitytrans._html5) - set(html.entities.html5)
            if extra:
                return "the table has names the standard has not: %r" % sorted(extra)[:3]
        return None
    if op == "numeric":
        for i in range(x, x + 2048):
            for s in ("&#%d;" % i, "&#x%x;" % i, "&#X%X" % i):
                c.count("references")
                m = unesc(s)
                if m:
                    return m
        return None
    if op == "fold":
        chars = [chr(i) for i in range(x, x + 8192) if not 0xd800 <= i < 0xe000 and i not in LATER]
        for mode in ("py33", "narrow"):
            wants = [normalize_reference("[a" + ch + "b]") for ch in chars]
            for ch, got, want in zip(chars, ask_or_native(c, mode, "labels", ["[a" + ch + "b]" for ch in chars], wants), wants):
                if got != want:
                    return "the label [a%sb] (U+%04X) is normalized to %r natively and to %r with the bundled folding (%s)" % (ch, ord(ch), want, got, mode)
        for i in range(x, x + 8192):
            c.count("code points")
            if XLAT is None:
                continue
            ch = chr(i)
            t = XLAT.get(i)
            f = ch.casefold()
            if t is not None and str(t) != f:
                return "the table folds U+%04X to %r, Unicode to %r" % (i, t, f)
            if t is None and f != ch and i not in LATER:
                return "the table has no folding for U+%04X (%r)" % (i, f)
            if 0xd800 <= i < 0xe000 or ch in "[]\\":
                continue
            if t is not None and normalize_reference("[" + ch + "]") != f:
                return "normalize_reference('[U+%04X]') is %r, not %r" % (i, normalize_reference("[" + ch + "]"), f)
        return None
    if op == "unescape":
        c.count("references", x.count("&"))
        c.trivial = "&" not in x
        return unesc(x)
    if op == "label":
        c.count("labels")
        s = "[" + x + "]"
        want = normalize_reference(s)
        if x.casefold() != x:
            c.count("folded labels")
        else:
            c.trivial = True
        for mode in ("py33", "narrow"):
            if mode == "narrow" and any(0xd800 <= ord(k) < 0xe000 for k in x):
                continue
            got = ask_or_native(c, mode, "label", s, want)
            if got != want:
                return "label %r is normalized to %r natively and to %r with the bundled folding (%s)" % (s, want, got, mode)
        return None
    if op == "labeldoc":
        text = " ".join("[%s]" % k.casefold() for k in x) + "\n\n" + "\n".join("[%s]: /u%d" % (k, i) for i, k in enumerate(x))
    else:
        text = x
    c.count("documents")
    c.trivial = "&" not in text and "]:" not in text
    want = ask(c, "native", "html", text)
    got = ask_or_native(c, "py33", "html", text, want)
    if want != got:
        i = 0
        while i < min(len(want), len(got)) and want[i] == got[i]:
            i += 1
        return "rendered %r natively, %r with the bundled tables" % (want[max(0, i - 20):i + 40], got[max(0, i - 20):i + 40])
    if op == "labeldoc" and want.count("<a href") < len(x):
        return "of %d labels given in folded form only %d match" % (len(x), want.count("<a href"))


def refs(r):
    def one():
        k = r.random()
        if k < .35:
            n = r.choice(NAMES)
            return "&" + r.choice([n, n.rstrip(";"), n[:r.randint(1, len(n))], n.lower(), n + r.choice("abc;&")])
        if k < .7:
            i = r.choice([r.randrange(0x110000), r.randrange(0xa0), r.choice([0, 0x80, 0x9f, 0xd800, 0xdfff, 0xfdd0, 0xfffe, 0x10ffff, 0x110000, 9999999, 13, 10 ** 12])])
            return r.choice(["&#%d;", "&#x%x;", "&#X%X;", "&#%d", "&#x%x", "&#%07d;", "&#x%06x;"]) % i
        return r.choice(["&", ";", "#", "&#", "&#x", "&#;", "&&", "x", " ", "&amp;amp;", "\n", "\\&amp;", "&\t;", "é", "<", "a" * 33, "&" + "a" * 40 + ";"])
    return "".join(one() for _ in range(r.randint(1, 8)))


def lab(r):
    return "".join(r.choice([chr(r.choice(FOLDS)), chr(r.choice(FOLDS)), chr(r.choice([x for x in FOLDS[-300:]])), "a", "B", " ", "\n", "\t ", "\xa0", "ß", "İ", "Σς", "😀", "\U0001d504", "ı", "K", "\x0b", "ﬃ", "\U00010400", "\U0001e900", "\u2003", "日", chr(r.randrange(0x20, 0x3000)), chr(r.randrange(0x10000, 0x110000))]) for _ in range(r.randint(1, 6)))


def labdoc(r):
    ls = [lab(r).replace("\n", " ") for _ in range(r.randint(1, 4))]
    ls = [l for l in ls if not set(l) & set("[]\\`<&*_!\"'") and l.strip()] or ["ẞ"]
    ls += [l for l in (f(k) for k in ls for f in (str.upper, str.lower, str.casefold, str.swapcase)) if r.random() < .5]
    return "\n".join("[%s]: /u%d" % (l, i) for i, l in enumerate(r.sample(ls, len(ls)))) + "\n\n" + " ".join("[%s]" % l for l in ls)


def BIG(text):
    return ["html", text]


def gens(c):
    return [(4, "references", lambda r: ["unescape", refs(r)]), (3, "labels", lambda r: ["label", lab(r)]), (1, "documents with references", lambda r: ["html", "\n\n".join(refs(r) for _ in range(3))]), (1, "documents with labels", lambda r: ["html", labdoc(r)]),
            (.7, "any", lambda r: ["html", r.choice([G.document, G.link_doc, G.spec_mutant])(r)])]


def smaller(case):
    import harness
    if case[0] in ("names", "numeric", "fold"):
        return
    for t in harness.smaller(case[1]):
        yield [case[0], t]
