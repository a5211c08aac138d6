import html.entities
import random
import re
import unicodedata
import urllib.parse

import canon
import c03
import c05
import c06
import c10
import c22
import gen as G
import refmodel as M
import sut

ID = "C29"
TECHNIQUE = "metamorphic monitor: the same document written in two alphabets; trees, pages and reStructuredText must differ in those characters only"
QUICK = (1100, 90)
THOROUGH = (150000, 1200)
guided = True
EXHAUSTIVE_NOTE = "one document with every construct in every alphabet of 26 consecutive fitting characters of the basic plane (one in ten of the Han and Hangul ranges) and of the assigned parts of the next"
RULE = ("Documents of every kind are written twice, their letters replaced one for one by those of two alphabets (scripts with and without case, outside the basic plane, combining marks, digits of other scripts, symbols, controls, "
        "unassigned code points; or two orders of the ASCII letters when no name of HTML is spelt). Tree with source positions, HTML and reStructuredText of one, with the characters replaced, must be those of the other. Non-trivial: markup was recognised.")
REQUIRE = {"pairs": 5000, "nodes compared": 60000, "cased alphabets": 1500, "caseless alphabets": 2000, "ASCII orders": 500, "links": 1500, "definitions used": 400, "pages": 4500, "windows": 2000, "other alphabets": 3000}
ASSUMPTIONS = ["ASCII control characters (not allowed in a destination) and characters of the categories P and Z and tab, newline, form feed and return are not exchanged with others"]


def run(a, n=26):
    return [chr(a + i) for i in range(n)]


def pairs(low):
    up = [x.upper() for x in low]
    assert all(len(u) == 1 and u != x and u.casefold() == x.casefold() == x for u, x in zip(up, low)), low
    return low, up


# 26 small letters and their capitals
CASED = {
    "ASCII": pairs(run(97)),
    "Greek": pairs([x for x in run(0x3b1, 25) if x != "ς"] + ["\u03d9", "\u03db"]),
    "Cyrillic": pairs(run(0x430)),
    "Armenian": pairs(run(0x561)),
    "Deseret": pairs(run(0x10428)),
    "Latin": pairs(["\u0101", "\u0107", "\u010f", "\u0117", "\u011d", "\u0125", "\u012d", "\u0135", "\u0137", "\u013e", "\u0144", "\u014d", "\u0155", "\u015b", "\u0167", "\u016b", "\u0175", "\u0177", "\u017c", "\u01ce", "\u01e9", "\u01ed", "\u1e03", "\u1e0b", "\u1ea5", "\u1ed1"]),
    "Fullwidth": pairs(run(0xff41)),
    "Glagolitic": pairs(run(0x2c30)),
    "circled": pairs(run(0x24d0)),
}
CASELESS = {
    "Hebrew": run(0x5d0), "Arabic": run(0x627), "Devanagari": run(0x905), "Thai": run(0xe01), "kana": run(0x3042), "Han": run(0x4e00), "Hangul": run(0xac00), "Han beyond": run(0x20000), "letters of mathematics": run(0x1d4d0),
    "combining": run(0x300), "digits": run(0x660, 10) + run(0x966, 10) + run(0xff10, 6), "superscript": ["\u00b2", "\u00b3", "\u00b9", "\u00bc", "\u00bd", "\u00be"] + run(0x2070, 1) + run(0x2074, 6) + run(0x2080, 10) + run(0x2460, 3),
    "emoji": run(0x1f600), "symbols": run(0x2600), "currency and signs": run(0x20a0), "arrows": run(0x2190), "box": run(0x2500),
    "format": ["\u00ad", "\u200b", "\u200c", "\u200d", "\u200e", "\u200f", "\u2060", "\u2061", "\ufeff", "\u061c", "\u180e"] + run(0xe0020, 15),
    "controls": run(0x80, 5) + run(0x86, 21),
    "private": run(0xe100, 13) + run(0x10fff0, 13), "unassigned": run(0x0378, 2) + run(0xe0080, 20) + ["\uffff", "\ufffe", "\ufdd0", "\u05ff"],
    "next line": ["\x85"] + run(0xe9f0, 25),
    "variation": run(0xfe00, 16) + run(0xe0100, 10),
}
for _n, _a in CASELESS.items():
    assert len(_a) == 26 == len(set(_a)), (_n, len(_a))
    for _x in _a:
        assert unicodedata.category(_x)[0] not in "PZ" and _x.casefold() == _x, (_n, ascii(_x))
AZ = CASED["ASCII"]
ALL = set("".join("".join(a) + "".join(b) for a, b in CASED.values()) + "".join("".join(a) for a in CASELESS.values())) - set(AZ[0] + AZ[1])
BLOCKY = re.compile("</?(?:%s)(?![a-z0-9-])|<!\\[CDATA\\[" % "|".join(M.BLOCK_TAGS + ["script", "pre", "style"]), re.I)


def fits(x):
    return x != "\u4fff" and unicodedata.category(x)[0] not in "PZ" and unicodedata.category(x) != "Cs" and x.casefold() == x == x.upper() == x.lower()


def window(a):
    """26 characters without case, from a on."""
    out = []
    while len(out) < 26:
        if fits(chr(a)):
            out.append(chr(a))
        a += 1
        if a > 0x10ffff:
            a = 0xa0
    return out


def windows():
    """All of the basic plane and the assigned parts of the next in windows of 26, the rest by sample."""
    a, top = 0x80, 0
    while a < 0x10ffff - 100:
        w = window(a)
        yield w
        a = ord(w[-1]) + 1
        if 0x4f00 < a < 0x9f00 or 0xac80 < a < 0xd700 or 0xe100 < a < 0xf800:
            a += 300
        if a > 0x17000:
            a += 1200 if a < 0x1b000 or a > 0x20000 else 0
        if a > 0x32000:
            a += 9000


RICH = """# abc *def* ghi
jkl **mno** _pqr_ ![st](/uv "wx") yz
---
- abc `def` a_b_c
  - d*e*f **g**h <ij>
    klm

1. nop
2. "qrs" 'tuv' w--x y...z

> [abc][def] [ghi] [j  k] lmn\\
> [x](<y z> 'abc')
def

```ghi jkl
mno
```

    pqr

[def]: /stu?v=w#x (yz)
[ghi]: <a> "b
c"
 [j K]: d

a*b*c a_b_c _b_ (*a*) "a" *(a)* a*"b"*c __a__b *a*b
ab  cd  
ef &g; \\h &i
***
+ j
+ k

  l
10) m [n] o:p q://r s@t.u
## v ##
w
="""


def clean(text, own=()):
    """Leave out what would meet the alphabets' characters."""
    out = []
    for ch in text:
        if ch > "\x7f" and (ch in ALL or ch in own or ch.casefold() != ch or ch.upper() != ch or "\ud800" <= ch <= "\udfff"):
            ch = "\u4fff"
        out.append(ch)
    # (a numeric reference may stand for one, too)
    return re.sub("&#([0-9]+);", lambda m: "&#36;" if int(m.group(1)) > 127 else m.group(), "".join(out).replace("%", "+"))


def table(name, r):
    if isinstance(name, list):
        low = up = name
    elif name in CASED:
        low, up = CASED[name]
    else:
        low = up = CASELESS[name]
    k = list(range(26))
    r.shuffle(k)
    t = {}
    for i in range(26):
        t[97 + i] = low[k[i]]
        t[65 + i] = up[k[i]]
    return t


def decode(s):
    return re.sub("(?:%[0-9A-F]{2})+", lambda m: urllib.parse.unquote(m.group()), s) if isinstance(s, str) else s


def named(s):
    if "&#" in s or BLOCKY.search(s):
        return True
    return any(x + ";" in html.entities.html5 for x in re.findall("&([A-Za-z0-9]+);", s))


def enumerate_(c):
    for w in windows():
        yield {"alphabet": "".join(w), "text": RICH}


def check(text, c):
    own = None
    if isinstance(text, dict):
        own, text = list(text["alphabet"]), text["text"]
        if len(set(own)) != 26 or not all(map(fits, own)):
            c.skip("no alphabet")
        c.count("windows")
    h = hash_(text)
    r = random.Random(h)
    k = h % 8 if not own else 7
    if k > 5 and not own:
        own = window(r.randrange(0x80, 0x1fa00))
    text = clean(text, own or ())
    if k == 0:
        n1 = n2 = "ASCII"
    elif k < 4:
        n1, n2 = r.sample(sorted(set(CASED) - {"ASCII"}), 2)
    else:
        n1, n2 = r.sample(sorted(set(CASED) | set(CASELESS)), 2)
        if "ASCII" in (n1, n2):
            n1, n2 = r.sample(sorted(CASELESS), 2)
        if own:
            n1 = own
            if n2 in CASELESS and set(own) & set(CASELESS[n2]) or n2 == "Fullwidth":
                n2 = "Cyrillic"
            c.count("other alphabets")
        text = re.sub("[A-Z]", lambda m: m.group().lower(), text)
    t1, t2 = table(n1, r), table(n2, r)
    a, b = text.translate(t1), text.translate(t2)
    if k == 0:
        if named(a) or named(b) or "mailto:" in a + b:
            c.skip("a name is spelt")
        c.count("ASCII orders")
    else:
        c.count("cased alphabets" if k < 4 else "caseless alphabets")
    m = {ord(t1[x]): t2[x] for x in t1 if x > 96 or k < 4}

    def to(s):
        return s.translate(m)
    smart = h // 8 % 4 == 0
    da, db = sut.parse(a, smart), sut.parse(b, smart)
    ta, tb = canon.canon(da, True), canon.canon(db, True)
    n = 0
    st = [ta]
    found = False
    while st:
        x = st.pop()
        n += 1
        if not isinstance(x, dict):
            continue
        for f, v in x.items():
            if f == "c":
                st.extend(v)
            elif f != "t" and isinstance(v, str):
                v = decode(v) if f == "dest" else v
                mail = f == "dest" and not k and v.startswith("mailto:")
                x[f] = "mailto:" + to(v[7:]) if mail else to(v)
        if x["t"] not in ("document", "paragraph", "text", "softbreak"):
            found = True
        if x["t"] in ("link", "image"):
            c.count("links")
            if ":" in text and not re.search(r"\]\(", text):
                c.count("definitions used")
    for x in canon.walk(tb):
        if "dest" in x:
            x["dest"] = decode(x["dest"])
    c.count("pairs")
    c.count("nodes compared", n)
    c.trivial = not found
    d = canon.first_diff(ta, tb)
    if d:
        return "%s for %s letters: tree differs from the one for %s letters (%s): %s" % (ascii(b), n2, n1, ascii(a), ascii(d))
    # (an information string's first word is "typically" the language: not judged where Python sees more spaces than Markdown)
    if k and not ("\x85" in a + b and any(x.get("info") for x in canon.walk(tb))):
        for f, name in ((sut.HtmlRenderer, "page"), (sut.ReStructuredTextRenderer, "reStructuredText")):
            if name != "page":
                # a heading's line is as long as the encoded destinations in it
                for x in (da, db):
                    plain(x)
            x, y = f().render(da), f().render(db)
            x, y = to(decode(x)), decode(y)
            if x != y:
                return "%s of %s is %s, from %s letters %s" % (name, ascii(b), ascii(y), n1, ascii(x))
        c.count("pages")


def plain(doc):
    """No destinations in headings."""
    st = [(doc, False)]
    while st:
        n, inside = st.pop()
        if inside and n.t in ("link", "image"):
            n.destination = "/d"
        n2 = n.first_child
        while n2 is not None:
            st.append((n2, inside or n.t == "heading"))
            n2 = n2.nxt


def hash_(s):
    import zlib
    return zlib.crc32(s.encode("utf-8", "surrogatepass"))


def BIG(text):
    return text


def gens(c):
    g = [(3, "document", G.document), (2, "inline_soup", G.inline_soup), (2, "links", G.link_doc), (2, "spec", G.spec_mutant), (1, "block_soup", G.block_soup), (2, "any", lambda r: G.any_doc(r, sut.REPO))]
    g += [(1, "lists", lambda r: "\n".join(c03.lists(r))), (1, "emphasis", c05.nested), (1, "brackets", lambda r: c06.brackets(r)), (1, "page", c10.page),
          (1, "nested", lambda r: "\n".join(c22.nested(r)))]
    return g
