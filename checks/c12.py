import re
from urllib.parse import unquote_to_bytes

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C12"
TECHNIQUE = "character-set, percent-decoding and idempotence monitors over destinations built from known characters"
QUICK = (20000, 40)
THOROUGH = (500000, 1200)
RULE = ("Destinations made of chosen characters (all of Unicode, percent sequences, every ASCII sign), each spelt literally, escaped or as a reference, in inline links and images, definitions, angle brackets and autolinks. "
        "Monitors: only URI characters; percent-decoding gives the bytes of the chosen characters; encoding the result again changes nothing. Non-trivial: some character needs encoding or unescaping.")
REQUIRE = {"destinations": 50000, "encoded": 20000, "references spelt": 10000, "escapes spelt": 5000, "percent signs": 10000, "idempotence": 20000, "autolinks": 5000, "definitions": 5000, "code points": 15000, "generated links": 5000}
ASSUMPTIONS = ["a lone surrogate has no UTF-8 form and counts as U+FFFD, as does U+0000", "square brackets may stay or be encoded"]
EXHAUSTIVE_NOTE = "every code point below U+3000 and a seeded sample (thorough: every code point) in an angle-bracket destination; every pair of ASCII signs bare, bracketed and in a definition; every pair of the characters of an email address's local part"

LEGAL = re.compile(r"[A-Za-z0-9\-._~:/?#\[\]@!$&()*+,;=%]*\Z")
NAMED = {"&": "&amp;", "\"": "&quot;", "<": "&lt;", ">": "&gt;", "ä": "&auml;", "é": "&eacute;", "\u00a0": "&nbsp;", ":": "&colon;", "/": "&sol;", "(": "&lpar;", ")": "&rpar;", "*": "&ast;", "%": "&percnt;", "\\": "&bsol;", "\t": "&Tab;",
         "\n": "&NewLine;", "+": "&plus;", "\u222e": "&oint;", "=": "&equals;", "#": "&num;", "?": "&quest;", "$": "&dollar;", "[": "&lsqb;", "]": "&rsqb;", "_": "&lowbar;", "!": "&excl;", "\u2242\u0338": "&NotEqualTilde;", "`": "&grave;",
         "\U0001d4ab": "&Pscr;"}
EMAIL = "ab9.!#$%&'*+/=?^_`{|}~-"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"


def enumerate_(c):
    step = 48
    for b in range(0, 0x110000, step):
        if not c.thorough and b >= 0x3000 and (b // step) % 97 != c.seed % 97 and not (0xD7D0 <= b <= 0xE020 or 0xFFC0 <= b < 0x10020 or b >= 0x10FFC0):
            continue
        yield {"kind": "cp", "base": b, "n": step}
    for a in PUNCT:
        for b in PUNCT + "a1é ":
            yield {"kind": "chars", "c": [a, b], "spell": [0, 0], "ctx": "pair"}
    for a in EMAIL:
        for b in EMAIL:
            yield {"kind": "doc", "text": "<%s%s@a.b> <x%sy%s@c-d>" % (a, b, b, a)}
    for h in ("%", "%2", "%20", "%2f", "%2F", "%zz", "%C3%A4", "%c3", "%%", "%25", "%2525", "%é", "%u0041", "%41", "%00", "%0", "%a"):
        for t in ("", "0", "a", "x", "é", "%", "&amp;", "\\%"):
            yield {"kind": "chars", "c": list(h) + (["&"] if t == "&amp;" else ["%"] if t == "\\%" else list(t)), "spell": [0] * len(h) + ([3] if t == "&amp;" else [1] if t == "\\%" else [0] * len(t)), "ctx": "pair"}


ALPH = list("abcXYZ019") + list(PUNCT) + ["%", "%2", "%20", "%C3", "é", "ä", "日", "😀", "\u00a0", "\u2028", "\x7f", "\x80", "\ufffd", "\ud800", "\udfff", "\uffff", "\U0010ffff", "\u200b", "\u00ad", "ß", "\u0301", " ", "\t", "\x01", "\x0b",
                                                         "\u3000", "\u2242\u0338", "\U0001d4ab", "\n", "&", "+", "ſ", "\u212a"]


def chars(r):
    k = r.randint(1, 9)
    cs = []
    for _ in range(k):
        if r.random() < .2:
            i = r.choice([r.randrange(0x80), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000)])
            cs.append(chr(i) if i else "a")
        else:
            cs.append(r.choice(ALPH))
    return {"kind": "chars", "c": cs, "spell": [r.choice([0, 0, 0, 1, 2, 3, 4]) for _ in cs], "ctx": r.choice(["bare", "angle", "refbare", "refangle", "image", "auto", "full", "quote"])}


def BIG(text):
    return {"kind": "doc", "text": text}


def gens(c):
    return [(6, "characters", chars), (1.5, "links", lambda r: {"kind": "doc", "text": G.link_doc(r)}), (.5, "autolinks", lambda r: {"kind": "doc", "text": "".join(r.choice(G.AUTO + ["[a](" + G.dest(r) + ")", " ", "<" + "".join(r.choice(EMAIL) for _ in range(r.randint(1, 6))) + "@a.b>"]) for _ in range(4))}),
            (.5, "any", lambda r: {"kind": "doc", "text": G.any_doc(r, sut.REPO)})]


def spelt(ch, how, angle, c):
    """One source form of ch in a destination, or None."""
    if len(ch) > 1 and ch not in NAMED:          # percent sequences
        return ch
    if how == 1 and ch in PUNCT:
        c.count("escapes spelt")
        return "\\" + ch
    if how == 2 and len(ch) == 1 and not 0xD800 <= ord(ch) < 0xE000 and ch != "\0":
        c.count("references spelt")
        return "&#%d;" % ord(ch)
    if how == 3 and ch in NAMED:
        c.count("references spelt")
        return NAMED[ch]
    if how == 4 and len(ch) == 1 and not 0xD800 <= ord(ch) < 0xE000 and ch != "\0":
        c.count("references spelt")
        return "&#x%X;" % ord(ch)
    if ch == "\n" or ch == "\r":
        return "&#%d;" % ord(ch)
    if ch == "\\":
        return "\\\\"
    if angle:
        return "\\" + ch if ch in "<>" else ch
    if ch in "()<":
        return "\\" + ch
    if ch <= " " or ch == "\x7f":
        return "&#%d;" % ord(ch)
    return ch


def build(cs, spell, ctx, c):
    """(source, expected unescaped destination) or None."""
    angle = ctx in ("angle", "refangle", "image")
    if ctx == "auto":
        bad = [ch for ch in cs if ch in "<> " or ord(ch[0]) < 32 or ch == "\x7f"]
        if bad:
            return None
        c.count("autolinks")
        return "<x+y:" + "".join(cs) + ">", "x+y:" + "".join(cs)
    parts = []
    for ch, how in zip(cs, spell):
        s = spelt(ch, how, angle, c)
        if parts and parts[-1].endswith("&") and re.match("[#a-zA-Z]", s):
            s = "\\" + s if s[0] == "#" else "&#%d;" % ord(s[0]) + s[1:]
        parts.append(s)
    src = "".join(parts)
    # '&' written literally must not begin a reference
    want = "".join(cs)
    if M.unescape(src.replace("\0", "\ufffd")) != want.replace("\0", "\ufffd"):
        return None
    if ctx in ("bare", "quote"):
        s = "[a](" + src + " \"t\")"
        return ("> - " + s if ctx == "quote" else s), want
    if ctx == "angle":
        return "[a]( <" + src + "> )", want
    if ctx == "image":
        return "![a](<" + src + ">)", want
    c.count("definitions")
    if ctx == "refbare":
        return "[a]\n\n[a]: " + src, want
    if ctx == "full":
        return "![x][ A ]\n\n> [a]:\n> " + src + "\n> 't'", want
    return "[a]\n\n[a]: <" + src + ">", want


def sub(s):
    return re.sub("[\0\ud800-\udfff]", "\ufffd", s)


def links(doc):
    out = []
    st = [doc]
    while st:
        n = st.pop()
        if n.t in ("link", "image"):
            out.append(n.destination)
        k = n.last_child
        while k is not None:
            st.append(k)
            k = k.prv
    return out


def monitor(d, want, c):
    c.count("destinations")
    if not isinstance(d, str) or not LEGAL.match(d):
        return "destination %r has characters that are not legal in a URI" % (d,)
    if want is not None:
        a, b = unquote_to_bytes(d), unquote_to_bytes(sub(want).encode("utf-8"))
        if a != b:
            return "destination %r decodes to %r, the source to %r" % (d, a, b)
        if d != want:
            c.count("encoded")
        if "%" in want:
            c.count("percent signs")
    # again: the destination as a source
    again = links(sut.parse("[a](<" + d.replace("&", "&amp;") + ">)"))
    if again != [d]:
        return "encoding %r again gives %r" % (d, again)
    c.count("idempotence")


def check(case, c):
    if case["kind"] == "cp":
        lines, wants = [], []
        for i in range(case["base"], min(case["base"] + case["n"], 0x110000)):
            ch = chr(i)
            if ch in "\n\r<>\\":
                continue
            c.count("code points")
            lines.append("[a](<x%sy>)" % ch)
            wants.append("x%sy" % ch)
            if i > 32 and i != 127 and ch not in "()":
                lines.append("[a](%s)" % ch)
                wants.append(ch)
        got = links(sut.parse("\n\n".join(lines)))
        if len(got) != len(wants):
            c.skip("a link was not recognised")
        for d, w in zip(got, wants):
            if not LEGAL.match(d):
                return "destination %r has characters that are not legal in a URI" % d
            if unquote_to_bytes(d) != unquote_to_bytes(sub(w).encode("utf-8")):
                return "destination %r, source %r" % (d, w)
            c.count("destinations")
        return
    if case["kind"] == "doc":
        text = case["text"]
        doc = sut.parse(text)
        got = links(doc)
        want = None
        t, m = canon.canon(doc), M.parse(text)
        if blank(t) == blank(m):
            want = [x["dest"] for x in canon.walk(m) if x["t"] in ("link", "image")]
        if not got:
            c.trivial = True
        for i, d in enumerate(got):
            c.count("generated links")
            msg = monitor(d, None, c)
            if msg:
                return msg
            if want is not None and unquote_to_bytes(d) != unquote_to_bytes(sub(want[i]).encode("utf-8")):
                return "destination %r, expected (before encoding differences) %r" % (d, want[i])
        return
    for ctx in (("bare", "angle", "refbare", "auto") if case["ctx"] == "pair" else (case["ctx"],)):
        b = build(case["c"], case["spell"], ctx, c)
        if b is None:
            c.count("not spellable")
            continue
        src, want = b
        got = links(sut.parse(src))
        if len(got) != 1:
            c.count("not recognised")
            continue
        msg = monitor(got[0], want, c)
        if msg:
            return "%s (source %r)" % (msg, src)


def blank(t):
    r = {k: v for k, v in t.items() if k not in ("dest", "c", "tight")}
    if "c" in t:
        r["c"] = [blank(x) for x in t["c"]]
    return r
