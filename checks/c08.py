import itertools
import unicodedata
from html.entities import html5

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C08"
TECHNIQUE = "exhaustive and constructed-expectation monitor on decoded escapes and references in every context, plus reference-model monitor"
QUICK = (5500, 40)
THOROUGH = (350000, 900)
RULE = ("Each of the HTML5 names, near misses of them, numeric references (boundary, all small and sampled large ones) and each character after a backslash is put in a text, a heading, "
        "a link destination (bare and angle), titles of three kinds, a definition, an image description and an info string; what the tree holds must be exactly the expected characters. "
        "Random documents rich in references and escapes are compared with the model. Non-trivial: at least one & or backslash.")
REQUIRE = {"named": 15000, "numeric": 10000, "escapes": 3000, "near misses": 5000, "documents compared": 20000, "syntax not triggered": 300}
ASSUMPTIONS = ["html.entities.html5 is the HTML5 table", "lib/refmodel.py for random documents"]
EXHAUSTIVE_NOTE = "all 2125 names x 8 contexts; numeric 0-0x2FF in decimal and hex and boundaries (thorough: all 0x110000) ; all ASCII and Latin-1 characters after a backslash x 8 contexts"

NAMES = sorted(n[:-1] for n in html5 if n.endswith(";"))
CTX = ["text", "heading", "dest", "angle", "dq", "sq", "paren", "info", "def", "deftitle", "alt", "linktext", "emph", "tilde"]


def put(ctx, s):
    if ctx == "text":
        return "x" + s + "y"
    if ctx == "heading":
        return "# x" + s + "y"
    if ctx == "dest":
        return "[t](/x" + s + "y)"
    if ctx == "angle":
        return "[t](</x" + s + "y>)"
    if ctx == "dq":
        return "[t](/u \"x" + s + "y\")"
    if ctx == "sq":
        return "![t](/u 'x" + s + "y')"
    if ctx == "paren":
        return "[t](/u (x" + s + "y))"
    if ctx == "info":
        return "```x" + s + "y\n```"
    if ctx == "tilde":
        return "~~~~ x" + s + "y z\ncode\n~~~~"
    if ctx == "def":
        return "[t]\n\n[t]: /x" + s + "y"
    if ctx == "deftitle":
        return "[t]: /u\n'x" + s + "y'\n\n[t]"
    if ctx == "alt":
        return "![x" + s + "y](/u)"
    if ctx == "linktext":
        return "[x" + s + "y](/u)"
    return "*x" + s + "y*"


def get(ctx, d):
    """The string at the place put() used, or None."""
    for x in canon.walk(d):
        t = x["t"]
        if ctx in ("dest", "angle", "def") and t == "link":
            return x["dest"][1:]
        if ctx in ("dq", "sq", "paren", "deftitle") and t in ("link", "image"):
            return x["title"]
        if ctx in ("info", "tilde") and t == "code_block":
            return x["info"]
        if ctx == {"paragraph": "text", "heading": "heading", "image": "alt", "link": "linktext", "emph": "emph"}.get(t):
            k = x["c"]
            return k[0]["s"] if len(k) == 1 and k[0]["t"] == "text" else None


def enumerate_(c):
    main = ["text", "dest", "dq", "info", "heading", "sq", "def", "deftitle"]
    for i in range(0, len(NAMES), 10):
        for ctx in main:
            yield {"ctx": ctx, "kind": "named", "items": [["&%s;" % n, html5[n + ";"]] for n in NAMES[i:i + 10]]}
    nums = sorted(set(list(range(0x300)) + [0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDD0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF, 0x110000, 0x98967F, 0xFFFFFF,
                                            0x200B, 0x2028, 0xFEFF, 999999, 1000000, 9999999, 1114111, 1114112]))
    nums += list(range(0x300, 0x110000)) if c.thorough else list(range(0x300 + c.seed % 211, 0x110000, 211))
    for i in range(0, len(nums), 12):
        ns = nums[i:i + 12]
        for j, ctx in enumerate(main):
            if i > 900 and j != i // 12 % len(main):
                continue
            items = []
            for v in ns:
                e = "\ufffd" if v == 0 or v > 0x10FFFF or 0xD800 <= v < 0xE000 else chr(v)
                if v <= 9999999:
                    items.append(["&#%d;" % v, e])
                if v <= 0xFFFFFF:
                    items.append(["&#%s%x;" % ("xX"[v % 2], v), e])
                    items.append(["&#x%06X;" % v, e])
                    if v < 1000:
                        items.append(["&#%07d;" % v, e])
            yield {"ctx": ctx, "kind": "numeric", "items": items}
    esc = [[("\\" + ch), ch if ch in M.ASCII_PUNCT else "\\" + ch] for ch in map(chr, list(range(1, 0x100)) + [0x2019, 0x3000, 0xFF0A, 0x1F600]) if ch not in "\n\r \x0b\x0c\t\x85"]
    for i in range(0, len(esc), 4):
        for ctx in CTX:
            items = [[a, b] for a, b in esc[i:i + 4] if ctx not in ("dest", "def") or b[-1] > " " and b[-1] != "\x7f"]
            if items:
                yield {"ctx": ctx, "kind": "escapes", "items": items}
    near = []
    for n in NAMES[::1 if c.thorough else 3]:
        for v in (n + "x", n[:-1], n.swapcase(), n + "1", "x" + n, n[0].swapcase() + n[1:]):
            if v + ";" not in html5 and v:
                near.append("&%s;" % v)
        near.append("&%s" % n)
        near.append("& %s;" % n)
    near += ["&#;", "&#x;", "&#X;", "&#xg;", "&#12345678;", "&#x1234567;", "&#00000065;", "&#x0000041;", "&;", "&", "&&", "&#", "&# 65;", "&#65 ;", "&#-1;", "&#1a;", "&a b;", "&\u0661;", "&#\u0661;",
             "&am\u017f;", "&#x\u0661;", "&#65", "&#x41", "&amp ;", "&copy.;", "&\u212aappa;", "&#٣٤;", "&fooba;", "&aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa;"]
    for i in range(0, len(near), 10):
        ctx = CTX[i // 10 % len(CTX)]
        if ctx in ("dest", "def"):
            ctx = "angle"
        yield {"ctx": ctx, "kind": "near misses", "items": [[x, x] for x in near[i:i + 10]]}
    # produced characters are not syntax
    for ch in [x for x in M.ASCII_PUNCT] + ["\n", "\t", " ", "0", "1", "a"]:
        for form in ["&#%d;" % ord(ch), "&#x%X;" % ord(ch)] + (["\\" + ch] if ch in M.ASCII_PUNCT else []) + ["&%s;" % n for n in NAMES if html5[n + ";"] == ch]:
            for tpl in ("%sa%s", "a %sb%s c", "%s%s%sa%s%s%s", "%s a", "%s%s%s", "a\n%s%s%s", "[a%s(b)", "%sa](b)", "%sa href='x'%s", "1%s a", "a%s%sb%s", "a %s%s\nb", "%sfoo%s: /u", "x@y%sz <a%sb>", "%s%sa%s%s",
                        "%s#34;", "%samp;", "!%sa](/u)", "%s\n%s", "a  %sb", "%s    code", "```\na\n%s``", "|%sfoo%s(/u)", "http:%s/a.b"):
                yield {"ctx": "syntax", "kind": "syntax not triggered", "items": [[form, ch, tpl]]}


SOUP = G.ENT * 2 + G.ESC * 2 + ["a", "b", " ", "*", "_", "`", "[", "](/u)", "](", ")", "\"", "'", "<", ">", "\n", "```", "# ", "&", "\\", "#", ";", "&#", "amp;", "<http://a.b?c=&amp;d>", "<a href='&amp;'>", "é",
                                "``&amp;``", "[f]: ", "\n\n", "~~~ ", "&Auml;", "&#x", "&lt;b&gt;"]


def soup(r):
    k = r.random()
    if k < .5:
        return {"text": "".join(r.choice(SOUP) for _ in range(r.randint(2, 14)))}
    if k < .8:
        s = "".join(r.choice(G.ENT + G.ESC + ["a", "é", "&", ";", "#", "x"]) for _ in range(r.randint(1, 6))).replace("\n", "")
        return {"text": put(r.choice(CTX), s)}
    if k < .9:
        return {"text": "".join("&" + "".join(r.choice("amp#xX0123456789lt;oucy ") for _ in range(r.randint(0, 9))) + r.choice([";", "", ";;"]) for _ in range(3))}
    return {"text": G.any_doc(r, sut.REPO)}


def mixed(r):
    """Several known pieces in one context."""
    items = []
    for _ in range(r.randint(1, 8)):
        k = r.random()
        if k < .3:
            n = r.choice(NAMES)
            items.append(["&%s;" % n, html5[n + ";"]])
        elif k < .5:
            v = r.choice([r.randrange(1, 0x250), r.randrange(1, 0x110000), r.randrange(0x2000, 0x3000)])
            if v in (10, 13, 32, 9, 11, 12):
                v = 65
            items.append([r.choice(["&#%d;" % v, "&#x%x;" % v]), "\ufffd" if 0xD800 <= v < 0xE000 else chr(v)])
        elif k < .7:
            ch = r.choice(M.ASCII_PUNCT)
            items.append(["\\" + ch, ch])
        elif k < .85:
            x = r.choice(["\\a", "\\é", "&x;", "&#;", "&", "& ", "\\\u00a0", "&#xZ;", "\\0"])
            items.append([x, x])
        else:
            items.append(["w", "w"])
    return {"ctx": r.choice([x for x in CTX if x not in ("dest", "def")]), "kind": "mixed", "items": items}


def smaller(case):
    """Only whole items are left out: their expectation would change otherwise."""
    from harness import smaller as sm
    if "text" in case:
        yield from sm(case)
    elif len(case["items"]) > 1:
        for i in range(len(case["items"])):
            yield dict(case, items=case["items"][:i] + case["items"][i + 1:])


def BIG(text):
    return {"text": text}


def gens(c):
    return [(3, "soup", soup), (2, "mixed", mixed)]


def check(case, c):
    if "text" in case:
        text = case["text"]
        if "&" not in text and "\\" not in text:
            c.trivial = True
            return
        a, b = sut.tree(text), M.parse(text)
        ta, tb = (proj.no_emph_all(proj.loose_dest(x)) for x in (a, b))
        if strip(ta) == strip(tb):
            c.count("documents compared")
            return
        if shape(ta) != shape(tb) and not escaped_shape(ta, tb):
            c.skip("other differences")
        return "decoded text differs: observed vs expected at " + str(canon.first_diff(strip(ta), strip(tb)))
    ctx, items = case["ctx"], case["items"]
    c.count(case["kind"], len(items))
    if ctx == "syntax":
        src, ch, tpl = items[0]
        n = tpl.count("%s")
        text = tpl % ((src,) * n)
        a, b = sut.tree(text), M.parse(text)
        if a != b and canon.map_dest(a, M.canon_uri) != canon.map_dest(b, M.canon_uri):
            return "%r: %s" % (text, canon.first_diff(a, b))
        return
    sep = "" if all(x[0] for x in items) else " "
    s, want = sep.join(x[0] for x in items), sep.join(x[1] for x in items)
    if ctx in ("info", "tilde") and "`" in s and ctx == "info":
        ctx = "tilde"
    d = sut.tree(put(ctx, s))
    want = "x" + want + "y"
    if ctx == "tilde":
        want += " z"
    got = get(ctx, d)
    if got is not None and ctx in ("dest", "angle", "def"):
        got = proj.decode_dest(got)
        want = proj.decode_dest(M.norm_uri(want))
    if got != want:
        # does the source really hold these items there?
        if get(ctx, M.parse(put(ctx, s))) is None:
            c.skip("not in its place")
        i = next((k for k in range(min(len(got or ""), len(want))) if got[k] != want[k]), 0)
        return "in %s: got %r, expected %r (from position %d of %d)" % (ctx, (got or "")[i:i + 12] if got is not None else None, want[i:i + 12], i, len(want))


def strip(d):
    r = {k: v for k, v in d.items() if k not in ("c", "tight")}
    if "c" in d:
        r["c"] = [strip(x) for x in d["c"]]
    return r


def shape(d):
    return [(x["t"], x.get("s") if x["t"] in proj.VERBATIM else None) for x in canon.walk(d) if x["t"] != "text"]


def escaped_shape(a, b):
    """Shape differences count when the blocks are the same: a produced character may have acted as syntax."""
    return proj.skeleton_kinds(a) == proj.skeleton_kinds(b) and [x.get("s") for x in proj.verbatim(a)] == [x.get("s") for x in proj.verbatim(b)]
