import itertools
import re

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C23"
TECHNIQUE = "metamorphic monitor (tree with and without smart) plus reference-model monitor for quotes, dashes and ellipses"
QUICK = (7000, 40)
THOROUGH = (450000, 1200)
RULE = ("Documents with quotes, hyphen and dot runs in every context, parsed with and without smart. The two trees must have the same shape with all code, HTML, URLs, titles and info equal and every text "
        "related by the replacements; the smart tree is compared with the model's, and each hyphen run's dashes are checked arithmetically. Non-trivial: the text has ' \" -- or ...")
REQUIRE = {"texts related": 30000, "curly quotes": 10000, "dashes": 10000, "ellipses": 3000, "runs": 100, "smart trees compared": 20000}
ASSUMPTIONS = ["lib/refmodel.py states quote flanking: opening if left- and not right-flanking and matched by a later closer, closing if right-flanking"]
EXHAUSTIVE_NOTE = "hyphen runs of every length to 120 and dot runs to 20 in 6 contexts; all strings over \"'a .( up to length 6 (7)"


def enumerate_(c):
    for n in range(1, 121):
        for tpl in ("a%sb", "a %s b", "x%s", "*a*%s", "x%s`b`", "(x%s)", "a\\%sb", "# a%sb"):
            yield {"text": tpl % ("-" * n), "run": ["-", n], "tpl": tpl}
            if n <= 20:
                yield {"text": tpl % ("." * n)}
    for k in range(1, 8 if c.thorough else 7):
        batch = []
        for t in itertools.product("\"'a .(", repeat=k):
            if ("\"" in t or "'" in t) and t[0] != " ":
                batch.append("z" + "".join(t) if t[0] == "." else "".join(t))
                if len(batch) == 10:
                    yield {"text": "\n\n".join(batch)}
                    batch = []
        yield {"text": "\n\n".join(batch)}


TOK = ["\"", "'", "\"", "'", "--", "---", "-", "...", ".", "..", "....", "a", "b", " ", " ", "don't", "'90s", "\n", "*", "_", "**", "`", "``", "[", "](/u)", "](/u \"t--...'\")", "<a b='--\"'>", "<http://a--b...c>", "\\\"", "\\'", "\\-",
       "\\.", "&quot;", "&#39;", "&#45;", "(", ")", "é", "\u00a0", "«", "“", "—", "![", "`--...\"'`", "<!-- ... -->", "----", "-----", "[foo]", "  \n", "!", "\u2019", "&hellip;", "-\\-", ". . .", "\"'", "'\""]


def soup(r):
    s = r.choice(["", "x", "", "# "]) + "".join(r.choice(TOK) for _ in range(r.randint(2, 16)))
    k = r.random()
    if k < .15:
        s = "> " + s.replace("\n", "\n> ")
    elif k < .3:
        s = "- " + s.replace("\n", "\n  ")
    elif k < .4:
        s += "\n\n[foo]: /u--v...'w' \"ti--tle...'\""
    elif k < .5:
        s += "\n\n```\n" + "".join(r.choice(TOK) for _ in range(4)) + "\n```\n\n    'code' -- ...\n\n<div>\n'x' -- \"y\" ...\n</div>"
    return {"text": s}


def BIG(text):
    return {"text": text}


def gens(c):
    return [(6, "soup", soup), (1, "quotes", lambda r: {"text": "".join(r.choice(["\"", "'", "\"a", "'b", "a\"", "b'", " ", "(", ")", ".", "*", "é"]) for _ in range(r.randint(3, 30)))}),
            (1, "inline_soup", lambda r: {"text": G.inline_soup(r)}), (1, "document", lambda r: {"text": G.document(r)}), (1, "spec", lambda r: {"text": G.spec_mutant(r)}), (.5, "any", lambda r: {"text": G.any_doc(r, sut.REPO)})]


PIECES = re.compile("['\"]|-+|\\.{3}")


def related(plain, smart):
    """Can smart come from plain by the replacements?  (straight quotes may also stay: escaped or written as references)"""
    pat = []
    i = 0
    for m in re.finditer("['\"]|--+|\\.{3,}", plain):
        pat.append(re.escape(plain[i:m.start()]))
        g = m.group()
        if g == "'":
            pat.append("['\u2018\u2019]")
        elif g == "\"":
            pat.append("[\"\u201c\u201d]")
        elif g[0] == "-":
            pat.append("[-\u2013\u2014]{1,%d}" % len(g))
        else:
            pat.append("[.\u2026]{1,%d}" % len(g))
        i = m.end()
    pat.append(re.escape(plain[i:]))
    return re.fullmatch("".join(pat), smart, re.S) is not None


def measure(s):
    return s.replace("\u2014", "---").replace("\u2013", "--").replace("\u2026", "...").replace("\u2018", "'").replace("\u2019", "'").replace("\u201c", "\"").replace("\u201d", "\"")


def check(case, c):
    text = case["text"]
    if not re.search("['\"]|--|\\.\\.\\.", text):
        c.trivial = True
    plain, smart = sut.tree(text), sut.tree(text, smart=True)
    d = pairwise(plain, smart, c, not re.search("[\u2014\u2013\u2026\u2018\u2019\u201c\u201d]", measure_free(plain)))
    if d:
        return "smart changes more than text: " + d
    if sut.tree(text, smart=False) != plain:
        return "smart=False differs from the default"
    mp = M.parse(text)
    if proj.loose_dest(strip(plain)) != proj.loose_dest(strip(mp)):
        # characters replaced without the option?
        if strip(plain, True) == strip(mp, True) and measure_free(plain) != measure_free(mp) and measure(measure_free(plain)) == measure(measure_free(mp)):
            return "without smart, text is %r, expected %r" % (measure_free(plain)[:200], measure_free(mp)[:200])
        c.skip("not smart's: the plain trees differ")
    ms = M.parse(text, smart=True)
    d = canon.first_diff(strip(proj.loose_dest(smart)), strip(proj.loose_dest(ms)))
    if d:
        return "smart text: observed vs expected at " + d
    c.count("smart trees compared")
    if "run" in case:
        n = case["run"][1]
        s = proj.flat_text(smart)
        if n >= 2 and "\\" not in text and case["tpl"] not in ("x%s`b`",):
            em, en = s.count("\u2014"), s.count("\u2013")
            if 3 * em + 2 * en != n or s.count("-"):
                return "%d hyphens became %d em and %d en dashes" % (n, em, en)
            if n % 3 == 0 and en or n % 3 and n % 2 == 0 and em:
                return "%d hyphens became a mixed run" % n
            c.count("runs")


def measure_free(d):
    return proj.flat_text(d)


def strip(d, notext=False):
    r = {k: v for k, v in d.items() if k not in ("c", "tight")}
    if notext and d["t"] == "text":
        r.pop("s")
    if "c" in d:
        r["c"] = [strip(x, notext) for x in d["c"]]
    return r


def pairwise(p, s, c, exact):
    for k in set(p) | set(s):
        if k == "c" or k == "s" and p["t"] == "text":
            continue
        if p.get(k) != s.get(k):
            return "%s.%s %r becomes %r" % (p["t"], k, p.get(k), s.get(k))
    if p["t"] == "text":
        if not related(p["s"], s["s"]):
            return "text %r becomes %r" % (p["s"], s["s"])
        if exact and measure(s["s"]) != p["s"]:
            return "text %r becomes %r" % (p["s"], s["s"])
        c.count("texts related")
        c.count("curly quotes", sum(s["s"].count(x) for x in "\u2018\u2019\u201c\u201d"))
        c.count("dashes", sum(s["s"].count(x) for x in "\u2014\u2013"))
        c.count("ellipses", s["s"].count("\u2026"))
        return
    a, b = p.get("c", ()), s.get("c", ())
    if [x["t"] for x in a] != [x["t"] for x in b]:
        return "children of %s: %r become %r" % (p["t"], [x["t"] for x in a], [x["t"] for x in b])
    for x, y in zip(a, b):
        d = pairwise(x, y, c, exact)
        if d:
            return d
