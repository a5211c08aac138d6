import html as _html
import itertools
import re

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C04"
TECHNIQUE = "conservation monitor: verbatim nodes against the reference model and against constructed content, smart on and off"
QUICK = (5500, 40)
THOROUGH = (350000, 900)
RULE = ("Documents with fenced/indented code, code spans, HTML blocks and inline HTML of arbitrary content in arbitrary containers. Literals are compared with "
        "the reference model's (where both see the same sequence of verbatim nodes), with the text the generator put there, with smart on and off, and with the "
        "text of the rendered <code> elements. Non-trivial: at least one verbatim node.")
REQUIRE = {"code": 5000, "code_block": 5000, "html_block": 2000, "html_inline": 3000, "constructed": 5000, "rendered code compared": 5000}
ASSUMPTIONS = ["lib/refmodel.py states which characters belong to a block or span"]
EXHAUSTIVE_NOTE = "every code span content of up to 5 characters over [space, newline, a, backtick, tab, nbsp] for two delimiter lengths; every fence/indent/tab prefix combination of 3 lines"

JUNK = ["&amp;", "&lt;", "\\*", "\\\\", "*a*", "**b**", "_c_", "[x](y)", "![i](j)", "<b>", "</b>", "\"q\"", "'s'", "---", "--", "...", "....", "`", "``", "a", "é", "\u00a0", "\u3000",
        "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\t", "  ", " ", "#", "> ", "- ", "1. ", "~~", "\\", "\\`", "http://a", "<http://a.b>", "&copy;", "&#65;", "$", "%20", "😀", "[foo]",
        "]]>", "-->", "?>", "</x", "|", "\ufeff", "\u200b", "\\n", "{}", "\x7f", "\x1f", "word", "’", "“"]


def enumerate_(c):
    for n in range(1, 6 if not c.thorough else 7):
        for t in itertools.product(" \na`\t\u00a0", repeat=n):
            s = "".join(t)
            yield {"text": "x`" + s + "`y"}
            if n < 5:
                yield {"text": "x``" + s + "``y"}
    pre = ["", " ", "  ", "   ", "    ", "     ", "\t", " \t", "  \t", "\t\t", "\t ", "    \t", "      ", "   \t", ">", "> ", ">\t", "- ", "  \t\t"]
    for p in ("", "> ", ">", "- ", "1. ", "> - "):
        for f in ("```", " ```", "  ~~~", "   ````"):
            for t in itertools.product(pre, repeat=2):
                q = re.sub(r"[-1.]", " ", p)
                yield {"text": p + f + "\n" + q + t[0] + "a\n" + q + t[1] + "\n" + q + f + "\n"}
        for t in itertools.product(pre, repeat=2):
            q = re.sub(r"[-1.]", " ", p)
            yield {"text": p + "    x\n" + q + t[0] + "\n" + q + t[1] + "y\n"}


def junk(r, n=None, nl=False):
    return "".join(r.choice(JUNK + (["\n"] * 6 if nl else [])) for _ in range(n if n is not None else r.randint(0, 8)))


def contained(r, lines):
    """The lines inside random containers (space indentation only)."""
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        if r.random() < .5:
            lines = ["> " + x for x in lines]
        else:
            m = r.choice(["- ", "1. ", "12) ", "*   "])
            lines = [m + lines[0]] + [(" " * len(m) + x) if x or r.random() < .5 else x for x in lines[1:]]
    return lines


def constructed(r):
    """A verbatim construct whose literal is known."""
    k = r.random()
    before = r.choice(["", "", "para\n\n"])
    if k < .4:
        ch = r.choice("`~")
        n = r.choice([3, 3, 4, 5, 9, r.randint(3, 40), r.randint(3, 300)])
        ind = r.choice([0, 0, 0, 1, 2, 3])
        info = r.choice(["", "py", " c x", "{.x}"])
        body = [junk(r) for _ in range(r.choice([0, 1, 2, 3, 6, 15]))]
        if r.random() < .4:
            # almost the closing fence
            body.insert(r.randint(0, len(body)), r.choice([ch * (n - 1), ch * n + " x", ch * n + "x", "    " + ch * n, ch * (n // 2), ch * (n - 1) + " " + ch, {"`": "~", "~": "`"}[ch] * n, "x" + ch * n, ch * (n - 1) + "\\" + ch]))
        body = [x for x in body if not re.match("^ {0,3}" + re.escape(ch) * n + "+ *$", x) and "\n" not in x]
        body = [x if not x.startswith("\t") else "z" + x for x in body]
        fence = ch * n
        expect = "".join(x + "\n" for x in body)
        lines = [" " * ind + fence + info] + [" " * ind + x for x in body] + [" " * r.choice([0, 1, 3]) + fence + ch * r.choice([0, 0, 1, 5])]
        if any("\t" in x for x in body):
            return {"text": before + "\n".join(lines), "t": "code_block", "s": expect}
        return {"text": before + "\n".join(contained(r, lines)), "t": "code_block", "s": expect}
    if k < .6:
        body = [junk(r) for _ in range(r.randint(1, 6))]
        if not re.sub("[ \t]", "", body[0]):
            body[0] = "a" + body[0]
        if not re.sub("[ \t]", "", body[-1]):
            body[-1] = "b" + body[-1]
        if body[0][0] == "\t":
            body[0] = "c" + body[0]
        expect = "".join(x + "\n" for x in body)
        lines = ["    " + x for x in body]
        lines = [before.strip()] + [""] + lines if before else lines
        if any("\t" in x for x in body):
            return {"text": "\n".join(lines), "t": "code_block", "s": expect}
        if r.random() < .3 and not before:
            return {"text": "\n".join("> " + x for x in lines), "t": "code_block", "s": expect}
        return {"text": "\n".join(lines), "t": "code_block", "s": expect}
    if k < .85:
        n = r.choice([1, 1, 2, 3, 7, r.randint(1, 40), r.randint(1, 200)])
        body = junk(r, r.randint(1, 9))
        if n > 1 and r.random() < .4:
            body = body + " " + "`" * r.choice([n - 1, n + 1, n // 2, 2 * n, n + 64, n % 64]) + " " + junk(r, 2)
        body = re.sub("`+", lambda m: m.group() if len(m.group()) != n else m.group() + "`", body)
        body = re.sub("`+", lambda m: m.group() if len(m.group()) != n else "x", body).strip(" ")
        if not body or body[0] == "`" or body[-1] == "`":
            body = "a" + body + "b"
        pad = r.choice(["", " "])
        lead = r.choice(["x ", "*x* ", "[", "![", "**", "'", "\""])
        return {"text": lead + "`" * n + pad + body + pad + "`" * n + r.choice([" y", "]", "](/u)", "**", ""]), "t": "code", "s": body}
    body = junk(r, r.randint(0, 6)).replace("]]>", "").replace("-->", "").replace("?>", "")
    o = r.choice([("<?", "?>"), ("<![CDATA[", "]]>"), ("<a b='", "'>"), ("<a b=\"", "\">"), ("<!A ", ">")])
    bad = {"'>": "'", "\">": "\"", ">": ">"}.get(o[1])
    if bad:
        body = body.replace(bad, "")
    return {"text": "x " + o[0] + body + o[1] + " y", "t": "html_inline", "s": o[0] + body + o[1]}


def soup(r):
    k = r.random()
    if k < .4:
        return {"text": G.document(r)}
    if k < .6:
        out = []
        for _ in range(r.randint(1, 5)):
            z = r.random()
            if z < .3:
                f = r.choice(["```", "~~~", "````", "``` i", "~~~ \\*&amp;"])
                out += [r.choice(G.INDENTS[:12]) + f] + [r.choice(G.INDENTS) + junk(r) for _ in range(r.randint(0, 4))] + [r.choice(G.INDENTS[:14]) + f.split(" ")[0]]
            elif z < .6:
                out += [""] + [r.choice(["    ", "\t", "     ", "   \t", " \t ", ""]) + junk(r, r.randint(0, 4)) for _ in range(r.randint(1, 5))] + [""]
            elif z < .9:
                o = r.choice([("<!-- ", "-->"), ("<script>", "</script>"), ("<?", "?>"), ("<![CDATA[", "]]>"), ("<div>", ""), ("<x>", ""), ("<!X", ">"), ("<pre>", "</PRE>")])
                out += [r.choice(["", " ", "   "]) + o[0] + junk(r, 2)] + [r.choice(G.INDENTS) + junk(r, 3) for _ in range(r.randint(0, 4))] + [junk(r, 1) + o[1] + junk(r, 1), ""]
            else:
                out.append(junk(r, 3))
        return {"text": "\n".join(contained(r, out))}
    if k < .8:
        return {"text": "".join(r.choice(["`", "``", "<a ", ">", "<!--", "-->", "<?", "?>", "<![CDATA[", "]]>", "'", "\"", "="] + JUNK + ["\n"]) for _ in range(r.randint(2, 14)))}
    if k < .9:
        return {"text": G.spec_mutant(r)}
    return {"text": G.any_doc(r, sut.REPO)}


def BIG(text):
    return {"text": text}


def gens(c):
    return [(3, "constructed", constructed), (4, "soup", soup)]


def lits(d):
    return [(x["t"], x["s"]) for x in proj.verbatim(d)]


def check(case, c):
    text = case["text"]
    root = sut.parse(text)
    a = canon.canon(root)
    va = lits(a)
    if not va:
        c.trivial = True
    for t, _ in va:
        c.count(t)
    if "s" in case and text:
        want = case["s"]
        got = [s for t, s in va if t == case["t"]]
        vb = [s for t, s in lits(M.parse(text)) if t == case["t"]]
        if vb == [want]:                # always so for what the generator makes; shrinking may break it
            c.count("constructed")
            if got != [want]:
                return "%s content %r, the source has %r" % (case["t"], got, want)
    b = M.parse(text)
    vb = lits(b)
    if [t for t, _ in va] == [t for t, _ in vb] and proj.skeleton_kinds(a) == proj.skeleton_kinds(b):
        d = proj.listdiff(va, vb)
        if d:
            return "verbatim text differs: observed vs expected at " + d
    else:
        c.skip("different constructs recognised")
    # smart punctuation must not reach inside
    vs = lits(sut.tree(text, smart=True))
    if vs != va:
        return "with smart, verbatim text differs: " + str(proj.listdiff(vs, va))
    # nothing is processed on the way out either
    h = sut.HtmlRenderer().render(root)
    if not any(x["t"] in ("html_inline", "html_block", "image") for x in canon.walk(a)):
        got = [_unesc(x) for x in re.findall(r"<code(?: class=\"[^\"]*\")?>([^<]*)</code>", h)]
        want = [s for t, s in va]
        if got != want:
            return "rendered code is %r, the document's is %r" % (got, want)
        c.count("rendered code compared", len(want))
    elif any(t == "html_block" and s and s not in h for t, s in va):
        return "an HTML block is not in the output as it is in the source"


def _unesc(s):
    return s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", '"').replace("&amp;", "&")
