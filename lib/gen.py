"""Workload generators.  Every choice comes from the random.Random passed in."""
import ast
import glob
import json
import os
import random
import re
import string

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = json.load(open(os.path.join(HERE, "..", "corpus", "spec_examples.json"), encoding="utf-8"))
SPEC_MD = [x["md"] for x in CORPUS]

# ------------------------------------------------------------------ token alphabets
WORDS = ["foo", "bar", "baz", "a", "b", "x", "Q", "hello", "1", "42", "éa", "ÄÖ", "日本", "ß", "ẞ", "ﬁ", "Ω", "😀", "0"]
UNI_PUNCT = ["«", "»", "—", "…", "‘", "“", "”", "、", "。", "（", "）", "¿", "§", "·", "\U00010100", "\U0001F3FB", "\u2e52",
             "€", "£", "＋", "\u20ac", "\u00d7", "\u02dc"]
UNI_SPACE = ["\u00a0", "\u3000", "\u2003", "\u2028", "\u0085", "\u1680", "\u200b", "\ufeff", "\u2029"]
CTRL = ["\x0b", "\x0c", "\x1c", "\x1f", "\x7f", "\x01", "\x85"]
ENT = ["&amp;", "&lt;", "&gt;", "&quot;", "&copy;", "&nbsp;", "&#42;", "&#x5F;", "&#0;", "&#35;", "&#32;", "&#10;", "&#9;",
       "&#91;", "&#93;", "&#96;", "&#92;", "&#60;", "&ouml;", "&ngE;", "&bne;", "&semi;", "&hellip;", "&NotEqualTilde;",
       "&copy", "&copyfoo;", "&notit;", "&;", "&#;", "&#x;", "&#xG;", "&#12345678;", "&#x1234567;", "&foo;", "&AMP;", "&Amp;",
       "&#128;", "&#x80;", "&#1;", "&#xD800;", "&#x10FFFF;", "&#x110000;", "&#xFFFE;", "&#127;", "&frac12;", "&there4;", "&amp;amp;",
       "&CounterClockwiseContourIntegral;", "&ampfoo;", "&ſect;", "&lt", "& amp;", "&#X41;", "&#39;", "&#34;", "&apos;"]
ESC = ["\\" + c for c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"] + ["\\a", "\\ ", "\\é", "\\\n", "\\0", "\\\\\\", "\\«"]
TAGS = ["<a>", "</a>", "<b >", "</b\n>", "<br/>", "<i x=1>", "<i x='y'>", "<i x=\"y\n\">", "<a href=\"*\">", "<!-- c -->", "<!---->",
        "<!-- a -- b -->", "<!-->", "<!--->", "<!-- x--->", "<?php x ?>", "<?a\nb?>", "<!X y>", "<!DOCTYPE html>", "<!doctype html>",
        "<![CDATA[ x]] ]]>", "<![cdata[x]]>", "<a", "<a href='", "<_x>", "<1>", "< a>", "<a/ >", "<a b=c d>", "<a:b>", "<a-b c_d=e>",
        "<a b==c>", "<a b=`c`>", "<a\u00a0b>", "<a b='1'c='2'>", "<a  b = c >", "</a b>", "</>", "<>", "<a b\n=\n'c'\n/>", "<kbd\x0bx>",
        "<ſcript>", "<\u212abd>", "<!--a->", "<![CDATA[\n]]>", "<!A\n>", "<!A>"]
AUTO = ["<http://a.b>", "<mailto:x@y.z>", "<a@b.c>", "<x.y+z@foo-bar.example.com>", "<a@b-.c>", "<a@-b>", "<made-up-scheme://foo,bar>",
        "<a:b>", "<ab:>", "<http://a b>", "<http://[x]\\*>", "<HTTP://É.x?q=\"&amp;>", "<localhost:5001/foo>", "<m:a>", "<a+b.c-d:x>",
        "<foo@bar@baz>", "<a\\@b.c>", "<https://a.b/*c*>", "<ftp://x/`y`>", "<ſs:x>", "<a" + "b" * 31 + ":x>", "<a" + "b" * 32 + ":x>",
        "<x@" + "a" * 63 + ".b>", "<x@" + "a" * 64 + ".b>", "<javascript:alert(1)>", "<a@b_c.d>"]
DELIM = ["*", "**", "***", "****", "_", "__", "___", "____", "*", "_", "**", "*****"]
DEST = ["/url", "<u v>", "<>", "", "foo(bar)", "foo(bar", "foo)", "\\(x", "a\\b", "<a\\>b>", "<a<b>", "#f", "?q=a&b", "http://x.y/ä",
        "%20", "%zz", "a%C3%A4", "\"q\"", "é\u3000", "[x]", "a*b*c", "<a\nb>", "foo\x01bar", "&auml;&#x20;", "b\u00a0c", "(a(b)c)",
        "((a)", "a((b)c))", "<(>", "<)", "javascript:x", "`a`", "<b>c", "\\<x>", "((((x))))", "!$',;:@&=+~", "a\x7fb", "\ud800x",
        "//a|b^c{d}"]
TITLE = ["\"t\"", "'t'", "(t)", "\"t\\\"u\"", "'a\"b'", "(a\\)b)", "(a(b)c)", "\"\"", "''", "()", "\"a\nb\"", "\"*a*\"", "\"&amp;&ouml;\"",
         "\"a", "'b", "(c", "\"t\\\"", "'x'y", "\"<b>\"", "\"t\" x", "t", "\"\\a\\\\\"", "'\\''", "(\\()", "\"`a`\"", "'é\u00a0'"]
LABELS = ["foo", "bar", "FOO", "Foo", "ba z", "ba  z", "ba\nz", "ß", "SS", "ẞ", "ss", "ΑΓΩ", "αγω", "1", "*a*", "a\\]b", "a\\[b", "f&amp;o",
          "f&o", " foo ", "\tfoo", "\u00a0foo", "ǅ", "ﬁ", "fi", "İ", "ı", "x\\", "x\\\\", "é", "É", "toLower", "\\!", "!", "`", "<a>", "\x0bfoo",
          "ΐ", "\u03b9\u0308\u0301", "Ŀ", "𐐀", "𐐨", "Ⴀ", "Ꭰ", "ꭰ", "ς", "Σ", "σ"]

INLINE_SOUP = (DELIM * 4 + ["[", "]", "![", "(", ")", "`", "``", "<", ">", "\n", " ", "  ", "  \n", "\\\n", " \n", "!", "&", ";", "\"", "'",
               "--", "---", "...", "-", ".", ":", "~", "](", "](/u)", "][]", "[foo]", "](/u \"t\")", "\t", "```"] * 2)


def word(r):
    return r.choice(WORDS)


def label(r):
    k = r.random()
    if k < .7:
        return r.choice(LABELS)
    if k < .9:
        return r.choice(["foo", "bar", "baz"])
    if k < .93:
        n = r.choice([997, 998, 999, 1000, 1001])
        return ("a" * n) if r.random() < .5 else ("a" + " " * (n - 2) + "b")
    return "".join(r.choice("ab \\[]*`<\n&") for _ in range(r.randint(1, 6)))


def inline_soup(r, n=None, focus=None):
    n = n or r.randint(1, 14)
    out = []
    base = focus or INLINE_SOUP
    for _ in range(n):
        k = r.random()
        if k < .48:
            out.append(r.choice(base))
        elif k < .72:
            out.append(word(r))
        elif k < .80:
            out.append(r.choice(ESC))
        elif k < .85:
            out.append(r.choice(ENT))
        elif k < .90:
            out.append(r.choice(TAGS))
        elif k < .93:
            out.append(r.choice(AUTO))
        elif k < .96:
            out.append(r.choice(UNI_PUNCT))
        elif k < .975:
            out.append(r.choice(UNI_SPACE + CTRL))
        else:
            out.append(link(r))
    return "".join(out)


EMPH_ATOMS = DELIM * 3 + ["a", "b", " ", "é", ".", "(", ")", "«", "\u00a0", "*", "_", "\"", "€", "\n", "\U00010100", "日"]


def emph(r, n=None):
    k = r.random()
    n = n or r.randint(2, 16)
    if k < .35:
        alpha = r.choice(["*a", "*a ", "_a ", "*_a", "*_a ", "*a.", "_a.", "*_ab ", "*_a (", "**a b", "*_a«\u00a0"])
        return "".join(r.choice(alpha) for _ in range(n + r.randint(0, 12)))
    if k < .75:
        return "".join(r.choice(EMPH_ATOMS) for _ in range(n))
    # nested structured emphasis with perturbation
    s = word(r)
    for _ in range(r.randint(1, 6)):
        d = r.choice(DELIM)
        z = r.random()
        if z < .6:
            s = d + s + d
        elif z < .8:
            s = s + r.choice([" ", "", "."]) + d + word(r) + d
        else:
            s = r.choice([word(r), d, "(", "[", "`"]) + s + r.choice(["", " ", word(r), ")", "](/u)", "`"])
    return mutate(r, s, EMPH_ATOMS) if r.random() < .4 else s


def dest(r):
    if r.random() < .75:
        return r.choice(DEST)
    return "".join(r.choice(["a", "(", ")", "\\", "<", ">", "%", "é", "&amp;", "*", "[", "]", " ", "\"", "`"]) for _ in range(r.randint(0, 8)))


def title(r):
    if r.random() < .8:
        return r.choice(TITLE)
    q = r.choice(["\"", "'", "("])
    return q + "".join(r.choice(["a", "\\", "\"", "'", "(", ")", "\\\"", "&quot;", " ", "\n", "*", "<"]) for _ in range(r.randint(0, 6))) + \
        (q if q != "(" else ")")


SEP = [" ", " ", " ", "", "\n", "  \n ", "\t", " \n\t", "\u00a0", "\n\n", "\x0b"]


def link(r, depth=2, text=None):
    bang = r.choice(["", "", "!"])
    if text is None:
        k = r.random()
        if depth and k < .25:
            text = word(r) + link(r, depth - 1) + word(r)
        elif k < .5:
            text = emph(r, 5)
        elif k < .7:
            text = label(r)
        else:
            text = inline_soup(r, 3)
    k = r.random()
    if k < .45:
        t = ""
        if r.random() < .45:
            t = r.choice(SEP) + title(r)
        return bang + "[" + text + "](" + r.choice(["", "", " ", "\n", "\t", "  "]) + dest(r) + t + \
            r.choice(["", "", " ", "\n", "\t"]) + r.choice([")", ")", ")", ")", "", " x)", "]", "[foo]"])
    if k < .65:
        return bang + "[" + text + "][" + label(r) + "]"
    if k < .75:
        return bang + "[" + label(r) + "][]"
    if k < .92:
        return bang + "[" + label(r) + "]"
    return bang + "[" + text + "]" + r.choice([" ", "\n", "", "\\"]) + r.choice(["[]", "[foo]", "(/u)", "[ ]", "[\n]"])


def refdef(r):
    s = "[" + label(r) + "]" + r.choice([":", ":", ":", ":", ":", " :", ""]) + r.choice([" ", "", "\n", "\t", "  \n  ", "\n\n", "\x0b"]) + dest(r)
    if r.random() < .5:
        s += r.choice(SEP) + title(r)
    return s + r.choice(["", "", "", " ", "\t", " x", "\x0c", "  "])


def text_line(r):
    k = r.random()
    if k < .4:
        return " ".join(word(r) for _ in range(r.randint(1, 4)))
    if k < .6:
        return inline_soup(r, r.randint(1, 6)).replace("\n", " ")
    if k < .75:
        return emph(r).replace("\n", " ")
    if k < .88:
        return link(r)
    return refdef(r)


# ------------------------------------------------------------------ block soup
INDENTS = ["", "", "", "", "", "", " ", "  ", "  ", "   ", "    ", "     ", "      ", "       ", "        ", "\t", " \t", "  \t", "   \t", "\t\t",
           "\t ", "    \t", "          "]
BULLETS = ["-", "-", "*", "+", "1.", "1)", "2.", "0.", "10.", "123456789.", "1234567890.", "-", "003)", "1\u0662.", "\u0661.", "-"]
AFTER = [" ", " ", " ", "  ", "   ", "    ", "     ", "\t", "", " \t", "\t\t", "      ", "  \t"]
BLOCKY = ["#", "##", "######", "#######", "# a", "## b ##", "# c #d", "#\tx", "# \\#", "#a", "# #", "### ###", "# x \t##\t",
          "===", "---", "=", "-", "--", "==  ", "= =", "- -", "--\t", "***", "___", "- - -", "* * *", "_ _\t_", "****x", "-\t-\t-", "+++", "*-*",
          "```", "```", "~~~", "````", "~~~~", "``` a b", "~~~ `x`", "``` x`", "```é&amp;\\*", "~~~\u00a0i", "```  ", "```\t", "~~~~~", "``",
          "<div>", "</div>", "<!-- c", "-->", "<?x", "?>", "<!A", ">", "<![CDATA[", "]]>", "<script>", "</script>", "<pre x>", "</PRE>", "<a>",
          "</a>", "<a b='c'> ", "<a> x", "<div", "<h2>", "<H6 x>", "<h7>", "<style>x</style>", "<p/>", "<p />", "<source", "<summary>", "<basefont>",
          "<!-- a --> b", "<?x?> b", "<!a>", "<!>", "<del>", "<del>*a*</del>", "<ſcript>", "<a\u00a0>", "<lin\u212a>", "<textarea>", "<option\x0b>",
          "<scriptx>", "<pre\u3000>", "<x-y z=1 />", "<a href=\"", "</ins >", "<br/>z",
          "[foo]: /url", "[bar]: <x> 't'", "[foo]:", "[foo]: /url \"t", "\"t\"", "'x' y", "[baz]: /u\n'title'", "[foo]", "\\", "|"]


def soup_line(r):
    s = ""
    for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4])):
        k = r.random()
        s += r.choice(INDENTS)
        if k < .45:
            s += ">" + r.choice(["", " ", " ", " ", "\t", "  "])
        else:
            s += r.choice(BULLETS) + r.choice(AFTER)
    s += r.choice(INDENTS)
    k = r.random()
    if k < .22:
        return s
    if k < .55:
        return s + r.choice(BLOCKY)
    if k < .9:
        return s + r.choice(WORDS)
    return s + text_line(r)


def block_soup(r, n=None):
    n = n or r.randint(1, 9)
    lines = []
    for _ in range(n):
        z = r.random()
        if lines and z < .12:
            lines.append(lines[-1])
        elif z < .28:
            lines.append(r.choice(["", "", "", " ", "  ", "\t", "    ", "      "]))
        else:
            lines.append(soup_line(r))
    return "\n".join(lines) + r.choice(["", "\n"])


def inert_text(r):
    return " ".join(r.choice(["foo", "bar", "baz", "a", "b1", "Q", "zed", "éa", "日本"]) for _ in range(r.randint(1, 3)))


# ------------------------------------------------------------------ structured documents
def blocks(r, depth=3, n=None):
    """A list of source lines forming a plausible document."""
    out = []
    n = n or r.randint(1, 4)
    for i in range(n):
        k = r.random()
        if depth > 0 and k < .22:
            body = blocks(r, depth - 1)
            pre = r.choice(["> ", "> ", ">", ">\t", " > "])
            lazy = r.random() < .2
            out += [(pre + x).rstrip(" ") if r.random() < .3 else pre + x if not (lazy and j and r.random() < .5) else x
                    for j, x in enumerate(body)]
        elif depth > 0 and k < .5:
            out += a_list(r, depth)
        elif k < .72:
            for _ in range(r.randint(1, 3)):
                out += ((" " * r.choice([0, 0, 0, 1, 2, 3]) if r.random() < .3 else "") + text_line(r)).split("\n")
            if r.random() < .12:
                out.append(r.choice(["===", "---", "=", " --"]))
        elif k < .77:
            out.append("#" * r.randint(1, 6) + " " + text_line(r).split("\n")[0] + r.choice(["", " #", " ##"]))
        elif k < .80:
            out.append(r.choice(["***", "---", "_ _ _", " * * *"]))
        elif k < .87:
            f = r.choice("`~") * r.randint(3, 5)
            ind = " " * r.choice([0, 0, 0, 1, 3])
            out.append(ind + f + r.choice(["", " py", "c++ x", " é\\*&amp;"]))
            out += [r.choice(INDENTS) + r.choice(["code", "", "x *y*", "&amp;", "<b>", "- l", "> q", "\\*", "~~", "``"])
                    for _ in range(r.randint(0, 4))]
            if r.random() < .85:
                out.append(" " * r.choice([0, 0, 1, 3]) + f + r.choice(["", f[0], "  "]))
        elif k < .92:
            out += [r.choice(["    ", "\t", "     ", "    \t"]) + r.choice(["code", "x", "  y", "&lt;", "*a*", "- z"]) if r.random() < .8 else
                    r.choice(["", "    ", "      ", "\t"]) for _ in range(r.randint(1, 4))]
        elif k < .96:
            out += r.choice([["<div>", "*a*", "</div>"], ["<!-- a", "", "b -->", "c"], ["<script>", "x", "", "</script>y"], ["<a>", "b"],
                             ["<?p", " ", "?>"], ["<pre>", "", ""], ["<h3>", "x"]])
        else:
            out += refdef(r).split("\n")
        if i + 1 < n and r.random() < .62:
            out += [""] * r.choice([1, 1, 1, 2, 3])
    return out


def a_list(r, depth):
    out = []
    ordered = r.random() < .45
    num = r.choice([1, 1, 1, 0, 2, 7, 99, 999999998])
    mk = r.choice(".)") if ordered else r.choice("-+*")
    loose = r.random() < .4
    base = r.choice([0, 0, 0, 1, 2, 3])
    for i in range(r.randint(1, 4)):
        if r.random() < .08:
            mk = r.choice(".)") if ordered else r.choice("-+*")
        m = "%d%s" % (min(num + i, 999999999), mk) if ordered else mk
        pad = r.choice([1, 1, 1, 1, 2, 3, 4, 5])
        body = blocks(r, depth - 1, r.choice([1, 1, 2, 3])) if r.random() < .93 else [""]
        w = len(m) + pad if pad < 5 else len(m) + 1
        if r.random() < .1:
            w = len(m) + 1
            out.append(" " * base + m)
        else:
            out.append(" " * base + m + " " * pad + body[0])
            body = body[1:]
        drift = r.choice([0, 0, 0, 0, 0, -1, 1, 2, -2])
        for x in body:
            ind = " " * max(0, base + w + (drift if r.random() < .5 else 0))
            if x == "" and r.random() < .8:
                out.append("")
            elif r.random() < .06:
                out.append(x)
            else:
                out.append(tabify(r, ind) + x)
        if loose and r.random() < .7 or r.random() < .06:
            out.append("")
    return out


def tabify(r, ind):
    if r.random() < .15 and len(ind) >= 4:
        return ind.replace("    ", "\t", r.randint(1, 2))
    return ind


def document(r):
    return "\n".join(blocks(r)) + r.choice(["", "\n", "\n", "\n\n"])


# ------------------------------------------------------------------ mutation
MUT_TOK = ["*", "_", "[", "]", "(", ")", "`", "\n", "\n\n", " ", "    ", "\t", ">", "> ", "- ", "1. ", "#", "\\", "&", "<", ">", "~~~", "```", "---",
           "===", "!", "\"", "'", ":", "|", "\r\n", "\r", "\u00a0", "\x00", "é", "[foo]: /u\n", "**", "--", "..."]


def mutate(r, s, toks=None):
    toks = toks or MUT_TOK
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        k = r.random()
        i = r.randint(0, len(s))
        j = min(len(s), i + r.choice([1, 1, 2, 3, 8]))
        if k < .35:
            s = s[:i] + r.choice(toks) + s[i:]
        elif k < .6:
            s = s[:i] + s[j:]
        elif k < .75:
            s = s[:j] + s[i:j] * r.randint(1, 3) + s[j:]
        elif k < .85:
            s = s[:i] + r.choice(toks) + s[j:]
        else:
            ls = s.split("\n")
            if len(ls) > 1:
                a, b = r.randrange(len(ls)), r.randrange(len(ls))
                if r.random() < .5:
                    ls[a], ls[b] = ls[b], ls[a]
                else:
                    ls[a] = r.choice(["> ", "- ", "  ", "    ", "\t", "1. ", "* "]) + ls[a]
                s = "\n".join(ls)
    return s


def spec_mutant(r):
    s = r.choice(SPEC_MD)
    if r.random() < .3:
        s = s.rstrip("\n") + r.choice(["\n", "\n\n", ""]) + r.choice(SPEC_MD)
    k = r.random()
    if k < .2:
        s = wrap(r, s)
    return mutate(r, s) if r.random() < .85 else s


def wrap(r, s):
    ls = s.split("\n")
    k = r.random()
    if k < .4:
        return "\n".join("> " + x if r.random() < .92 else x for x in ls)
    m = r.choice(["- ", "1. ", "10) ", "*   "])
    ind = " " * len(m)
    return "\n".join((m if i == 0 else ind if x or r.random() < .3 else "") + x for i, x in enumerate(ls))


def splice(r, a, b):
    la, lb = a.split("\n"), b.split("\n")
    return "\n".join(la[:r.randint(0, len(la))] + lb[r.randint(0, len(lb)):])


# ------------------------------------------------------------------ sources under test as workload steering
_MINED = None


def mined_tokens(repo):
    """Short string and integer constants of the code under test: only used to steer inputs."""
    global _MINED
    if _MINED is None:
        toks, nums = set(), set()
        for f in glob.glob(os.path.join(repo, "commonmark", "*.py")) + glob.glob(os.path.join(repo, "commonmark", "render", "*.py")):
            if f.endswith("entitytrans.py"):
                continue
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (SyntaxError, OSError, ValueError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, str) and 0 < len(n.value) <= 12:
                        toks.add(n.value)
                    elif isinstance(n.value, int) and not isinstance(n.value, bool) and 1 < n.value <= 3000:
                        nums.add(n.value)
        _MINED = (sorted(toks), sorted(nums))
    return _MINED


def mined_doc(r, repo):
    toks, nums = mined_tokens(repo)
    k = r.random()
    if k < .6:
        base = r.choice([inline_soup, document, block_soup, spec_mutant])(r)
        for _ in range(r.randint(1, 4)):
            i = r.randint(0, len(base))
            t = r.choice(toks)
            base = base[:i] + t + base[i:]
        return base
    n = min(600, max(1, r.choice(nums) + r.choice([-1, 0, 1])))
    u = r.choice(["*", "_", "`", "#", " ", "a", "[", "]", "(", "-", "> ", "- ", "\n", "a\n", "\\", "&", "~", "=", "!", "é", "\t", "<", "a ", ". ",
                  "1", "*a ", "a* ", "- a\n", "> a\n", "a\n\n", "[foo] ", "\n\n"])
    return r.choice(["", "a ", "[foo]: /u\n", "- "]) + u * n + r.choice(["", "a", "\n", "](/u)", " b"])


def any_doc(r, repo="/repo"):
    k = r.random()
    if k < .22:
        return document(r)
    if k < .42:
        return block_soup(r)
    if k < .58:
        return spec_mutant(r)
    if k < .68:
        return "\n\n".join(inline_soup(r) for _ in range(r.randint(1, 2)))
    if k < .76:
        return link_doc(r)
    if k < .83:
        return emph(r)
    if k < .89:
        return mutate(r, document(r))
    if k < .93:
        return splice(r, document(r), block_soup(r))
    if k < .97:
        return mined_doc(r, repo)
    return rand_unicode(r)


def link_doc(r):
    parts = []
    for _ in range(r.randint(0, 3)):
        parts.append(refdef(r))
    for _ in range(r.randint(1, 3)):
        parts.append("".join(r.choice([link(r), word(r), " ", r.choice(DELIM), "[", "]", "`", r.choice(ESC), "!", "(", "<", "\n"])
                             for _ in range(r.randint(1, 5))))
    if r.random() < .5:
        r.shuffle(parts)
    return r.choice(["\n\n", "\n"]).join(parts)


def rand_unicode(r, n=None):
    out = []
    for _ in range(n or r.randint(1, 30)):
        k = r.random()
        if k < .4:
            out.append(chr(r.randrange(0x80)))
        elif k < .7:
            out.append(chr(r.randrange(0x3000)))
        elif k < .8:
            out.append(chr(r.randrange(0xD800, 0xE000)))
        elif k < .95:
            out.append(chr(r.randrange(0x110000)))
        else:
            out.append(r.choice(MUT_TOK))
    return "".join(out)


# ---------------------------------------------------------------- the same thing many times
def _ix(fmt, n, k=1):
    return "".join(fmt.replace("%d", str(i)) for i in range(0, n, k))


UNITS = ["*a* ", "**a** ", "_a_ ", "*a ", "a* ", "a**b_c ", "`a` ", "``a`b`` ", "` ", "[a](/u) ", "![a](/u 't') ", "[a] ", "[a][b] ", "[", "] ", "[a", "](/u)", "<http://a.b> ", "<a@b.c> ", "<b>", "<b", "<!-- a -->", "&amp;", "&amp", "&",
         "\\*", "\\", "a\n", "a  \n", "a\\\n", "\"a\" ", "'a' ", "\"", "'", "--", "---- ", "---", "-", ".", "... ", "(", ")", "(a) ", "é", "\t", " ", "\u00a0", "a", "a ", "*", "_", "**_", "!", "![", "<", ">", "~", "#", "=", "+", "1.", ":", "a\u2003"]
LINES = ["- a\n", "1. a\n", "* a\n\n", "- a\n\n  b\n", "- \n", "> a\n", "> \n", "a\n\n", "# a\n", "# a #\n", "a\n===\n", "a\n---\n", "***\n", "    a\n", "\ta\n", "```\n", "```\na\n```\n", "~~~\n\n", "\n", "  \n", "<div>\n\n", "<!-- a\n", "<b>\n", "| a\n", "\\\n", "&#10;\n",
         "- a\n  - b\n", "> - a\n", "- > a\n", "1) a\n2. b\n", "+ a\n- b\n", "> a\n\n", "  a\n", "`a\n", "*a\n", "[a\n", "a  \n", "1. ```\n   x\n   ```\n"]
SHAPES = [  # nested or long in one piece
    lambda n: "> " * n + "a", lambda n: ">" * n + "a\nb", lambda n: "- " * n + "a", lambda n: "1. " * n + "a", lambda n: "> - " * (n // 2) + "a", lambda n: "".join("  " * i + "- a\n" for i in range(min(n, 130))), lambda n: "".join("> " * i + "a\n\n" for i in range(min(n, 120))),
    lambda n: "*a " * n + "b* " * n, lambda n: "**a " * n + "b** " * n, lambda n: "*a **b " * n + "c** d* " * n, lambda n: "_a " * n + "b_ " * n, lambda n: "x " + "*" * n + "a" + "*" * n, lambda n: "x " + "_" * n + "a" + "_" * n + " b", lambda n: "x " + "*" * n + "a" + "*" * (n + 1),
    lambda n: "[" * n + "a" + "](/u)" * n, lambda n: "![" * n + "a" + "](/u)" * n, lambda n: "![a ![" * (n // 2) + "b" + "](/u 't') c](/v)" * (n // 2), lambda n: "[" * n + "a" + "]" * n + "\n\n[a]: /u", lambda n: "*[" * n + "a" + "](/u)*" * n,
    lambda n: "x " + "`" * n + "a" + "`" * n, lambda n: "x " + "`" * n + "a" + "`" * (n - 1) + " b" + "`" * n, lambda n: "".join("`" * i + "a " for i in range(1, min(n, 120))) + "`" * 7,
    lambda n: "[a](" + "(" * n + "b" + ")" * n + ")", lambda n: "[a](" + "b" * n + ")", lambda n: "[a](<" + "b " * n + ">)", lambda n: "[a](/u \"" + "t " * n + "\")", lambda n: "[a](/u '" + "t\n" * n + "')", lambda n: "[a](" + "&amp;\\*" * n + ")", lambda n: "[a](" + " " * n + "/u" + " " * n + "'t'" + " " * n + ")",
    lambda n: "[" + "a" * min(n, 999) + "]\n\n[" + "A" * min(n, 999) + "]: /u", lambda n: "[" + "a" * 1000 + "]\n\n[" + "a" * 1000 + "]: /u", lambda n: "[" + "a b" * min(n // 3, 333) + "]\n\n[" + "a\nb" * min(n // 3, 333) + "]: /u", lambda n: "[" + "é" * n + "x" * n + "](/u)",
    lambda n: _ix("[a%d]: /u%d\n", n) + "\n" + _ix("[a%d] ", n, 7) + "[a%d]" % (n - 1), lambda n: _ix("[a%d]: /u%d 't'\n\n", n) + _ix("[A%d][] ", n, 7) + "[a%d]" % (n - 1), lambda n: "[a] [a%d]\n\n" % (n - 1) + _ix("> [a%d]: /u%d\n\n- x\n\n", n, 3) + "[a%d]: /v" % (n - 1),
    lambda n: "[a]: /u\n" + _ix("[a]: /u%d\n", n) + "\n[a]", lambda n: "[a]: /u\n" * n + "b\n===", lambda n: "[a]: /u '" + "t\n" * n + "'\n\n[a]", lambda n: "[a]: /" + "u" * n + "\n\n[a]",
    lambda n: "x <a" + " b" * n + ">", lambda n: "x <a" + " b='c\n'" * n + "/>", lambda n: "x <" + "a" * n + ">", lambda n: "x <a b=\"" + "c\n" * n + "\">", lambda n: "x <!-- " + "a\n" * n + "-->", lambda n: "x <?" + "a\n" * n + "?>", lambda n: "x <![CDATA[" + "]" * n + ">", lambda n: "x <!A " + "b" * n + ">",
    lambda n: "<http:" + "a" * n + ">", lambda n: "<" + "a" * n + "@b.c>", lambda n: "<a@" + "b." * n + "c>", lambda n: "&" + "a" * n + ";", lambda n: "&#" + "1" * n + ";", lambda n: "&#x" + "0" * n + ";",
    lambda n: "a\n" * n + "===", lambda n: "a" * n + "\n" + "=" * n, lambda n: "a\n" + "-" * n, lambda n: "# " + "a " * n + "#" * n, lambda n: "# a" + " " * n + "b" + " " * n + "#", lambda n: "#" * n + " a", lambda n: "* " * n, lambda n: "- " * n + "b", lambda n: "_\t" * n,
    lambda n: "`" * n + "\na\n" + "`" * (n - 1) + "\nb\n" + "`" * n + "\nc", lambda n: "~" * n + " a\n\tb\n" + "~" * (n + 5) + "\nc", lambda n: "``` " + "a" * n + "\nb\n```", lambda n: "```\n" + "a\n" * n + "```\nb", lambda n: "```\n" + "\n" * n + "a\n```\nb", lambda n: "    a\n" + "\n" * n + "    b\n\nc",
    lambda n: "    a\n" + "      b\n" * n + "c", lambda n: " " * n + "a", lambda n: "\t" * n + "a", lambda n: "- " + " " * n + "a", lambda n: "> " + "\t" * n + "a\n> b", lambda n: "-" + "\t" * n + "a", lambda n: "- a\n" + "\n" * n + "  b", lambda n: "- a\n" + "\n" * n + "- b", lambda n: "a\n" + "\n" * n + "b",
    lambda n: "<div>\n" + "a\n" * n + "\nb", lambda n: "<pre>\n" + "\n" * n + "</pre>\nb", lambda n: "<!--\n" + "a\n" * n + "-->\nb", lambda n: "<script>" + "a" * n + "</script>\nb", lambda n: "<b" + " c" * n + ">\nd", lambda n: "a\n" * n + "- b\n", lambda n: "- a\n" + "b\n" * n, lambda n: "> a\n" + "b\n" * n,
    lambda n: "1. a\n" * n + "\n2. b", lambda n: "- a\n" * n + "\n- b", lambda n: "- a\n\n" + "- b\n" * n, lambda n: "- a\n  - b\n" * n + "\n  c", lambda n: "- a\n" + "  - b\n" * n + "\n- c", lambda n: "a" * n + " *b* `c` [d](/e)", lambda n: "a " * n + "*b* `c` [d](/e)", lambda n: "a\n" * n + "*b* `c` [d](/e)",
    lambda n: "a\n\n" * n + "*b* `c` [d](/e)\n\n> - e\n", lambda n: "*a* " * n + "[d](/e)", lambda n: "*a " * n + "[d](/e) `c`", lambda n: "[a " * n + "*b* [d](/e)", lambda n: "a\u2028" * n + "b", lambda n: "a\0" * n, lambda n: "\\\\" * n + "*a*", lambda n: "a" + "\u0301" * n,
    lambda n: "x " + "a*b_c" * n, lambda n: "x <a\n" + " \n" * 0 + "b" * n + "\n>", lambda n: "\"" + "a 'b " * n + "c' d" * n + "\"", lambda n: "x " + "-" * n + " y", lambda n: "x " + "." * n + " y"]


def bigs(sizes):
    """Every unit, line and shape in the given sizes."""
    for n in sizes:
        for u in UNITS:
            yield "x" + u * n + "y"
            yield u * n
        for u in LINES:
            yield u * n
            yield "> " + "> ".join((u * min(n, 400)).splitlines(True))
            yield "- " + "  ".join((u * min(n, 400)).splitlines(True))
        for f in SHAPES:
            yield f(n)
