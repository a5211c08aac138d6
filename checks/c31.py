import html.entities
import json

import canon
import gen as G
import sut

ID = "C31"
TECHNIQUE = "constructed trees written as Markdown in random spellings: the parsed tree must be the one that was written, in every spelling"
QUICK = (7000, 100)
THOROUGH = (1200000, 1200)
RULE = ("A random tree of blocks and inlines is written twice as Markdown, each time choosing freely among the spellings the specification gives (ATX or setext, fence characters and lengths or indentation, markers and their spaces, "
        "kinds of thematic breaks, blank lines and spaces on them, lazy continuation, * or _, backticks, inline or reference links, quoting of titles, backslashes or character references, tabs for indentation, line endings). "
        "Both parses must give exactly the tree. Non-trivial: at least two blocks.")
REQUIRE = {"writings": 15000, "paragraph": 40000, "heading": 6000, "code_block": 6000, "list": 10000, "block_quote": 8000, "thematic_break": 3000, "html_block": 3000, "emph": 20000, "strong": 20000, "link": 20000, "image": 8000,
           "code": 10000, "linebreak": 10000, "softbreak": 10000, "lazy lines": 3000, "references": 10000, "definitions": 10000, "indented code": 400, "unclosed fences": 300, "joined blocks": 2000, "definitions between blocks": 1500,
           "items beginning with a blank line": 500, "tabs after markers": 300, "lead": 5000,
           "blocks straight after definitions": 100}
ASSUMPTIONS = ["only spellings whose reading is beyond doubt are written (words between delimiters and brackets, every line begins with a word)"]

WORDS = ["a", "foo", "Bar", "x1", "é", "日本", "naïve", "\U0001d4ab", "don", "it", "b2b", "ſt", "Ωmega", "q"]
INFOS = ["", "", "py", "c++", "ruby start=3", "é", "a&b", "x-y"]
DESTS = ["/u", "/url?a=b&c=d", "http://a.b/c_d", "#f", "/é", "a(b)c", "/a*b*", "x", "", "/q\"r", "/p[1]", "/t\\e", "b(c)\"d", "(a)'b'", "f(a(b)c)(d)"]
TITLES = [None, None, "t", "a b", "it's", "say \"x\"", "(y)", "a\\b", "*e*", "&", "x\ny"]
RAWS = ["<b>", "</b>", "<i x=\"y\">", "<br />", "<!-- c -->", "<?p q?>", "<!X y>", "<![CDATA[z]]>", "<a href='*u*'>"]
CODES = ["c", "a b", "*x*", "`", "``", "a`b", "<b>", "&amp;", "\\", "[a](b)", " ", "é", "x  y"]
AUTO = [("http://a.b/c", "http://a.b/c"), ("x-y:z", "x-y:z"), ("mailto:q@r", "mailto:q@r"), ("q@r.s", "mailto:q@r.s"), ("https://a.b?c=d&e=*f*", "https://a.b?c=d&e=*f*")]
LEADS = ["#", "##", "-", "+", "*", ">", "1.", "10)", "---", "===", "~~~", "```", "***", "[x]:", "<div>", "&lt;", "\\", "\"q\"", "'r'", "(s)", "|"]
SIGNS = "*_`[]<>&!\\#+-.()\"'~:{}|=^$%@/;,?"
LINES = ["x", "  y", "*a*", "> q", "- l", "# h", "&amp;", "\\*", "<b>", "[r]: /u", "", "é", "1. n", "    deep", "a\tb", "~", "`c`"]
HTMLS = [["<div>", "*x*", "</div>"], ["<!-- a", "", "b -->"], ["<script>", "x < y && *z*", "", "</script>"], ["<?php", "", "?>"], ["<table>", "  <tr>", "</table>"], ["<pre>", "", "  a", "</pre>"], ["<![CDATA[", "", "]]>"]]


# ------------------------------------------------------------------ trees
def text(r):
    return {"t": "text", "s": " ".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))}


def sign(r):
    return {"t": "sign", "s": r.choice(SIGNS)}


def inline(r, d, only=()):
    """A sequence of inlines, words at both ends, blanks (or breaks) between the parts."""
    out = [text(r)]
    if r.random() < .1:
        out = [{"t": "lead", "s": r.choice(LEADS)}, {"t": "gap"}] + out
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < .2 and "emph" not in only and d:
            x = {"t": "emph", "c": inline(r, d - 1, only + ("emph",))}
        elif k < .35 and "strong" not in only and d:
            x = {"t": "strong", "c": inline(r, d - 1, only + ("strong",))}
        elif k < .5 and "link" not in only and d:
            x = {"t": "link", "c": inline(r, d - 1, only + ("link",)), "dest": r.choice(DESTS), "title": r.choice(TITLES) or ""}
        elif k < .57 and d:
            x = {"t": "image", "c": inline(r, d - 1, only), "dest": r.choice(DESTS), "title": r.choice(TITLES) or ""}
        elif k < .67:
            x = {"t": "code", "s": r.choice(CODES)}
        elif k < .72:
            x = {"t": "html_inline", "s": r.choice(RAWS)}
        elif k < .77 and "link" not in only:
            a = r.choice(AUTO)
            x = {"t": "auto", "s": a[0], "dest": a[1]}
        elif k < .9:
            x = sign(r)
        else:
            x = None
        if x:
            out += [{"t": "gap"}, x]
        g = {"t": "gap"}
        if "oneline" not in only:
            g = {"t": r.choice(["gap", "gap", "gap", "softbreak", "linebreak"])}
        out += [g, text(r)]
        if g["t"] != "gap" and r.random() < .15:
            out[-1:-1] = [{"t": "lead", "s": r.choice(LEADS)}, {"t": "gap"}]
    return out


def several(x):
    """Has this heading more than one line?"""
    return any(y["t"] in ("softbreak", "linebreak") for y in canon.walk(x))


def blocks(r, d, n=None):
    out = []
    for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])):
        k = r.random()
        if k < .4 or not d and k < .7:
            out.append({"t": "paragraph", "c": inline(r, 3)})
        elif k < .5:
            n = r.randint(1, 6)
            out.append({"t": "heading", "level": n, "c": inline(r, 2, ("oneline",) if n > 2 or d < 0 or r.random() < .7 else ())})
        elif k < .6:
            ls = [r.choice(LINES) for _ in range(r.choice([0, 1, 1, 2, 4]))]
            out.append({"t": "code_block", "lines": ls, "info": r.choice(INFOS)})
        elif k < .65:
            out.append({"t": "thematic_break"})
        elif k < .7:
            out.append({"t": "html_block", "lines": r.choice(HTMLS)})
        elif k < .82:
            out.append({"t": "block_quote", "c": blocks(r, d - 1)})
        else:
            o = r.random() < .5
            loose = r.random() < .5
            items = []
            for _ in range(r.choice([1, 2, 2, 3])):
                if loose:
                    items.append({"t": "item", "c": blocks(r, d - 1, r.choice([1, 1, 2, 3]))})
                else:
                    c = [{"t": "paragraph", "c": inline(r, 2)}] if r.random() < .8 else []
                    if not c or r.random() < .4:
                        x = blocks(r, d - 1, 1)[0]
                        while x["t"] == "heading" and several(x):
                            x = blocks(r, d - 1, 1)[0]
                        if c and x["t"] in ("paragraph",):
                            x = {"t": "block_quote", "c": [x]}
                        if c and x["t"] == "list" and x["ordered"]:
                            x["start_no"] = 1           # (others cannot interrupt the paragraph)
                        c.append(x)
                    items.append({"t": "item", "c": c})
            out.append({"t": "list", "ordered": o, "mark": r.choice(".)") if o else None, "start_no": r.choice([1, 1, 0, 2, 7, 10, 99, 123456789]) if o else None,
                        "tight": not loose or len(items) == 1 and len(items[0]["c"]) == 1, "c": items})
    return out


def canonical(x):
    """The tree the parser must give, texts merged."""
    t = x["t"]
    if t == "code_block":
        return {"t": t, "s": "".join(y + "\n" for y in x["lines"]), "info": x["info"]}
    if t == "html_block":
        return {"t": t, "s": "\n".join(x["lines"])}
    if t == "auto":
        return {"t": "link", "dest": x["dest"], "title": "", "c": [{"t": "text", "s": x["s"]}]}
    if t in ("text", "sign", "gap", "lead"):
        return {"t": "text", "s": x.get("s", " ")}
    out = {k: v for k, v in x.items() if k != "c"}
    if "c" in x:
        out["c"] = []
        for y in x["c"]:
            z = canonical(y)
            if z["t"] == "text" and out["c"] and out["c"][-1]["t"] == "text":
                out["c"][-1] = {"t": "text", "s": out["c"][-1]["s"] + z["s"]}
            else:
                out["c"].append(z)
    return out


# ------------------------------------------------------------------ writing
NAMED = {"*": "&ast;", "_": "&lowbar;", "`": "&grave;", "[": "&lbrack;", "]": "&rsqb;", "<": "&lt;", ">": "&gt;", "&": "&amp;", "!": "&excl;", "\\": "&bsol;", "#": "&num;", "\"": "&quot;", "(": "&lpar;", ")": "&rpar;",
         "+": "&plus;", ".": "&period;", "'": "&apos;", "|": "&vert;", "=": "&equals;", "$": "&dollar;", "%": "&percnt;", "@": "&commat;", "/": "&sol;", ";": "&semi;", ",": "&comma;", "?": "&quest;", ":": "&colon;", "{": "&lcub;", "}": "&rcub;"}
PLAIN = "+-.()\"'~:{}|=^$%@/;,?#"


def char(ch, r, plain=PLAIN):
    k = r.random()
    if ch in plain and k < .5:
        return ch
    if k < .75:
        return "\\" + ch
    if k < .82 and ch in NAMED:
        return NAMED[ch]
    if k < .91:
        return "&#%s%d;" % ("0" * r.choice([0, 0, 2]), ord(ch))
    return "&#%s%x;" % (r.choice("xX"), ord(ch))


class Writer:
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.defs = []
        self.labels = 0
        self.written = 0
        self.refs = r.choice([0, 0, .01, .1])

    def title(self, s):
        r = self.r
        q = r.choice(["\"\"", "''", "()"])
        return q[0] + "".join(char(x, r, "") if x in q or x in "\\&" or r.random() < .05 and x in SIGNS else x for x in s) + q[1]

    def dest(self, s):
        r = self.r
        if s == "" or r.random() < .4:
            return "<" + "".join(char(x, r, "") if x in "<>\\&" or r.random() < .05 and x in SIGNS else x for x in s) + ">"
        return "".join(char(x, r, "") if x in "\\&<" or x in "()" and s.count("(") != s.count(")") or r.random() < .05 and x in SIGNS and x not in "()" else x for x in s)

    def space(self):
        """Blanks where white space is allowed, at most one line ending."""
        r = self.r
        return r.choice(["", " ", "  ", "\t"]) if self.flat or r.random() < .9 else r.choice(["\n", " \n"])

    def link(self, x):
        r = self.r
        plain = all(y["t"] in ("text", "gap") for y in x["c"])
        refs = self.refs
        if plain:
            self.refs = 0
        body = self.inl(x["c"], "img" if x["t"] == "image" else "link")
        bang = "!" if x["t"] == "image" else ""
        self.refs = refs
        multi = "\n" in x["title"]
        k = r.random()
        if k < .5 and not (multi and self.flat):
            t = ""
            if x["title"] or r.random() < .03:
                t = (self.space() or " ") + self.title(x["title"])
            d = self.dest(x["dest"])
            sp = self.space()
            if d[0] == "<":
                sp = sp.replace("\n", " ")              # (no line begins like HTML)
            return bang + "[" + body + "](" + sp + d + t + self.space() + ")"
        self.c.count("references")
        self.labels += 1
        lab = "lab%d" % self.labels
        if plain and r.random() < .4:
            # the text is the label
            lab = canonical({"t": "x", "c": x["c"]})["c"][0]["s"]
            key = " ".join(lab.split()).casefold()
            old = [y for y in self.defs if " ".join(y[0].split()).casefold() == key]
            if all((y[1], y[2]) == (x["dest"], x["title"]) for y in old):
                if not old:
                    self.defs.append((lab, x["dest"], x["title"]))
                return bang + "[" + body + "]" + r.choice(["", "[]"])
            lab = "lab%d" % self.labels
        self.defs.append((lab, x["dest"], x["title"]))
        s = lab if r.random() < .7 else lab.upper()
        return bang + "[" + body + "][" + r.choice(["", "", " "]) + s + r.choice(["", "", " "]) + "]"

    def inl(self, xs, inside=""):
        r = self.r
        out = []
        for i, x in enumerate(xs):
            t = x["t"]
            if not inside or t not in ("text", "gap"):
                self.c.count(t)
            if t == "text":
                out.append("".join("&#%d;" % ord(y) if y != " " and r.random() < self.refs else "&#x%X;" % ord(y) if y != " " and r.random() < self.refs else y for y in x["s"]))
            elif t == "gap":
                out.append(" ")
            elif t == "lead":
                s = x["s"]
                if s[0] in "\"'(|":
                    out.append(s)
                elif s[0] == "1":
                    out.append(s[:-1] + char(s[-1], r, "") if r.random() < .8 else "&#49;" + s[1:])
                elif s[0] in "-=~#+":
                    out.append(char(s[0], r, "") + s[1:])
                else:
                    out.append("".join(char(y, r, "") if y in SIGNS else y for y in s))
            elif t == "sign":
                s = x["s"]
                out.append(char(s, r) if s != "\\" or r.random() < .7 or xs[i + 1]["t"] != "gap" else "\\")
            elif t == "softbreak":
                out.append(r.choice(["", "", " "]) + "\n")
            elif t == "linebreak":
                out.append(r.choice(["  ", "\\", "     "]) + "\n")
            elif t == "code":
                s = x["s"]
                runs = {len(y) for y in "".join(z if z == "`" else " " for z in s).split()}
                n = r.choice([y for y in (1, 2, 3, 4) if y not in runs])
                pad = s[0] == "`" or s[-1] == "`" or s.strip() and s[0] == s[-1] == " " or s.strip() and r.random() < .2
                if s == "a b" and not self.flat and r.random() < .3:
                    s = "a\nb"
                if not self.flat and n < 3 and s in ("c", "a b", "é", "[a](b)", "a`b") and r.random() < .2:
                    # a line ending is a space too
                    out.append("`" * n + r.choice([" ", "\n"]) + s + r.choice([" ", "\n"]) + "`" * n)
                    continue
                out.append("`" * n + " " * bool(pad) + s + " " * bool(pad) + "`" * n)
            elif t == "html_inline":
                out.append(x["s"])
            elif t == "auto":
                out.append("<" + x["s"] + ">")
            elif t in ("emph", "strong"):
                d = r.choice("*_") * (1 if t == "emph" else 2)
                out.append(d + self.inl(x["c"], inside) + d)
            else:
                out.append(self.link(x))
        return "".join(out)

    def para(self, xs, flat=False):
        """Lines of inline content; continuation lines may be indented."""
        self.flat = flat
        r = self.r
        ls = self.inl(xs).split("\n")
        return ls

    def blank(self):
        r = self.r
        return [r.choice(["", "", "", " ", "  ", "   ", "     "]) for _ in range(r.choice([1, 1, 1, 2, 3]))]

    def blocks(self, xs, tight=False, top=False, quoted=False):
        """Lines, each with whether it may lose its prefix (paragraph continuation text)."""
        r = self.r
        out = []
        prev = None
        lastmark = None
        fenced = flushed = False
        for x in xs:
            t = x["t"]
            self.c.count(t)
            straight = False
            if prev is not None:
                join = tight
                if not tight and self.free and not several_lines(x) and prev["t"] in ("paragraph", "heading", "thematic_break") and t in ("heading", "thematic_break", "block_quote") and r.random() < .3:
                    join = True
                if not tight and self.free and not several_lines(x):
                    if prev["t"] in ("heading", "thematic_break") or prev["t"] == "code_block" and fenced:
                        join = r.random() < .3
                    elif prev["t"] in ("list", "block_quote") and (t in ("heading", "code_block", "html_block", "thematic_break") or t == "block_quote" != prev["t"]):
                        join = r.random() < .3
                join = join and not flushed
                if flushed and t in ("paragraph", "heading", "block_quote") and r.random() < .3:
                    self.c.count("blocks straight after definitions")
                    join = straight = True
                flushed = False
                if join and not tight:
                    self.c.count("joined blocks")
                if not join:
                    out += [(y, False) for y in self.blank()]
            after_par = prev is not None and prev["t"] in ("paragraph", "list", "block_quote") and (tight or join) and not straight
            pad = " " * r.choice([0, 0, 0, 1, 2, 3]) if not tight or prev is not None else ""
            if prev is not None and prev["t"] == "list":
                pad = pad[:1]                           # (more would belong to the last item)
            if prev is None:
                pad = ""                                # (a container's first line: its indentation is the marker's business)
            if t == "paragraph":
                ls = self.para(x["c"])
                out.append((pad + ls[0], False))
                out += [(" " * r.choice([0, 0, 0, 1, 3, 6]) + y, True) for y in ls[1:]]
            elif t == "heading":
                ls = self.para(x["c"], not several(x))
                s = ls[0]
                if x["level"] < 3 and (r.random() < .4 or len(ls) > 1 or several(x)) and not after_par:
                    out.append((pad + s, False))
                    out += [(" " * r.choice([0, 0, 1, 3, 7]) + y, False) for y in ls[1:]]
                    out.append((" " * r.choice([0, 0, 1, 3]) + "=-"[x["level"] - 1] * r.choice([3, 4, 9] if x["level"] == 2 else [1, 2, 3, 9]) + " " * r.choice([0, 0, 2]), False))
                else:
                    out.append((pad + "#" * x["level"] + r.choice([" ", " ", "  ", "\t"]) + s + r.choice(["", "", " #", " ####", "  ##  ", "  "]), False))
            elif t == "code_block":
                ls = x["lines"]
                was, fenced = fenced, True
                if not x["info"] and ls and ls[0].strip() and ls[-1].strip() and prev is not None and not after_par and (prev["t"] not in ("list", "code_block") or prev["t"] == "code_block" and was) and not tight and r.random() < .6:
                    fenced = False
                    self.c.count("indented code")
                    out += [((r.choice(["    ", "\t", "  \t"]) if top else "    ") + y if y else r.choice(["", " ", "    "]), False) for y in ls]
                else:
                    ch = r.choice("`~") if "`" not in x["info"] else "~"
                    n = r.choice([3, 3, 4, 7])
                    out.append((pad + ch * n + r.choice(["", " ", "  "]) + "".join(char(y, r, "") if y == "&" else y for y in x["info"]) + r.choice(["", " "]), False))
                    out += [(pad + y if y else y, False) for y in ls]
                    if quoted and x is xs[-1] and r.random() < .3:
                        self.c.count("unclosed fences")
                    else:
                        out.append((" " * r.choice([0, 0, 1, 3]) + ch * (n + r.choice([0, 0, 1, 5])) + r.choice(["", "  "]), False))
            elif t == "thematic_break":
                ch = r.choice("*_-" if not after_par and lastmark != "-" else "_")
                if prev is not None and prev["t"] == "list" or prev is None:
                    ch = "_"
                g = r.choice(["", " ", "  "])
                out.append((pad + g.join([ch] * r.choice([3, 4, 7])) + r.choice(["", "  "]), False))
            elif t == "html_block":
                out += [(y, False) for y in x["lines"]]
            elif t == "block_quote":
                free, self.free = self.free, True
                ls = self.blocks(x["c"], quoted=True)
                self.free = free
                for i, (y, lazy) in enumerate(ls):
                    if lazy and r.random() < .3:
                        self.c.count("lazy lines")
                        out.append((" " * r.choice([0, 0, 0, 1, 3, 4, 6]) + y.lstrip(" "), True))
                    else:
                        p = " " * r.choice([0, 0, 0, 1, 3]) if i else pad
                        out.append((p + (">" if not y.strip() and r.random() < .5 else "> ") + y, False))
            else:
                if x["ordered"]:
                    mark = x["mark"]
                else:
                    mark = r.choice([y for y in "-+*" if y != lastmark])
                free, self.free = self.free, False
                for i, it in enumerate(x["c"]):
                    if i and not x["tight"]:
                        out += [(y, False) for y in self.blank()]
                    m = mark
                    if x["ordered"]:
                        no = str(x["start_no"] if i == 0 else r.choice([x["start_no"] + i, x["start_no"], 1, 0, 5, 123456789]))
                        m = r.choice(["", "", "0", "00"])[:9 - len(no)] + no + mark
                    first = it["c"][0]
                    gap = r.choice([1, 1, 1, 2, 3, 4])
                    p = " " * r.choice([0, 0, 0, 1]) if i else pad
                    ls = self.blocks(it["c"], tight=x["tight"])
                    if not ls[0][0].strip():
                        raise AssertionError("an item begins with a blank line")
                    w = len(p) + len(m) + gap
                    sp = " " * gap
                    if not (after_par and not i) and not (prev is None and mark in "*-") and r.random() < .08:
                        self.c.count("items beginning with a blank line")
                        w = len(p) + len(m) + 1
                        out.append((p + m + r.choice(["", "", " ", "   "]), False))
                        ls = [None] + ls
                    elif top and 0 < 4 - len(p) - len(m) and r.random() < .2:
                        self.c.count("tabs after markers")
                        w, sp = 4, "\t"
                    for k, z in enumerate(ls):
                        if z is None:
                            continue
                        y, lazy = z
                        if not k:
                            out.append((p + m + sp + y, False))
                        elif lazy and r.random() < .2:
                            self.c.count("lazy lines")
                            out.append((" " * r.choice([0, 0, 0, 1, 3, 4, 6]) + y.lstrip(" "), True))
                        elif not y:
                            out.append((r.choice(["", "", " " * w]), False))
                        else:
                            out.append(((("\t" + " " * (w - 4)) if top and w > 3 and r.random() < .3 else " " * w) + y, lazy))
                self.free = free
            if t == "list":
                lastmark = mark
            else:
                lastmark = None
            prev = x
            if not tight and self.free is not None and self.written < len(self.defs) and r.random() < .2 and x is not xs[-1]:
                self.c.count("definitions between blocks")
                ls = self.definitions(t == "list")
                out += [(y, False) for y in self.blank() + ls]
                flushed = True
        return out

    def definitions(self, flush):
        r = self.r
        d = []
        self.flat = False
        for lab, dest, title in self.defs[self.written:]:
            self.c.count("definitions")
            t = ""
            if title:
                t = r.choice([" ", "  ", "\n", "\t"]) + self.title(title)
            d += ([""] if d and r.random() < .3 else []) + ((" " * r.choice([0, 0, 1, 3]) if d or not flush else "") + "[" + lab + "]:" + r.choice(["", " ", "\n", "\t", " \n "]) + self.dest(dest) + t + r.choice(["", " "])).split("\n")
        self.written = len(self.defs)
        return d

    def document(self, xs):
        r = self.r
        self.free = True
        ls = [y for y, _ in self.blocks(xs, top=True)]
        if self.written < len(self.defs):
            if self.written == 0 and r.random() < .5:
                ls = [""] * r.choice([0, 1]) + self.definitions(False) + [""] + ls
            else:
                ls = ls + [""] + self.definitions(xs[-1]["t"] == "list")
        ls = self.blank() * (r.random() < .2) + ls + self.blank() * (r.random() < .2)
        e = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        return e.join(ls) + (e if r.random() < .8 else "")


def several_lines(x):
    return x["t"] == "heading" and several(x)


def sanitize(xs):
    """Trees whose blocks would run into each other get something between them."""
    out = []
    for x in xs:
        if out and out[-1]["t"] == "list" and x["t"] == "list" and x["ordered"] and out[-1]["ordered"]:
            if out[-1]["mark"] == x["mark"]:
                out.append({"t": "thematic_break"})
        if out and out[-1]["t"] == "block_quote" == x["t"]:
            pass
        if "c" in x and x["t"] in ("block_quote", "item", "list"):
            x = dict(x, c=sanitize(x["c"]))
        out.append(x)
    return out


def strip(d):
    """Leave out what the spelling decides."""
    out = {k: v for k, v in d.items() if k not in ("c", "fenced", "pos") and not (k == "mark" and not d["ordered"])}
    if out.get("mark", 0) is None:
        del out["mark"]
    if "dest" in out:
        out["dest"] = None
    if "c" in d:
        out["c"] = [strip(y) for y in d["c"]]
    return out


def dests(d):
    import urllib.parse
    return [urllib.parse.unquote(x["dest"]) for x in canon.walk(d) if "dest" in x]


def ok_inline(xs, only, oneline):
    if not xs or xs[0]["t"] not in ("text", "lead") or xs[-1]["t"] != "text" or len(xs) % 2 == 0:
        return False
    for i, x in enumerate(xs):
        t = x["t"]
        if i % 2:
            if t not in ("gap", "softbreak", "linebreak") or oneline and t != "gap":
                return False
        elif t == "text":
            if not x["s"] or any(y not in WORDS for y in x["s"].split(" ")):
                return False
        elif t == "lead":
            if x["s"] not in LEADS or xs[i + 1]["t"] != "gap" or xs[i + 2]["t"] != "text":
                return False
        elif t in ("gap", "softbreak", "linebreak") or t in only or t == "auto" and "link" in only:
            return False
        elif t in ("softbreak", "linebreak"):
            return False
        elif xs[i - 1]["t"] != "gap":
            return False                                # every line begins with a word
        elif t in ("emph", "strong", "link", "image"):
            if not ok_inline(x["c"], only + ((t,) if t != "image" else ()), oneline) or t in ("link", "image") and not (x["dest"] in DESTS and (x["title"] or None) in TITLES):
                return False
        elif t == "sign" and x["s"] not in list(SIGNS) or t == "code" and x["s"] not in CODES or t == "html_inline" and x["s"] not in RAWS or t == "auto" and (x["s"], x["dest"]) not in AUTO:
            return False
        elif t not in ("sign", "code", "html_inline", "auto"):
            return False
    return True


def ok(xs):
    """Is this a tree the writer is made for? (Cases are also made smaller by cutting.)"""
    if not xs:
        return False
    for x in xs:
        t = x["t"]
        if t in ("paragraph", "heading"):
            good = ok_inline(x["c"], (), t == "heading" and x["level"] > 2)
        elif t == "code_block":
            good = x["info"] in INFOS and all(y in LINES for y in x["lines"])
        elif t == "html_block":
            good = x["lines"] in HTMLS
        elif t == "block_quote":
            good = ok(x["c"])
        elif t == "list":
            good = bool(x["c"]) and x["mark"] in ((".", ")") if x["ordered"] else (None,))
            n = [len(y.get("c", ())) for y in x["c"]]
            if x["tight"]:
                good = good and all(k in (1, 2) for k in n) and not any(z["t"] == "heading" and several(z) for y in x["c"] for z in y["c"]) and all(len(y["c"]) == 1 or y["c"][0]["t"] == "paragraph" != y["c"][1]["t"] and y["c"][1].get("start_no") in (None, 1) for y in x["c"])
            else:
                good = good and (len(n) > 1 or n[0] > 1)
            good = good and all(y["t"] == "item" and ok(y["c"]) for y in x["c"])
        else:
            good = t == "thematic_break"
        if not good:
            return False
    return True


def check(case, c):
    import random
    if not ok(case["tree"]):
        c.skip("not a tree to write")
    xs = sanitize(case["tree"])
    want = canonical({"t": "document", "c": xs})
    c.trivial = len(xs) < 2
    for w in case["spell"]:
        r = random.Random(w)
        s = Writer(r, c).document(xs)
        c.count("writings")
        got = canon.canon(sut.parse(s))
        d = canon.first_diff(strip(got), strip(want))
        if d:
            return "written as %r, the tree is another: observed vs expected at %s" % (s, d)
        if dests(got) != dests(want):
            return "written as %r, destinations are %r, expected %r" % (s, dests(got), dests(want))


def gens(c):
    def one(r):
        return {"tree": blocks(r, r.choice([1, 2, 2, 3])), "spell": [r.randrange(1 << 30), r.randrange(1 << 30)]}
    return [(1, "tree", one)]
