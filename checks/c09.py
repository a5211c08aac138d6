import itertools

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C09"
TECHNIQUE = "reference-model monitor on code spans, autolinks, raw HTML and breaks over enumerated near-miss strings and generated texts"
QUICK = (8000, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Inline texts of backticks, angle-bracket constructs, spaces, backslashes and newlines: generated, and every string over the syntax characters of each construct up to a length. "
        "The sequence of constructs and text is compared with the model's, emphasis dissolved. Non-trivial: at least one of ` < newline backslash.")
REQUIRE = {"code": 10000, "html_inline": 10000, "link": 3000, "linebreak": 5000, "softbreak": 10000, "paragraphs compared": 60000, "left as text": 10000}
ASSUMPTIONS = ["lib/refmodel.py states the grammar of the constructs (CommonMark 0.29)"]
EXHAUSTIVE_NOTE = ("'<a' + strings over ' \\n a=\"'/>`' up to 5 (6); '<!--' + strings over '->a!' up to 7 (8); '<' + strings over 'a:@.-+!?[>/ ' up to 4 (5); strings over '`a \\n' up to 8 (9); "
                   "'a' + strings over ' \\n\\\\\\ta' up to 6 (7)")


def enumerate_(c):
    th = c.thorough
    fam = [("x<a", " \na=\"'/>`", range(1, 7 if th else 6), ""), ("x<!--", "->a!", range(1, 9 if th else 8), ""), ("x<!--", "-> \n", range(1, 7), "-->"), ("x<", "a:@.-+!?[>/ ", range(1, 6 if th else 5), ">"),
           ("x", "`a \n", range(1, 10 if th else 9), ""), ("a", " \n\\\ta", range(1, 8 if th else 7), "b"), ("x</", "a1- >\n/", range(1, 6), ""), ("x<?", "?>a\n", range(1, 7), ""),
           ("x<!", "AZa >\n[-", range(1, 5), ">"), ("x<![CDATA[", "]>a\n", range(1, 7), ""), ("x<a b", "=c'\" >", range(1, 6), ">"), ("x<a@b", "-.c_@9", range(1, 6), ">")]
    for pre, al, lens, post in fam:
        batch = []
        for n in lens:
            for t in itertools.product(al, repeat=n):
                s = pre + "".join(t) + post
                if "\n\n" in s or "\n \n" in s or "\n  \n" in s or "\n\t" in s:
                    continue
                batch.append(s)
                if len(batch) == 16:
                    yield {"t": batch}
                    batch = []
        if batch:
            yield {"t": batch}
    for n in (0, 1, 2, 30, 31, 32, 33, 34):
        for ch in ("a", "1", "+", "-", ".", "_", "é", "ſ", "\u212a"):
            yield {"t": ["<a" + ch * n + ":x>", "<" + ch * n + ":x>", "<x@" + ch * n + ".b>", "<x@a" + ch * (n + 29) + "a.b>", "<" + ch * n + "@b>"]}
    for i in itertools.chain(range(1, 0x250), [0x2028, 0x2029, 0x3000, 0x1680, 0x2003, 0x200b, 0xfeff, 0x1f600, 0x661, 0xff41]):
        ch = chr(i)
        if ch in "\n\r":
            continue
        yield {"t": [t % ch for t in ("<a%sb>", "<a %sb>", "<a b%s=c>", "<a b=%sc>", "<a b=c%s>", "</a%s>", "<a/%s>", "<%sa>", "<a%s>", "<ab:%s>", "<ab%s:x>", "<x%s@y.z>", "<x@y%s.z>", "<x@y.z%s>", "<!A%sb>", "<!%s b>",
                                     "<!--%s-->", "<?%s?>", "`%s`", "` %s `", "a%s\nb", "a  %s\nb", "a\\%s\nb", "a\n%sb", "<a b='%s'>", "<a b=\"%s\">", "<![CDATA[%s]]>")]}


TOK = ["`", "``", "```", "<", ">", "a", "b", " ", "  ", "\n", "\\", "\\\n", "  \n", "   \n", " \n", "\t\n", "<a", "<a>", "</a>", "<a ", "b='", "'", "\"", "=", "/>", "<!--", "-->", "--", "-", "<?", "?>", "<!", "<!A ",
       "<![CDATA[", "]]>", "<http://", "<a@b", ".c>", "x:y>", "é", "*", "_", "&lt;", "\\`", "\\<", "!", "\u00a0", "<mailto:", "`` `", "<br />", "[", "]", "](/u)", "<!-->", "<!--->", "<a\n", "\\\\"]


def soup(r):
    return "x" * r.randint(0, 1) + "".join(r.choice(TOK) for _ in range(r.randint(2, 14)))


def wild(r):
    return "".join(r.choice(G.TAGS + G.AUTO + ["`", "``", "a", " ", "\n", "  \n", "\\\n", "*", "_"]) for _ in range(r.randint(1, 7)))


def near(r):
    s = r.choice(G.TAGS + G.AUTO + ["``a`b``", "` `` `", "a  \nb", "a\\\nb"])
    return "x " + G.mutate(r, s, ["<", ">", "'", "\"", "=", " ", "\n", "-", "!", "?", "/", ":", "@", ".", "`", "\\", "]", "[", "a", "1", "é", "_", "\t"]) + r.choice(["", " y", ">", "`", "-->", "\nz"])


def long_(r):
    n = r.choice([3, 10, 31, 32, 63, 64, 100])
    k = r.random()
    if k < .3:
        return " ".join("`" * r.choice([1, 2, 3, n]) + r.choice(["a", " ", "b c"]) for _ in range(r.randint(2, 12)))
    if k < .5:
        return "x <a" + "".join(" " + "b" * r.choice([1, n]) + r.choice(["", "=c", "='d'", "=\"e\n\"", " = f"]) for _ in range(r.randint(1, 8))) + r.choice([">", "/>", " >", ""])
    if k < .7:
        return "x <" + "".join(r.choice("abc019+.-") for _ in range(n)) + ":" + "y" * r.choice([0, n]) + ">"
    if k < .85:
        return "<" + "a" * r.choice([1, n]) + "@" + ".".join("b" * r.choice([1, 62, 63, 64]) for _ in range(r.randint(1, 4))) + ">"
    return "x" + r.choice([" ", "\\", "  "]) * r.choice([1, 2, 3, n]) + "\n" + " " * r.choice([0, 1, 3, 4, n]) + "y" + " " * r.choice([0, 2])


def BIG(text):
    return text


def gens(c):
    return [(4, "soup", soup), (2, "wild", wild), (3, "near", near), (1, "long", long_), (1, "inline_soup", G.inline_soup), (.5, "spec", G.spec_mutant), (.5, "any", lambda r: G.any_doc(r, sut.REPO)),
            (.3, "mined", lambda r: G.mined_doc(r, sut.REPO)), (.5, "document", G.document)]


def check(case, c):
    text = "\n\n".join(x if x[:1] != "<" else "z" + x for x in case["t"]) if isinstance(case, dict) else case
    if not any(x in text for x in "`<\n\\"):
        c.trivial = True
        return
    a, b = sut.tree(text), M.parse(text)
    pa, pb = proj.paragraphs(a), proj.paragraphs(b)
    if len(pa) != len(pb):
        c.skip("blocks differ")
    for x, y in zip(pa, pb):
        fa, fb = flat(x), flat(y)
        for k in fa:
            c.count(k["t"] if k["t"] != "text" else "left as text" if any(ch in k["s"] for ch in "`<\\") else "text")
        if fa == fb:
            c.count("paragraphs compared")
            continue
        if [k for k in fa if k["t"] != "text"] == [k for k in fb if k["t"] != "text"] and near_text(fa) == near_text(fb):
            c.count("paragraphs with other differences")
            continue
        if brackets_differ(x, y) and not mine(fa, fb):
            c.count("paragraphs with other differences")
            continue
        return "observed vs expected at " + str(proj.listdiff(fa, fb))


def flat(d):
    """Constructs in order; emphasis, bracketed links and images dissolved, autolinks kept."""
    out = []
    for x in d.get("c", ()):
        t = x["t"]
        if t == "text":
            s = "".join(ch for ch in x["s"] if ch not in "*_[]!")
            out.append({"t": "text", "s": s})
        elif t == "link":
            kid = x["c"][0].get("s") if len(x["c"]) == 1 and x["c"][0]["t"] == "text" else None
            u = M.canon_uri(x["dest"])
            if kid is not None and not x["title"] and u in (M.canon_uri(M.norm_uri(kid)), M.canon_uri("mailto:" + M.norm_uri(kid))):
                out.append({"t": "link", "s": kid, "dest": proj.decode_dest(x["dest"])})
            else:
                out += flat(x)
        elif "c" in x:
            out += flat(x)
        else:
            out.append({k: v for k, v in x.items()})
    return proj.merge_text(out)


def near_text(f):
    return [k["s"] for k in f if k["t"] == "text" and any(ch in k["s"] for ch in "`<>\\")]


def brackets_differ(x, y):
    def br(d):
        return [(k["t"], k["dest"], k["title"]) for k in canon.walk(d) if k["t"] in ("link", "image")]
    return br(proj.loose_dest(x)) != br(proj.loose_dest(y))


def mine(fa, fb):
    return [k for k in fa if k["t"] != "text"] != [k for k in fb if k["t"] != "text"]
