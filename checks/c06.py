import itertools

import canon
import gen as G
import proj
import refmodel as M
import sut

canon_uri = M.canon_uri
ID = "C06"
TECHNIQUE = "reference-model monitor on link and image nodes over enumerated and generated bracket texts"
QUICK = (8000, 40)
THOROUGH = (500000, 1200)
guided = True
RULE = ("Inline texts with brackets, destinations, titles and reference definitions: generated ones, and every continuation of '[a](' and of '[a]' by up to 5 (thorough 6) characters "
        "of the link syntax. Link and image nodes with destination, title and content, and the text around them, are compared with an independent model; emphasis is dissolved first. "
        "Non-trivial: the text has a bracket pair.")
REQUIRE = {"link": 10000, "image": 5000, "paragraphs compared": 50000, "links with title": 2000, "failed attempts": 5000}
ASSUMPTIONS = ["lib/refmodel.py states the link rules of CommonMark 0.29", "only differences in links, images and the text they leave behind are judged; emphasis is C05's"]
EXHAUSTIVE_NOTE = "'[a](' + all strings over 'u()<>\"\\' \\n\\'[]' up to length 5 (6), '[f]' + all strings over '[]()f!:\\\\ ' up to length 6 (7) with [f] defined"


def enumerate_(c):
    for n in range(0, 7 if c.thorough else 6):
        batch = []
        for t in itertools.product("u()<>\"\\ \n", repeat=n):
            batch.append("[a](" + "".join(t) + ")" if n % 2 else "![a](" + "".join(t))
            if len(batch) == 8:
                yield {"t": batch}
                batch = []
        yield {"t": batch}
    for n in range(1, 8 if c.thorough else 6):
        batch = []
        for t in itertools.product("[]()f!\\ ", repeat=n):
            batch.append("x[f]" + "".join(t))
            if len(batch) == 8:
                yield {"t": batch, "d": 1}
                batch = []
        yield {"t": batch, "d": 1}
    for q in "\"'(":
        for n in range(0, 6 if c.thorough else 5):
            batch = []
            for t in itertools.product("a\"'()\\\n& ", repeat=n):
                batch.append("[a](u " + q + "".join(t) + (")" if q == "(" else q) + ")")
                if len(batch) == 8:
                    yield {"t": batch}
                    batch = []
            yield {"t": batch}


def brackets(r):
    """Bracket structures with known labels."""
    out = []
    d = "\n\n".join("[%s]: /%s%s" % (x, x, r.choice(["", " 't'", " \"*t*\""])) for x in r.sample(["foo", "bar", "f", "a", "a b", "*a*", "`a`", "!", "1"], r.randint(0, 4)))
    for _ in range(r.randint(2, 18)):
        out.append(r.choice(["[", "[", "]", "]", "![", "](/u)", "](/u \"t\")", "](<a b>)", "[foo]", "[bar][]", "[f][foo]", "[a b]", "][foo]", "][]", "](", ")", "(", " ", "\n", "a", "f", "foo",
                             "*", "**", "_", "`", "\\[", "\\]", "\\", "<http://x]>", "<a b=\"]\">", "`]`", "!", "[1]", "]()", "](<>)", "][x]", "](/u 't' )", "]( /u )", "](\"t\")", "](/u \"t)", "'", "\"",
                             "](a(b)c)", "](a(b)", "](a\\)b)", "&#93;", "&lsqb;", "](/u\n'x'\n)", "](/u'x')", "](/u\u00a0'x')", "]:", "]: /u"]))
    s = "".join(out)
    return r.choice([d + "\n\n" + s, s + "\n\n" + d])


def deep(r):
    n = r.choice([5, 10, 20, 40, 60, 100])
    k = r.random()
    if k < .25:
        return "[" * n + "a" + "](/u)" * r.randint(0, n)
    if k < .5:
        return "![" * n + "a" + "".join(r.choice(["](/u)", "]", "][f]"]) for _ in range(n)) + "\n\n[f]: /f"
    if k < .7:
        return "[a](" + "(" * n + "b" + ")" * (n + r.choice([-1, 0, 1])) + r.choice([")", ""])
    if k < .85:
        return "[" + "a" * r.choice([997, 998, 999, 1000, 1001]) + "]" + r.choice(["[f]", "", "[]", "(/u)"]) + "\n\n[f]: /f\n\n[" + "a" * r.choice([998, 999]) + "]: /l"
    return "".join(r.choice(["[a](/u) ", "[a ", "] ", "![b](/i) ", "[f] ", "[", "]"]) for _ in range(n)) + "\n\n[f]: /f"


def BIG(text):
    return text


def gens(c):
    return [(3, "link_doc", G.link_doc), (3, "brackets", brackets), (1.5, "link", lambda r: G.link(r) + G.word(r) + G.link(r)), (.3, "deep", deep),
            (1, "inline_soup", G.inline_soup), (.6, "spec", G.spec_mutant), (.5, "any", lambda r: G.any_doc(r, sut.REPO)),
            (.3, "mined", lambda r: G.mined_doc(r, sut.REPO)), (.5, "document", G.document)]


def texts(case):
    if isinstance(case, dict):
        return "\n\n".join(["z " + x.replace("\n\n", "\n") for x in case["t"]] + (["[f]: /f 't'"] if case.get("d") else []))
    return case


def check(case, c):
    text = texts(case)
    if "[" not in text or "]" not in text:
        c.trivial = True
        return
    a, b = sut.tree(text), M.parse(text)
    pa, pb = proj.paragraphs(a), proj.paragraphs(b)
    if len(pa) != len(pb):
        c.skip("blocks differ")
    for x, y in zip(pa, pb):
        nl = 0
        for k in canon.walk(x):
            if k["t"] in ("link", "image"):
                nl += 1
                c.count(k["t"])
                if k["title"]:
                    c.count("links with title")
        if not nl and "]" in proj.flat_text(x):
            c.count("failed attempts")
        c.count("paragraphs compared")
        m = nested_link(x)
        if m:
            return "link inside a link: " + m
        x, y = proj.loose_dest(proj.no_emph(x)), proj.loose_dest(proj.no_emph(y))
        if x == y:
            continue
        if only_constructs(x) != only_constructs(y) and tight(x) == tight(y):
            c.count("paragraphs with other differences")
            continue
        return "links differ: observed vs expected at " + str(canon.first_diff(x, y))


def nested_link(x, inside=None):
    for k in x.get("c", ()):
        if k["t"] == "link":
            kid = k["c"][0].get("s") if len(k["c"]) == 1 and k["c"][0]["t"] == "text" else None
            auto = kid is not None and canon_uri(k["dest"]) in (canon_uri(M.norm_uri(kid)), canon_uri("mailto:" + M.norm_uri(kid)))
            if inside and not auto:
                return canon.short(inside)
            m = nested_link(k, k)
        else:
            m = nested_link(k, inside)
        if m:
            return m


def only_constructs(x):
    """Constructs that bind tighter than links."""
    return [(k["t"], k["s"]) for k in canon.walk(x) if k["t"] in ("code", "html_inline")]


def tight(x):
    """Links and images with content, text dropped."""
    return [(k["t"], k["dest"], k["title"]) for k in canon.walk(x) if k["t"] in ("link", "image")]
