import itertools

import canon
import gen as G
import proj
import refmodel as M
import sut

ID = "C02"
TECHNIQUE = "reference-model monitor over generated, enumerated and coverage-kept documents"
QUICK = (6000, 35)
THOROUGH = (400000, 900)
guided = True
RULE = ("Documents from nine generators plus every document of up to three lines over a fixed set of line forms; the tree's block "
        "nodes are compared with those an independent model of CommonMark 0.29 assigns. Non-trivial: at least two block nodes "
        "besides the document, or a container.")
REQUIRE = {"blocks compared": 20000, "block_quote": 1000, "list": 1000, "heading": 500, "code_block": 500, "html_block": 500,
           "thematic_break": 500, "lines attributed": 5000}
ASSUMPTIONS = ["lib/refmodel.py states the block rules of CommonMark 0.29 (it agrees with all 649 examples of spec.txt)"]

LINES = ["", "a", "b", "> a", ">", ">> b", "- a", "-", "  b", "   - c", "1. a", "2. a", "    a", "     b", "\ta", "# h", "#", "===", "---",
         "***", "```", "~~~", "``` i", "   ```", "<div>", "<b>", "<!-- c", "-->", "[r]: /u", "* * *", "+", "1)", "> ```", "- ```", "- > a",
         "> - a", "  ", ">     a", "-     a", "- # h"]
LINES4 = ["", "a", "> a", ">", "- a", "-", "  b", "1. a", "    a", "# h", "---", "===", "```", "<div>", "<!-- c", "[r]: /u", "- ```", "> - a",
          "   b", " - c"]
# every line over these characters, in these documents (%s is the line)
ALPHA = [("# \ta\\", 5, ["%s", "a\n%s"]), ("`~ \ta", 5, ["%s\nb\n```\nc", "```\n%s\nc"]), ("*-_ \ta", 5, ["%s", "a\n%s"]), ("=- \ta", 5, ["a\n%s", "- a\n%s"]),
         ("10 .)\ta", 5, ["%s", "a\n%s"]), ("<!?a>/- ", 4, ["%s\n*b*\n\nc", "a\n%s"]), ("> \t-a\n", 6, ["%s"]), ("[]:a \n", 6, ["%s"])]
TAGS6 = ("address article aside base basefont blockquote body caption center col colgroup dd details dialog dir div dl dt fieldset figcaption figure footer form frame "
         "frameset h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem nav noframes ol optgroup option p param section source summary table "
         "tbody td tfoot th thead title tr track ul").split()
TAGS = TAGS6 + ["script", "pre", "style", "a", "b", "del", "h0", "h7", "textarea", "search", "divx", "pres", "x-y", "scriptx", "styles", "o1", "main-x", "meta", "template", "ſcript", "li\u212an", "optiongroup"]
TAGLINES = ["<%s>", "<%s> x", "<%s", "</%s> x", "</%s>", "<%s/>", "<%s/> x", "<%s/ x", "<%s\tx", "<%s x>", "<%s x> y", "<%sx> y", "   <%s>x", "<%s>x</%s>", "</%s", "</%s x", "< %s> x", "<%s\x0cx", "<%s\xa0x", "<%s\n"]
NUMBERS = ["0", "1", "2", "00", "01", "001", "02", "10", "11", "000000001", "0000000001", "123456789", "1234567890", "999999999", "\u0661", "\xb9", "1a", "-1", "1_0"]


def tags_and_numbers():
    for t in TAGS:
        for ln in TAGLINES:
            x = ln.replace("%s", t)
            for d in ("%s\n*b*\n\n*c*", "a\n%s\n*b*", "- %s\n  *b*"):
                yield d % x
            yield "a\n" + x.upper()
    ends = ["</script>", "</pre>", "</style>", "-->", "?>", ">", "]]>", "</SCRIPT>", "</ pre>", "</pre >", "--", "]>", "</div>", "-- >", "]] >"]
    for o in ["<script>", "<pre>", "<style x", "<!-- a", "<!--", "<?", "<?a", "<!A", "<!a", "<![CDATA[", "<![cdata[", "<!-->", "<!>", "<?>", "<![CDATA[]]", "<!-", "<!", "<!\xc0", "<div>", "<i>"]:
        for e in ends:
            for d in ("%s\n\n*a* %s *b*\n*c*", "%s%s\n*c*", "a\n%s\n\n%s\n*c*", "> %s\n> %s\n> *c*\n*d*", "- %s\n\n  %s\n  *c*\n\n*d*"):
                yield d % (o, e)
    for n in NUMBERS:
        for a in (". b", ") b", ".", ") ", ".\tb", ".b", ".     b", " . b", ".  b"):
            for d in ("%s", "a\n%s", "1. a\n%s", "2) a\n%s", "> a\n%s", "- a\n%s", "- a\n  %s", "    %s", "a\n\n%s\n   c", "%s\n\n      c"):
                yield d % (n + a)


EXHAUSTIVE_NOTE = ("quick: every document of 1-3 lines over %d line forms, every line of up to 4-6 characters over %d alphabets in given surroundings, every HTML block tag name and end condition and a list of item numbers in several; "
                   "thorough: also documents of 4 lines over %d forms and lines one character longer" % (len(LINES), len(ALPHA), len(LINES4)))


def enumerate_(c):
    for x in tags_and_numbers():
        yield x
    for alpha, n, docs in ALPHA:
        for k in range(1, n + 1 + c.thorough):
            for t in itertools.product(alpha, repeat=k):
                for d in docs:
                    yield d.replace("%s", "".join(t))
    for n in (1, 2):
        for t in itertools.product(LINES, repeat=n):
            yield "\n".join(t)
    for t in itertools.product(LINES, repeat=3):
        yield "\n".join(t)
    if c.thorough:
        for t in itertools.product(LINES4, repeat=4):
            yield "\n".join(t)


def inert_soup(r):
    """Block soup whose text has no inline markup, so that every line can be followed to its block."""
    n = r.randint(2, 9)
    out = []
    k = [0]

    def w():
        k[0] += 1
        return "w%d" % k[0]
    for _ in range(n):
        z = r.random()
        if z < .18:
            out.append(r.choice(["", "", " ", "  ", "\t", "    "]))
            continue
        s = ""
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            s += r.choice(G.INDENTS) + (">" + r.choice(["", " ", " ", "\t"]) if r.random() < .45 else r.choice(G.BULLETS) + r.choice(G.AFTER))
        s += r.choice(G.INDENTS)
        z = r.random()
        if z < .3:
            s += r.choice(["# " + w(), "===", "---", "***", "```", "~~~", "````", "``` " + w(), "<div>" + w(), "<!-- " + w(), w() + " -->", "## " + w() + " ##",
                           "<" + w() + ">", "</pre>" + w(), "<script>" + w(), "[" + w() + "]: /" + w(), "- - " + w(), "= " + w(), "#" + w(), "-" + w(),
                           "1." + w(), "`" + w(), "[" + w(), "```" + w() + "`", "<h2>" + w()])
        else:
            s += w() + (" " + w() if r.random() < .3 else "")
        out.append(s)
    return "\n".join(out) + r.choice(["", "\n"])


def deep(r):
    """Deeply nested containers."""
    n = r.randint(3, 25)
    s = "".join(r.choice(["> ", "- ", "1. ", ">", "* ", "+  "]) for _ in range(n))
    ls = [s + "a"]
    for _ in range(r.randint(1, 4)):
        k = r.randint(0, len(s))
        ls.append((s[:k] if r.random() < .5 else "".join(x if x == ">" else " " for x in s[:k])) + r.choice(["b", "", "- c", "> d", "    e", "```", "# f"]))
    return "\n".join(ls)


def BIG(text):
    return text


def gens(c):
    return [(3, "block_soup", G.block_soup), (3, "inert_soup", inert_soup), (2, "document", G.document), (2, "spec_mutant", G.spec_mutant),
            (1, "any", lambda r: G.any_doc(r, sut.REPO)), (.5, "deep", deep), (.5, "mined", lambda r: G.mined_doc(r, sut.REPO)),
            (1, "long_document", lambda r: "\n".join("\n".join(G.blocks(r)) + "\n" * r.randint(0, 2) for _ in range(r.randint(2, 8)))),
            (1, "wrapped", lambda r: G.wrap(r, G.block_soup(r)))]


def check(text, c):
    a = sut.tree(text)
    b = M.parse(text)
    n = proj.count_blocks(a, c)
    if n < 2:
        c.trivial = True
    d = canon.first_diff(proj.skeleton(a), proj.skeleton(b))
    if d:
        return "block structure differs from the specification's: observed vs expected at " + d
    c.count("blocks compared", n)
    if proj.inert(b):
        # no inline markup: each line's text can be located
        d = canon.first_diff(proj.squeeze(a), proj.squeeze(b))
        if d:
            return "a line belongs to another block: observed vs expected at " + d
        c.count("lines attributed", text.count("\n") + 1)
