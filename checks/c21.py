import json
import re

import gen as G
import sut
from c15 import STICKY, full

ID = "C21"
TECHNIQUE = "isomorphism monitor between the tree and the parsed JSON, sequence monitor on the printed AST, before/after snapshots of the tree"
QUICK = (2500, 45)
THOROUGH = (300000, 1200)
guided = True
RULE = ("Documents rich in links, titles, info strings, lists, code, HTML and unusual characters. The JSON is parsed back and compared node by node with the tree; the printed AST must show every node in document order with its values; "
        "the whole state of every node is compared before and after dumping. Non-trivial: at least 4 nodes.")
REQUIRE = {"JSON nodes": 300000, "printed nodes": 200000, "documents": 10000, "fields": 100000, "list data": 10000, "titles": 1000, "destinations": 3000, "infos": 500, "subtrees": 10000, "snapshots": 10000, "unusual characters": 2000, "edited trees": 1500}
ASSUMPTIONS = ["an empty or missing field may be left out", "two lone surrogates next to each other are one character in JSON"]


def rich(r):
    parts = []
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .3:
            parts.append(G.link_doc(r))
        elif k < .5:
            parts.append(r.choice(["```", "~~~"]) + r.choice(["", "py", " a b", "é\\*", "&amp;"]) + "\n" + r.choice(["x", "", "\tq\"\\", "\u2028", "</script>", "\\n", "{\"a\": [1]}"]) + "\n" + "```")
        elif k < .7:
            parts += G.a_list(r, 2)
        elif k < .8:
            parts.append(r.choice(STICKY))
        elif k < .9:
            parts.append("".join(r.choice(["\"", "\\", "/", "\t", "\x0b", "\x01", "\x7f", "\u2028", "\u2029", "é", "😀", "\ud800", "\udc00", "\0", "{", "}", "[", "]", ":", ",", "'", "a", "\uffff", "\ufeff", "<", "&", "\\u0041", "&quot;"]) for _ in range(8)))
        else:
            parts.append(r.choice(["<div title=\"x\">\n\\\"</div>", "![a\"b](c 'd\\e')", "*a `\"`*", "# \"h\" #"]))
    return r.choice(["\n\n", "\n"]).join(parts)


def BIG(text):
    return text


def gens(c):
    return [(4, "rich", rich), (1, "document", G.document), (1, "any", lambda r: G.any_doc(r, sut.REPO)), (.5, "spec", G.spec_mutant), (.4, "unicode", G.rand_unicode),
            (.1, "deep", lambda r: (r.choice(["> ", "- ", "* > "]) * r.choice([10, 60, 150])) + "a" + r.choice(["", "\nb\n\nc"]))]


def norm(s):
    return s.encode("utf-16", "surrogatepass").decode("utf-16", "surrogatepass") if isinstance(s, str) else s


FIELDS = ["literal", "string_content", "title", "info", "destination"]


def full_fields(d):
    """What is None may be left out."""
    return {k: v for k, v in (d or {}).items() if v is not None}


def kids(n):
    out = []
    k = n.first_child
    while k is not None:
        out.append(k)
        k = k.nxt
    return out


def compare(root, data, c):
    if not isinstance(data, list) or len(data) != 1:
        return "the JSON is not a list of one node"
    st = [(root, data[0])]
    while st:
        n, d = st.pop()
        c.count("JSON nodes")
        if not isinstance(d, dict) or d.get("type") != n.t:
            return "JSON has %s where the tree has %s" % (d.get("type") if isinstance(d, dict) else d, n.t)
        for f in FIELDS:
            v = getattr(n, f)
            if (v or None) != d.get(f) and norm(v or None) != norm(d.get(f) or None):
                return "JSON %s of %s is %r, the node's %r" % (f, n.t, d.get(f), v)
            if v:
                c.count("fields")
                if f == "title":
                    c.count("titles")
                elif f == "info":
                    c.count("infos")
                elif f == "destination":
                    c.count("destinations")
        if full_fields(n.list_data) != full_fields(d.get("list_data")):
            return "JSON list data of %s is %r, the node's %r" % (n.t, d.get("list_data"), n.list_data)
        if n.list_data:
            c.count("list data")
        ks, ds = kids(n), d.get("children") or []
        if len(ks) != len(ds):
            return "JSON has %d children for a %s of %d" % (len(ds), n.t, len(ks))
        st.extend(zip(ks, ds))


LABEL = {"literal": "Literal: ", "string_content": "String content: ", "title": "Title: ", "info": "Info: ", "destination": "Destination: "}
HEAD = re.compile(r"^(\t*)(?:-> )?\[(\w+)\]$", re.M)


def printed(root, out, c):
    heads = list(HEAD.finditer(out))
    entries = [(m.group(2), out[m.end():heads[i + 1].start() if i + 1 < len(heads) else len(out)]) for i, m in enumerate(heads)]
    order = []
    st = [root]
    while st:
        n = st.pop()
        order.append(n)
        st.extend(reversed(kids(n)))
    i = 0
    for n in order:
        vals = [(f, LABEL[f] + getattr(n, f)) for f in FIELDS if getattr(n, f)]
        if n.sourcepos:
            vals.append(("sourcepos", "Sourcepos: " + str(n.sourcepos)))
        for k in ("type", "bullet_char", "start", "delimiter", "padding", "marker_offset"):
            if n.list_data.get(k) or k == "start" and n.list_data.get(k) == 0:
                vals.append(("list " + k, "[%s] = %s" % (k, n.list_data[k])))
        first = None
        while i < len(entries):
            t, body = entries[i]
            i += 1
            if t == n.t:
                miss = [(f, v) for f, v in vals if v not in body]
                if not miss:
                    # nothing it does not have
                    rest = body
                    for f, v in vals:
                        rest = rest.replace(v, "")
                    for f in FIELDS:
                        m = re.search(r"\t(?:-> )?" + LABEL[f] + "(.*)", rest)
                        if m and m.group(1) and not getattr(n, f):
                            miss.append((f, "(none)"))
                if not miss:
                    break
                first = first or (miss, body)
        else:
            if first:
                return "printed AST: %s is shown without its %s %r: %r" % (n.t, first[0][0][0], first[0][0][1], first[1][:300])
            return "printed AST: no %s in its place" % n.t
        c.count("printed nodes")


def check(text, c):
    text = text.replace("\r", "\n")
    n = len(text)
    doc = sut.Parser({"smart": True} if n % 4 == 0 else None).parse(text)
    if n % 6 == 0:
        # trees that were edited, too
        c.count("edited trees")
        ks = kids(doc)
        if len(ks) > 1:
            doc.prepend_child(ks[-1])
        e = sut.Node("paragraph", None)
        x = sut.Node("text", [[1, 2], [3, 4]])
        x.literal = "by hand \"\\"
        e.append_child(x)
        doc.append_child(e)
        doc.append_child(sut.Node("custom_block", None))
    before = full(doc)
    c.trivial = before.count("\n") < 3
    j = sut.dumpJSON(doc)
    if full(doc) != before:
        return "dumpJSON changed the tree"
    try:
        data = json.loads(j)
    except ValueError as e:
        return "the JSON is not valid: %s" % e
    d = compare(doc, data, c)
    if d:
        return d
    out, _ = sut.printed(sut.dumpAST, doc)
    if full(doc) != before:
        return "dumpAST changed the tree"
    c.count("snapshots")
    c.count("documents")
    if re.search("[^\n -~]", text):
        c.count("unusual characters")
    if not HEAD.search("\n".join(before_values(doc))):
        d = printed(doc, out, c)
        if d:
            return d
    if n % 6 and sut.dumpJSON(doc) != j:
        return "a second dumpJSON differs"
    # a part of the tree
    sub = doc
    for step in range(n % 5):
        ks = kids(sub)
        if not ks:
            break
        sub = ks[(n // 7 + step) % len(ks)]
    d = compare(sub, json.loads(sut.dumpJSON(sub)), c)
    c.count("subtrees")
    if d:
        return "subtree: " + d
    if not n % 6 == 0 and n % 4 and n % 3 == 0:
        if sut.commonmark.commonmark(text, "json") != j:
            return "commonmark(text, 'json') differs from dumpJSON"


def before_values(doc):
    out = []
    st = [doc]
    while st:
        n = st.pop()
        out += [getattr(n, f) for f in FIELDS if getattr(n, f)]
        st.extend(kids(n))
    return out
