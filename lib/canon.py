"""Canonical form of the tree returned by the code under test (public Node fields only)."""
import re


def trim_html(s):
    return re.sub(r"(?:\n[ \t]*)+\Z", "", s or "")


def canon(root, pos=False):
    """Canonical dict tree of a Node, iteratively (deep trees are fine)."""
    top = one(root, pos)
    stack = [(root, top)]
    while stack:
        node, d = stack.pop()
        if "c" not in d:
            continue
        k = node.first_child
        n = 0
        while k is not None:
            n += 1
            if n > 2000000:
                raise RuntimeError("sibling chain does not end")
            e = one(k, pos)
            if e["t"] == "text":
                if not e["s"]:
                    k = k.nxt
                    continue
                if d["c"] and d["c"][-1]["t"] == "text":
                    d["c"][-1]["s"] += e["s"]
                    k = k.nxt
                    continue
            d["c"].append(e)
            if "c" in e:
                stack.append((k, e))
            k = k.nxt
    return top


LEAF = {"text", "code", "html_inline", "softbreak", "linebreak", "code_block", "html_block", "thematic_break"}


def one(n, pos):
    t = n.t
    d = {"t": t}
    if pos and n.sourcepos:
        d["pos"] = [list(n.sourcepos[0]), list(n.sourcepos[1])]
    if t in ("text", "code", "html_inline"):
        d["s"] = n.literal
    elif t == "code_block":
        d["s"] = n.literal
        d["info"] = n.info or ""
        d["fenced"] = bool(n.is_fenced)
    elif t == "html_block":
        d["s"] = trim_html(n.literal)
    elif t in ("link", "image"):
        d["dest"] = n.destination
        d["title"] = n.title or ""
    elif t == "heading":
        d["level"] = n.level
    elif t == "list":
        ld = n.list_data
        d["ordered"] = ld.get("type") == "ordered"
        d["mark"] = ld.get("bullet_char") if not d["ordered"] else ld.get("delimiter")
        d["start_no"] = ld.get("start") if d["ordered"] else None
        d["tight"] = bool(ld.get("tight"))
    if t not in LEAF:
        d["c"] = []
    return d


def strip_pos(d):
    r = {k: v for k, v in d.items() if k not in ("pos", "start", "last", "c")}
    if "c" in d:
        r["c"] = [strip_pos(x) for x in d["c"]]
    return r


BLOCKS = {"document", "block_quote", "list", "item", "heading", "paragraph", "thematic_break", "code_block", "html_block"}


def blocks_only(d):
    """Block skeleton: inline children dropped."""
    r = {k: v for k, v in d.items() if k != "c"}
    if "c" in d:
        r["c"] = [blocks_only(x) for x in d["c"] if x["t"] in BLOCKS]
    return r


def map_dest(d, f):
    r = {k: v for k, v in d.items() if k != "c"}
    if "dest" in r:
        r["dest"] = f(r["dest"])
    if "c" in d:
        r["c"] = [map_dest(x, f) for x in d["c"]]
    return r


def first_diff(a, b, path=""):
    """Human-readable first difference of two canonical trees."""
    if a.get("t") != b.get("t"):
        return "%s: %s vs %s" % (path or "/", short(a), short(b))
    for k in sorted(set(a) | set(b)):
        if k != "c" and a.get(k) != b.get(k):
            return "%s/%s.%s: %r vs %r" % (path, a["t"], k, a.get(k), b.get(k))
    ca, cb = a.get("c", []), b.get("c", [])
    for i in range(max(len(ca), len(cb))):
        if i >= len(ca) or i >= len(cb):
            return "%s/%s child %d: %s vs %s" % (path, a["t"], i, short(ca[i]) if i < len(ca) else None,
                                                 short(cb[i]) if i < len(cb) else None)
        if ca[i] != cb[i]:
            return first_diff(ca[i], cb[i], "%s/%s[%d]" % (path, a["t"], i))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def walk(d):
    st = [d]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(x.get("c", ())))


def settle(a, b):
    """Where the model leaves a list's tightness open, take the one observed."""
    if a.get("t") == "list" and b.get("t") == "list" and b.get("tight", 0) is None:
        b["tight"] = a.get("tight")
    for x, y in zip(a.get("c", ()), b.get("c", ())):
        settle(x, y)
