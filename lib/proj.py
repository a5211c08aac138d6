"""Projections of canonical trees: what one property sees of a document."""
import re
from urllib.parse import unquote_to_bytes

import canon

BLOCKS = canon.BLOCKS


def count_blocks(d, c=None):
    n = 0
    for x in canon.walk(d):
        if x["t"] in BLOCKS:
            n += 1
            if c is not None:
                c.count(x["t"])
    return n - 1


def skeleton(d):
    """Block nodes with what the block rules decide about them, without list details and text."""
    t = d["t"]
    r = {"t": t}
    if t == "heading":
        r["level"] = d["level"]
    elif t == "code_block":
        r["fenced"] = d["fenced"]
        r["words"] = re.findall(r"\w+", d["s"])
    elif t == "html_block":
        r["words"] = re.findall(r"\w+", d["s"])
    if "c" in d:
        r["c"] = [skeleton(x) for x in d["c"] if x["t"] in BLOCKS]
    return r


def listy(d):
    """skeleton plus all list attributes."""
    r = skeleton_node(d)
    if d["t"] == "list":
        for k in ("ordered", "mark", "start_no", "tight"):
            r[k] = d[k]
    if "c" in d:
        r["c"] = [listy(x) for x in d["c"] if x["t"] in BLOCKS]
    return r


def skeleton_node(d):
    t = d["t"]
    r = {"t": t}
    if t == "heading":
        r["level"] = d["level"]
    elif t == "code_block":
        r["fenced"] = d["fenced"]
        r["words"] = re.findall(r"\w+", d["s"])
    elif t == "html_block":
        r["words"] = re.findall(r"\w+", d["s"])
    return r


PLAIN = {"text", "softbreak"}


def inert(d):
    """Only plain text in the document (by the model's tree)."""
    for x in canon.walk(d):
        if x["t"] in BLOCKS:
            continue
        if x["t"] not in PLAIN:
            return False
        if x["t"] == "text" and re.search(r"[*_&\\`<\[\]!]", x["s"]):
            return False
    return True


def squeeze(d):
    """skeleton with the words of every paragraph and heading, line by line."""
    r = skeleton_node(d)
    if "c" in d:
        if d["t"] in ("paragraph", "heading"):
            r["text"] = re.findall(r"\n|[^\s]+", flat_text(d))
        else:
            r["c"] = [squeeze(x) for x in d["c"]]
    return r


def flat_text(d):
    out = []
    for x in canon.walk(d):
        if x["t"] in ("text", "code", "html_inline"):
            out.append(x["s"])
        elif x["t"] in ("softbreak", "linebreak"):
            out.append("\n")
    return "".join(out)


# ------------------------------------------------------------------ inline projections
def paragraphs(d):
    """The blocks with inline content, in order."""
    return [x for x in canon.walk(d) if x["t"] in ("paragraph", "heading")]


def merge_text(nodes):
    out = []
    for x in nodes:
        if x["t"] == "text":
            if not x["s"]:
                continue
            if out and out[-1]["t"] == "text":
                out[-1] = {"t": "text", "s": out[-1]["s"] + x["s"]}
                continue
        out.append(x)
    return out


def no_emph(d, drop="*_"):
    """Inline content with emphasis wrappers dissolved and delimiter characters dropped from text."""
    kids = []
    for x in d.get("c", ()):
        if x["t"] in ("emph", "strong"):
            kids += no_emph(x, drop)["c"]
        elif x["t"] == "text":
            kids.append({"t": "text", "s": x["s"].translate({ord(ch): None for ch in drop})})
        elif "c" in x:
            kids.append(no_emph(x, drop))
        else:
            kids.append(x)
    r = {k: v for k, v in d.items() if k != "c"}
    r["c"] = merge_text(kids)
    return r


def decode_dest(u):
    return unquote_to_bytes(u.encode("utf-8", "surrogatepass")).decode("latin-1")


def loose_dest(d):
    return canon.map_dest(d, decode_dest)


def flatten(d):
    """Inline content of a block as a flat list: emphasis and links dissolved, text without delimiters and brackets."""
    out = []
    for x in d.get("c", ()):
        if x["t"] in ("emph", "strong", "image"):
            out += flatten(x)
        elif x["t"] == "text":
            out.append({"t": "text", "s": x["s"]})
        elif x["t"] == "link":
            out.append({"t": "link", "dest": decode_dest(x["dest"])})
            out += flatten(x)
            out.append({"t": "/link"})
        else:
            out.append({k: v for k, v in x.items()})
    return merge_text(out)


def listdiff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return "#%d: %s vs %s" % (i, canon.short(x), canon.short(y))
    return None


VERBATIM = {"code", "html_inline", "code_block", "html_block"}


def verbatim(d):
    return [x for x in canon.walk(d) if x["t"] in VERBATIM]


def skeleton_kinds(d):
    r = {"t": d["t"]}
    if "c" in d:
        r["c"] = [skeleton_kinds(x) for x in d["c"] if x["t"] in BLOCKS]
    return r


def no_emph_all(d):
    """no_emph applied to every block with inline content."""
    if d["t"] in ("paragraph", "heading"):
        return no_emph(d)
    r = {k: v for k, v in d.items() if k != "c"}
    if "c" in d:
        r["c"] = [no_emph_all(x) for x in d["c"]]
    return r
