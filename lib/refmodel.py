"""Reference model of CommonMark 0.29, written from spec.txt (not from the code
under test).  It is deliberately simple and slow: the block phase keeps a stack of
open blocks and a cursor over virtual columns, list tightness is decided from line
numbers, emphasis is resolved by a plain nearest-opener search with no search
bounds, links by a list of open brackets.

parse(text, smart=False) -> canonical tree: dicts with key 't' (type), 'c'
(children, containers only) and the attributes listed in ATTRS.
"""
import re
import unicodedata
from html.entities import html5

WS = " \t\n\x0b\x0c\r"              # spec: whitespace characters
ASCII_PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
REPL = "\ufffd"


def is_uws(c):
    return c in "\t\r\n\x0c" or unicodedata.category(c) == "Zs"


def is_punct(c):
    return c in ASCII_PUNCT or unicodedata.category(c)[0] == "P"


# ---------------------------------------------------------------- character references
_REF = re.compile(r"&(?:#[xX]([0-9a-fA-F]{1,6})|#([0-9]{1,7})|([A-Za-z][A-Za-z0-9]*));")


def charref(s, i):
    """(decoded, end) of a valid character reference at s[i], or None."""
    m = _REF.match(s, i)
    if not m:
        return None
    if m.group(3):
        v = html5.get(m.group(3) + ";")
        return (v, m.end()) if v is not None else None
    cp = int(m.group(1), 16) if m.group(1) else int(m.group(2))
    if cp == 0 or cp > 0x10FFFF or 0xD800 <= cp <= 0xDFFF:
        return REPL, m.end()
    return chr(cp), m.end()


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s) and s[i + 1] in ASCII_PUNCT:
            out.append(s[i + 1])
            i += 2
            continue
        if c == "&":
            r = charref(s, i)
            if r:
                out.append(r[0])
                i = r[1]
                continue
        out.append(c)
        i += 1
    return "".join(out)


_URI_SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~;/@:+?=&()%#*,!$'[]")


def norm_uri(u):
    out = []
    for ch in u:
        if ch in _URI_SAFE:
            out.append(ch)
        else:
            if 0xD800 <= ord(ch) <= 0xDFFF:
                ch = REPL
            out.extend("%%%02X" % b for b in ch.encode("utf-8"))
    return "".join(out)


_EITHER = {"%21": "!", "%24": "$", "%27": "'", "%5B": "[", "%5D": "]", "%5b": "[", "%5d": "]"}
_EITHER_RE = re.compile("|".join(_EITHER))


def canon_uri(u):
    """Characters a producer may or may not percent-encode are decoded (one level)."""
    return _EITHER_RE.sub(lambda m: _EITHER[m.group()], u)


def norm_label(raw):
    return re.sub("[" + WS + "]+", " ", raw.strip(WS)).casefold()


# ---------------------------------------------------------------- links: label, destination, title
def scan_label(s, i):
    """End index of a link label [..] starting at s[i], or None."""
    if i >= len(s) or s[i] != "[":
        return None
    j = i + 1
    while j < len(s):
        c = s[j]
        if c == "\\" and j + 1 < len(s):
            j += 2
            continue
        if c == "[":
            return None
        if c == "]":
            return j + 1 if j - i - 1 <= 999 else None
        j += 1
    return None


def scan_dest(s, i):
    """(raw destination, end) or None.  An empty bare destination is (\"\", i)."""
    if i < len(s) and s[i] == "<":
        j = i + 1
        while j < len(s):
            c = s[j]
            if c == "\\" and j + 1 < len(s) and s[j + 1] != "\n":
                j += 2
                continue
            if c == ">":
                return s[i + 1:j], j + 1
            if c in "<\n" or c == "\\" and False:
                return None
            j += 1
        return None
    j, depth = i, 0
    while j < len(s):
        c = s[j]
        if c == "\\" and j + 1 < len(s) and s[j + 1] in ASCII_PUNCT:
            j += 2
            continue
        if ord(c) <= 0x20 or ord(c) == 0x7F:
            break
        if c == "(":
            depth += 1
        elif c == ")":
            if depth == 0:
                break
            depth -= 1
        j += 1
    if depth:
        return None
    return s[i:j], j


def scan_title(s, i):
    """(raw title, end) or None."""
    if i >= len(s) or s[i] not in "\"'(":
        return None
    op = s[i]
    cl = ")" if op == "(" else op
    j = i + 1
    last_escaped_close = None
    while j < len(s):
        c = s[j]
        if c == "\\" and j + 1 < len(s) and s[j + 1] in ASCII_PUNCT:
            if s[j + 1] == cl and op != "(":
                last_escaped_close = j + 1
            j += 2
            continue
        if c == cl:
            return s[i + 1:j], j + 1
        if op == "(" and c == "(":
            return None
        j += 1
    return None


def skip_ws1(s, i):
    """Skip whitespace including at most one line ending."""
    nl = 0
    while i < len(s) and s[i] in WS:
        if s[i] == "\n":
            if nl:
                break
            nl = 1
        i += 1
    return i


def skip_to_eol(s, i):
    """If only whitespace remains on the line, index after its line ending, else None."""
    while i < len(s) and s[i] in " \t\x0b\x0c\r":
        i += 1
    if i == len(s):
        return i
    return i + 1 if s[i] == "\n" else None


def scan_refdef(s):
    """(label, dest, title, end) for a link reference definition at the start of s."""
    e = scan_label(s, 0)
    if e is None or e >= len(s) or s[e] != ":":
        return None
    label = norm_label(s[1:e - 1])
    if not label:
        return None
    i = skip_ws1(s, e + 1)
    d = scan_dest(s, i)
    if d is None or (d[1] == i):
        return None
    raw, after_dest = d
    dest_end = skip_to_eol(s, after_dest)
    j = skip_ws1(s, after_dest)
    if j > after_dest:
        t = scan_title(s, j)
        if t is not None:
            title_end = skip_to_eol(s, t[1])
            if title_end is not None:
                return label, norm_uri(unescape(raw)), unescape(t[0]), title_end
    if dest_end is None:
        return None
    return label, norm_uri(unescape(raw)), "", dest_end


# ---------------------------------------------------------------- block phase
TAG = r"[A-Za-z][A-Za-z0-9-]*"
_W = "[" + WS + "]"
ATTR = (_W + r"+[A-Za-z_:][A-Za-z0-9_.:-]*(?:" + _W + r"*=" + _W + r"*(?:[^\"'=<>`\x00-\x20]+|'[^']*'|\"[^\"]*\"))?")
OPEN_TAG = "<" + TAG + "(?:" + ATTR + ")*" + _W + "*/?>"
CLOSE_TAG = "</" + TAG + _W + "*>"
RAW_HTML = re.compile(
    OPEN_TAG + "|" + CLOSE_TAG +
    r"|<!---->|<!--(?!>|->)(?:(?!--)[\s\S])*(?<!-)-->|<\?[\s\S]*?\?>|<![A-Z]+" + _W + r"+[^>]*>|<!\[CDATA\[[\s\S]*?\]\]>")
BLOCK_TAGS = ("address article aside base basefont blockquote body caption center col colgroup dd details dialog dir "
              "div dl dt fieldset figcaption figure footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr html "
              "iframe legend li link main menu menuitem nav noframes ol optgroup option p param section source summary "
              "table tbody td tfoot th thead title tr track ul").split()
HTML_START = [
    (1, re.compile(r"<(?:script|pre|style)(?:" + _W + "|>|$)", re.I | re.A)),
    (2, re.compile(r"<!--")),
    (3, re.compile(r"<\?")),
    (4, re.compile(r"<![A-Z]")),
    (5, re.compile(r"<!\[CDATA\[")),
    (6, re.compile(r"</?(?:" + "|".join(BLOCK_TAGS) + ")(?:" + _W + "|/?>|$)", re.I | re.A)),
    (7, re.compile("(?:" + OPEN_TAG + "|" + CLOSE_TAG + ")" + _W + "*$")),
]
HTML_END = {1: re.compile(r"</(?:script|pre|style)>", re.I | re.A), 2: re.compile("-->"), 3: re.compile(r"\?>"),
            4: re.compile(">"), 5: re.compile(r"\]\]>")}


class Cur:
    """Cursor over one line in virtual columns; rem = columns left of a partly used tab."""

    def __init__(self, s):
        self.s, self.i, self.col, self.rem = s, 0, 0, 0

    def indent(self):
        """(columns of whitespace ahead, index of next non-space)."""
        n, col, i = self.rem, self.col + self.rem, self.i
        while i < len(self.s) and self.s[i] in " \t":
            w = 1 if self.s[i] == " " else 4 - col % 4
            n, col, i = n + w, col + w, i + 1
        return n, i

    def skip(self, k):
        """Consume up to k columns of whitespace."""
        while k > 0:
            if self.rem:
                t = min(self.rem, k)
                self.rem -= t
                self.col += t
                k -= t
            elif self.i < len(self.s) and self.s[self.i] == " ":
                self.i += 1
                self.col += 1
                k -= 1
            elif self.i < len(self.s) and self.s[self.i] == "\t":
                self.rem = 4 - self.col % 4
                self.i += 1
            else:
                break

    def skip_ws(self):
        self.skip(1 << 60)

    def take(self, n):
        """Consume n non-whitespace characters."""
        self.i += n
        self.col += n

    def rest(self):
        return " " * self.rem + self.s[self.i:]

    def blank(self):
        return not self.s[self.i:].strip(" \t")

    def at_space(self):
        return self.rem > 0 or self.i < len(self.s) and self.s[self.i] in " \t"


class Blk:
    __slots__ = ("t", "parent", "kids", "lines", "start", "last", "a", "vanished", "closed_by")

    def __init__(self, t, parent, start):
        self.t, self.parent, self.kids, self.lines = t, parent, [], []
        self.start, self.last, self.a, self.vanished = start, start[0], {}, False
        self.closed_by = None

    def visible(self):
        return [k for k in self.kids if not k.vanished]


class BlockParser:
    def __init__(self):
        self.refs = {}

    def parse(self, text):
        text = text.replace("\0", REPL)
        lines = re.split(r"\r\n|\n|\r", text)
        if lines[-1] == "" and len(lines) > 1:
            lines.pop()
        self.doc = Blk("document", None, (1, 1))
        self.open = [self.doc]
        self.n = 0
        self.lines = lines
        if text != "":
            for ln in lines:
                self.n += 1
                self.line(ln)
        while self.open:
            self.close()
        return self.doc

    # -- opening and closing
    def close(self):
        b = self.open.pop()
        b.closed_by = self.n
        if b.t == "paragraph":
            self.take_refdefs(b)
            if not b.lines:
                b.vanished = True
        elif b.t == "code_block" and not b.a["fenced"]:
            while b.lines and not b.lines[-1].strip(" \t"):
                b.lines.pop()
        elif b.t == "list":
            self.tightness(b)

    def take_refdefs(self, b, final=True):
        text = "\n".join(b.lines)
        used = False
        while text.startswith("["):
            r = scan_refdef(text)
            if r is None:
                break
            used = True
            self.refs.setdefault(r[0], (r[1], r[2]))
            text = text[r[3]:]
        if used:
            b.lines = text.split("\n") if (text.strip(WS) if final else text) else []

    def tightness(self, lst):
        """True, False, or None where the specification leaves it open: it does not say
        whether a paragraph consisting only of reference definitions counts as a block."""
        def gap(x, y):
            return y.start[0] > x.last + 1

        def trails(x):
            while x.kids:
                if any(k.vanished for k in x.kids):
                    return True
                x = x.kids[-1]
            return False
        asblocks = asnothing = unclear = False
        items = lst.kids
        for n, it in enumerate(items):
            nxt_item = items[n + 1] if n + 1 < len(items) else None
            if nxt_item and gap(it, nxt_item):
                asblocks = asnothing = True
            kids = it.kids
            if nxt_item and trails(it):
                unclear = True
            for m, k in enumerate(kids[:-1]):
                if trails(k):
                    unclear = True
                if gap(k, kids[m + 1]):
                    asblocks = True
                    # attributed to the visible block before it, if any, when something follows
                    if (any(not x.vanished for x in kids[:m + 1]) and
                            (nxt_item or any(not x.vanished for x in kids[m + 1:]))):
                        asnothing = True
        if asblocks != asnothing or (unclear and not asblocks):
            lst.a["tight"] = None
        else:
            lst.a["tight"] = not asblocks

    def add(self, t, col):
        """Open a new block as child of the deepest open block that can hold it."""
        while True:
            tip = self.open[-1]
            if tip.t in ("document", "block_quote", "item"):
                ok = t != "item"
            elif tip.t == "list":
                ok = t == "item"
            else:
                ok = False
            if ok:
                break
            self.close()
        b = Blk(t, tip, (self.n, col + 1))
        tip.kids.append(b)
        self.open.append(b)
        return b

    # -- one line
    def line(self, s):
        cur = Cur(s)
        depth = 1
        touched = [self.doc]
        while depth < len(self.open):
            b = self.open[depth]
            ind, ns = cur.indent()
            blank = cur.blank()
            if b.t == "block_quote":
                if ind <= 3 and s[ns:ns + 1] == ">":
                    cur.skip_ws()
                    cur.take(1)
                    if cur.at_space():
                        cur.skip(1)
                    touched = self.open[:depth + 1]
                else:
                    break
            elif b.t == "list":
                pass
            elif b.t == "item":
                if blank and not b.kids:
                    break
                if ind >= b.a["width"]:
                    cur.skip(b.a["width"])
                elif blank:
                    cur.skip_ws()
                else:
                    break
            elif b.t == "paragraph":
                if blank:
                    break
            elif b.t == "code_block" and b.a["fenced"]:
                if ind <= 3:
                    m = re.compile(r"(`{3,}|~{3,}) *$").match(s, ns)
                    if m and s[ns] == b.a["char"] and len(m.group(1)) >= b.a["len"]:
                        self.mark(self.open[:depth + 1])
                        b.a["closed"] = True
                        del self.open[depth + 1:]
                        self.close()
                        return
                cur.skip(b.a["offset"])
            elif b.t == "code_block":
                if ind >= 4:
                    cur.skip(4)
                elif blank:
                    cur.skip_ws()
                else:
                    break
            elif b.t == "html_block":
                if blank and b.a["kind"] >= 6:
                    break
            else:                       # heading, thematic break
                break
            depth += 1
        matched = self.open[:depth]
        cont = matched[-1]
        lazy_ok = len(self.open) > depth and self.open[-1].t == "paragraph"
        unmatched = len(self.open) - depth

        if cont.t in ("code_block", "html_block"):
            self.leaf_line(cont, cur)
            return

        opened = False
        while True:
            ind, ns = cur.indent()
            rest = s[ns:]
            if ind >= 4:
                para_tip = self.open[-1].t == "paragraph"
                if not para_tip and not cur.blank():
                    self.cut(depth, opened)
                    cur.skip(4)
                    b = self.add("code_block", cur.i if not cur.rem else cur.i - 1)
                    b.a["fenced"] = False
                    self.leaf_line(b, cur)
                    return
                break
            ctype = cont.t
            if rest.startswith(">"):
                self.cut(depth, opened)
                opened = True
                cur.skip_ws()
                col = cur.i
                cur.take(1)
                if cur.at_space():
                    cur.skip(1)
                cont = self.add("block_quote", col)
                self.mark(self.open)
                continue
            m = re.match(r"(#{1,6})(?:[ \t]+|$)", rest)
            if m:
                self.cut(depth, opened)
                b = self.add("heading", ns)
                b.a["level"] = len(m.group(1))
                body = re.sub(r"(?:^|[ \t]+)#+[ \t]*$", "", rest[m.end():])
                b.lines = [body]
                self.mark(self.open)
                return
            m = re.match(r"(`{3,})[^`]*$|(~{3,})", rest)
            if m:
                f = m.group(1) or m.group(2)
                self.cut(depth, opened)
                b = self.add("code_block", ns)
                b.a.update(fenced=True, char=f[0], len=len(f), offset=ind, closed=False)
                b.a["info"] = unescape(rest[len(f):].strip(WS))
                self.mark(self.open)
                return
            if rest.startswith("<"):
                kind = next((k for k, rx in HTML_START if rx.match(rest)), None)
                if kind and not (kind == 7 and ctype == "paragraph"):
                    self.cut(depth, opened)
                    b = self.add("html_block", cur.i if not cur.rem else cur.i - 1)
                    b.a["kind"] = kind
                    self.leaf_line(b, cur)
                    return
            m = re.match(r"(=+|-+)[ \t]*$", rest)
            if m and ctype == "paragraph":
                self.take_refdefs(cont, False)
                if cont.lines:
                    cont.t = "heading"
                    cont.a["level"] = 1 if rest[0] == "=" else 2
                    self.mark(self.open)
                    return
            if re.match(r"(?:(?:\*[ \t]*){3,}|(?:-[ \t]*){3,}|(?:_[ \t]*){3,})$", rest):
                self.cut(depth, opened)
                self.add("thematic_break", ns)
                self.mark(self.open)
                return
            m = re.match(r"([-+*])(?=[ \t]|$)|([0-9]{1,9})([.)])(?=[ \t]|$)", rest)
            if m:
                mk = m.group()
                empty = not rest[len(mk):].strip(" \t")
                if not (ctype == "paragraph" and (empty or m.group(2) and int(m.group(2)) != 1 or
                                                  not rest[len(mk):].strip(" \t\x0b\x0c\r"))):
                    self.cut(depth, opened)
                    opened = True
                    cur.skip_ws()
                    col = cur.i
                    cur.take(len(mk))
                    n, _ = cur.indent()
                    if empty:
                        w = 1
                        cur.skip(1)
                    elif n >= 5:
                        w = 1
                        cur.skip(1)
                    else:
                        w = n
                        cur.skip(n)
                    key = (m.group(1), m.group(3))
                    tip = self.open[-1]
                    if not (tip.t == "list" and tip.a["key"] == key):
                        lst = self.add("list", col)
                        lst.a["key"] = key
                        lst.a["start"] = int(m.group(2)) if m.group(2) else None
                    cont = self.add("item", col)
                    cont.a["width"] = ind + len(mk) + w
                    cont.a["marker_offset"], cont.a["padding"] = ind, len(mk) + w
                    self.mark(self.open)
                    continue
            break

        # what remains is text (or nothing)
        if cur.blank():
            if not opened:
                del_to = depth
                while len(self.open) > del_to:
                    self.close()
                self.mark(touched)
            return
        cur.skip_ws()
        if not opened and unmatched and lazy_ok:
            self.open[-1].lines.append(cur.rest())
            self.mark(self.open)
            return
        if not opened:
            while len(self.open) > depth:
                self.close()
        if self.open[-1].t == "paragraph":
            self.open[-1].lines.append(cur.rest())
        else:
            b = self.add("paragraph", cur.i)
            b.lines.append(cur.rest())
        self.mark(self.open)

    def cut(self, depth, opened):
        """Close the unmatched blocks before opening a new one."""
        if not opened:
            while len(self.open) > depth:
                self.close()

    def mark(self, blocks):
        for b in blocks:
            b.last = self.n

    def leaf_line(self, b, cur):
        blank = cur.blank()
        b.lines.append(cur.rest())
        chain = self.open[:self.open.index(b) + 1]
        if blank and (b.t == "html_block" or not b.a["fenced"]):
            # the blank line may turn out to follow the block; only enclosing quotes own it
            k = max([i for i, x in enumerate(chain) if x.t == "block_quote"], default=0)
            self.mark(chain[:k + 1])
        else:
            self.mark(chain)
        if b.t == "html_block" and b.a["kind"] <= 5 and HTML_END[b.a["kind"]].search(cur.s[cur.i:]):
            while self.open[-1] is not b:
                self.close()
            self.close()


# ---------------------------------------------------------------- inline phase
class Delim:
    __slots__ = ("ch", "n", "orig", "op", "cl", "lit")

    def __init__(self, ch, n, op, cl):
        self.ch, self.n, self.orig, self.op, self.cl = ch, n, n, op, cl
        self.lit = {"'": "\u2019", '"': "\u201c"}.get(ch)

    def text(self):
        return {"t": "text", "s": self.lit if self.lit else self.ch * self.n}


def resolve(nodes):
    """Resolve emphasis (and smart quotes) in a flat list of nodes and Delims."""
    out = []
    for d in nodes:
        if not isinstance(d, Delim) or not d.cl:
            out.append(d)
            continue
        if d.ch in "'\"":
            d.lit = "\u2019" if d.ch == "'" else "\u201d"
            for o in reversed(out):
                if isinstance(o, Delim) and o.ch == d.ch and o.op:
                    o.lit = "\u2018" if d.ch == "'" else "\u201c"
                    break
            out.append(d.text())
            continue
        while d.n:
            k = len(out) - 1
            while k >= 0:
                o = out[k]
                if isinstance(o, Delim) and o.ch == d.ch and o.op and not (
                        (d.op or o.cl) and (d.orig + o.orig) % 3 == 0 and (d.orig % 3 or o.orig % 3)):
                    break
                k -= 1
            if k < 0:
                break
            use = 2 if d.n >= 2 and o.n >= 2 else 1
            inner = [x.text() if isinstance(x, Delim) else x for x in out[k + 1:]]
            del out[k + 1:]
            o.n -= use
            d.n -= use
            if not o.n:
                out.pop()
            out.append({"t": "strong" if use == 2 else "emph", "c": inner})
        if d.n:
            out.append(d if d.op else d.text())
    return [x.text() if isinstance(x, Delim) else x for x in out]


_DASH = re.compile("--+")


def smart_run(s):
    def dash(m):
        n = len(m.group())
        if n % 3 == 0:
            em, en = n // 3, 0
        elif n % 2 == 0:
            em, en = 0, n // 2
        elif n % 3 == 2:
            em, en = (n - 2) // 3, 1
        else:
            em, en = (n - 4) // 3, 2
        return "\u2014" * em + "\u2013" * en
    return _DASH.sub(dash, s.replace("...", "\u2026"))


_URI_AUTO = re.compile(r"<([A-Za-z][A-Za-z0-9+.-]{1,31}:[^\x00-\x20<>]*)>")
_MAIL_AUTO = re.compile(
    r"<([a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
    r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
SPECIAL = set("\n`[]\\!<&*_'\"")


def inlines(s, refs, smart=False):
    s = s.strip(WS)
    out, brackets, i, n = [], [], 0, len(s)

    def txt(x):
        out.append({"t": "text", "s": x})
    while i < n:
        c = s[i]
        if c == "\n":
            k = i
            while k > 0 and s[k - 1] == " ":
                k -= 1
            # trailing spaces can only be in the last node, and only if they were literal text there
            if out and not isinstance(out[-1], Delim) and out[-1]["t"] == "text" and not out[-1].get("esc"):
                out[-1]["s"] = out[-1]["s"].rstrip(" ")
            hard = i - k >= 2
            out.append({"t": "linebreak" if hard else "softbreak"})
            i += 1
            while i < n and s[i] == " ":
                i += 1
        elif c == "\\":
            if i + 1 < n and s[i + 1] == "\n":
                out.append({"t": "linebreak"})
                i += 2
                while i < n and s[i] == " ":
                    i += 1
            elif i + 1 < n and s[i + 1] in ASCII_PUNCT:
                out.append({"t": "text", "s": s[i + 1], "esc": 1})
                i += 2
            else:
                txt("\\")
                i += 1
        elif c == "`":
            m = re.compile("`+").match(s, i)
            close = next((x for x in re.compile("`+").finditer(s, m.end()) if len(x.group()) == len(m.group())), None)
            if close:
                body = s[m.end():close.start()].replace("\n", " ")
                if body[0] == body[-1] == " " and body.strip(" "):
                    body = body[1:-1]
                out.append({"t": "code", "s": body})
                i = close.end()
            else:
                txt(m.group())
                i = m.end()
        elif c in "*_" or smart and c in "'\"":
            j = i + 1
            if c in "*_":
                while j < n and s[j] == c:
                    j += 1
            before, after = (s[i - 1] if i else "\n"), (s[j] if j < n else "\n")
            lf = not is_uws(after) and (not is_punct(after) or is_uws(before) or is_punct(before))
            rf = not is_uws(before) and (not is_punct(before) or is_uws(after) or is_punct(after))
            if c == "*":
                op, cl = lf, rf
            elif c == "_":
                op, cl = lf and (not rf or is_punct(before)), rf and (not lf or is_punct(after))
            else:
                op, cl = lf and not rf, rf
            out.append(Delim(c, j - i, op, cl))
            i = j
        elif c == "[" or c == "!" and s[i + 1:i + 2] == "[":
            img = c == "!"
            txt("![" if img else "[")
            i += 2 if img else 1
            brackets.append({"at": len(out) - 1, "src": i, "img": img, "active": True})
        elif c == "]":
            i = close_bracket(s, i, out, brackets, refs)
        elif c == "<":
            m = _MAIL_AUTO.match(s, i)
            u = m or _URI_AUTO.match(s, i)
            if u:
                out.append({"t": "link", "dest": norm_uri(("mailto:" if m else "") + u.group(1)), "title": "",
                            "c": [{"t": "text", "s": u.group(1)}]})
                i = u.end()
            else:
                m = RAW_HTML.match(s, i)
                if m:
                    out.append({"t": "html_inline", "s": m.group()})
                    i = m.end()
                else:
                    txt("<")
                    i += 1
        elif c == "&":
            r = charref(s, i)
            if r:
                out.append({"t": "text", "s": r[0], "esc": 1})
                i = r[1]
            else:
                txt("&")
                i += 1
        else:
            j = i + 1
            while j < n and s[j] not in SPECIAL:
                j += 1
            if c in SPECIAL:            # quotes without smart, lone '!'
                txt(c)
                i += 1
            else:
                txt(smart_run(s[i:j]) if smart else s[i:j])
                i = j
    return merge(resolve(out))


def close_bracket(s, i, out, brackets, refs):
    """Handle the ] at s[i]; returns the new position."""
    if not brackets:
        out.append({"t": "text", "s": "]"})
        return i + 1
    op = brackets.pop()
    found = None
    if op["active"]:
        j = i + 1
        # inline link
        if s[j:j + 1] == "(":
            k = skip_ws1(s, j + 1)
            d = scan_dest(s, k)
            if d is not None:
                e = skip_ws1(s, d[1])
                title = ""
                if e > d[1] or d[1] == k and k > j + 1:
                    t = scan_title(s, e)
                    if t is not None:
                        title = unescape(t[0])
                        e = skip_ws1(s, t[1])
                if s[e:e + 1] == ")":
                    found = (norm_uri(unescape(d[0])), title, e + 1)
        if not found:
            e = scan_label(s, j)
            if e is not None and e - j > 2:
                r = refs.get(norm_label(s[j + 1:e - 1])) if e - j - 2 <= 999 else None
                if r:
                    found = (r[0], r[1], e)
            else:
                raw = s[op["src"]:i]
                r = refs.get(norm_label(raw)) if scan_label("[" + raw + "]", 0) == len(raw) + 2 else None
                if r:
                    found = (r[0], r[1], e if e is not None else j)
    if not found:
        out.append({"t": "text", "s": "]"})
        return i + 1
    kids = merge(resolve(out[op["at"] + 1:]))
    del out[op["at"]:]
    out.append({"t": "image" if op["img"] else "link", "dest": found[0], "title": found[1], "c": kids})
    if not op["img"]:
        for b in brackets:
            if not b["img"]:
                b["active"] = False
    return found[2]


def merge(nodes):
    res = []
    for x in nodes:
        if x["t"] == "text":
            if not x["s"]:
                continue
            if res and res[-1]["t"] == "text":
                res[-1] = {"t": "text", "s": res[-1]["s"] + x["s"]}
                continue
            x = {"t": "text", "s": x["s"]}
        elif "c" in x and x["t"] in ("emph", "strong"):
            x = {"t": x["t"], "c": merge(x["c"])}
        res.append(x)
    return res


# ---------------------------------------------------------------- canonical tree
def trim_html(s):
    return re.sub(r"(?:\n[ \t]*)+\Z", "", s)


def to_tree(b, refs, smart, pos):
    d = {"t": b.t}
    if pos:
        d["start"] = b.start
        d["last"] = b.last
    if b.t in ("paragraph", "heading"):
        if b.t == "heading":
            d["level"] = b.a["level"]
        d["c"] = inlines("\n".join(b.lines), refs, smart)
    elif b.t == "code_block":
        d["s"] = "".join(x + "\n" for x in b.lines)
        d["info"] = b.a.get("info", "")
        d["fenced"] = b.a["fenced"]
    elif b.t == "html_block":
        d["s"] = trim_html("\n".join(b.lines))
    elif b.t == "thematic_break":
        pass
    else:
        if b.t == "list":
            d["ordered"] = b.a["key"][1] is not None
            d["mark"] = b.a["key"][0] or b.a["key"][1]
            d["start_no"] = b.a["start"]
            d["tight"] = b.a["tight"]
        d["c"] = [to_tree(k, refs, smart, pos) for k in b.visible()]
    return d


def parse(text, smart=False, pos=False):
    p = BlockParser()
    doc = p.parse(text)
    return to_tree(doc, p.refs, smart, pos)


def parse_full(text, smart=False):
    """(tree with positions, reference map, block parser)."""
    p = BlockParser()
    doc = p.parse(text)
    return to_tree(doc, p.refs, smart, True), p.refs, p


# ---------------------------------------------------------------- HTML (for spec examples and C10)
def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def plain(nodes):
    r = []
    for x in nodes:
        t = x["t"]
        if t in ("text", "code"):
            r.append(esc(x["s"]))
        elif t in ("softbreak", "linebreak"):
            r.append("\n")
        elif t == "html_inline":
            r.append(esc(x["s"]))
        else:
            r.append(plain(x["c"]))
    return "".join(r)


def inl_html(nodes):
    r = []
    for x in nodes:
        t = x["t"]
        if t == "text":
            r.append(esc(x["s"]))
        elif t == "code":
            r.append("<code>" + esc(x["s"]) + "</code>")
        elif t == "html_inline":
            r.append(x["s"])
        elif t == "softbreak":
            r.append("\n")
        elif t == "linebreak":
            r.append("<br />\n")
        elif t in ("emph", "strong"):
            g = "em" if t == "emph" else "strong"
            r.append("<%s>%s</%s>" % (g, inl_html(x["c"]), g))
        elif t == "link":
            tt = ' title="%s"' % esc(x["title"]) if x["title"] else ""
            r.append('<a href="%s"%s>%s</a>' % (esc(x["dest"]), tt, inl_html(x["c"])))
        else:
            tt = ' title="%s"' % esc(x["title"]) if x["title"] else ""
            r.append('<img src="%s" alt="%s"%s />' % (esc(x["dest"]), plain(x["c"]), tt))
    return "".join(r)


def html(d):
    out = []

    def cr():
        if out and not out[-1].endswith("\n"):
            out.append("\n")

    def blk(d, tight):
        t = d["t"]
        if t == "document":
            for k in d["c"]:
                blk(k, False)
        elif t == "paragraph":
            if tight:
                out.append(inl_html(d["c"]))
            else:
                cr()
                out.append("<p>" + inl_html(d["c"]) + "</p>\n")
        elif t == "heading":
            cr()
            out.append("<h%d>%s</h%d>\n" % (d["level"], inl_html(d["c"]), d["level"]))
        elif t == "thematic_break":
            cr()
            out.append("<hr />\n")
        elif t == "code_block":
            w = d["info"].split()
            cr()
            out.append("<pre><code%s>%s</code></pre>\n" % (
                ' class="language-%s"' % esc(w[0]) if w else "", esc(d["s"])))
        elif t == "html_block":
            cr()
            out.append(d["s"])
            out.append("\n")
        elif t == "block_quote":
            cr()
            out.append("<blockquote>\n")
            for k in d["c"]:
                blk(k, False)
            cr()
            out.append("</blockquote>\n")
        elif t == "list":
            g = "ol" if d["ordered"] else "ul"
            cr()
            out.append("<%s%s>\n" % (g, ' start="%d"' % d["start_no"] if d["ordered"] and d["start_no"] != 1 else ""))
            for it in d["c"]:
                out.append("<li>")
                for k in it["c"]:
                    if not (d["tight"] and k["t"] == "paragraph"):
                        cr()
                    blk(k, d["tight"])
                out.append("</li>\n")
            out.append("</%s>\n" % g)
    blk(d, False)
    return "".join(out)
