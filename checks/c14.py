import itertools

import gen as G
import sut

ID = "C14"
TECHNIQUE = "model-based monitor: random and exhaustive edit and walk histories checked link by link against an ordered-tree model"
QUICK = (22000, 45)
THOROUGH = (400000, 1200)
RULE = ("Histories of append_child, prepend_child, insert_before, insert_after and unlink on new nodes and on parsed documents, with walkers that are stepped, resumed and whose current node is unlinked in between. After every edit "
        "all links of all nodes are compared with those of the model (lists of children); every walker event with the model's traversal. Non-trivial: at least one edit moved or removed a node.")
REQUIRE = {"edits": 200000, "states compared": 200000, "moves": 30000, "walker events": 100000, "resumed": 5000, "resumed outside the root": 200, "unlinked during a walk": 5000, "parsed documents": 500, "only children moved": 1000, "moves within a parent": 2000}
ASSUMPTIONS = ["not exercised: insert_before/insert_after on a node without parent, inserting a node next to itself, giving a node its own ancestor as child", "during a walk only the current node is unlinked: a leaf, a container on leaving it, "
               "or a container on entering it if the walker is then resumed elsewhere"]
EXHAUSTIVE_NOTE = "all histories of 3 (thorough: 4) edits on 4 nodes from 3 starting trees, all links compared after the last edit"

OPS = ["append_child", "prepend_child", "insert_before", "insert_after", "unlink"]


class Model:
    def __init__(self):
        self.kids, self.par = {}, {}

    def add(self, i):
        self.kids[i], self.par[i] = [], None

    def detach(self, i):
        if self.par[i] is not None:
            self.kids[self.par[i]].remove(i)
            self.par[i] = None

    def ancestor(self, a, b):
        """a is b or above b"""
        while b is not None:
            if a == b:
                return True
            b = self.par[b]
        return False

    def legal(self, op, a, b):
        if op == "unlink":
            return True
        if a == b:
            return False
        if op in ("insert_before", "insert_after"):
            return self.par[a] is not None and not self.ancestor(b, a)
        return not self.ancestor(b, a)

    def apply(self, op, a, b):
        if op == "unlink":
            self.detach(a)
            return
        self.detach(b)
        if op == "append_child":
            self.kids[a].append(b)
            self.par[b] = a
        elif op == "prepend_child":
            self.kids[a].insert(0, b)
            self.par[b] = a
        else:
            p = self.par[a]
            self.kids[p].insert(self.kids[p].index(a) + (op == "insert_after"), b)
            self.par[b] = p

    def events(self, root, cont):
        out = []
        st = [(root, True)]
        while st:
            i, e = st.pop()
            out.append((i, e))
            if e and cont[i]:
                st.append((i, False))
                st.extend((k, True) for k in reversed(self.kids[i]))
        return out


def compare(m, nodes):
    for i, n in enumerate(nodes):
        ks = m.kids[i]
        p = m.par[i]
        if n.parent is not (None if p is None else nodes[p]):
            return "parent of #%d is %s, expected %s" % (i, name(nodes, n.parent), p)
        if n.first_child is not (nodes[ks[0]] if ks else None):
            return "first child of #%d is %s, expected %s" % (i, name(nodes, n.first_child), ks[:1])
        if n.last_child is not (nodes[ks[-1]] if ks else None):
            return "last child of #%d is %s, expected %s" % (i, name(nodes, n.last_child), ks[-1:])
        for j, k in enumerate(ks):
            if nodes[k].prv is not (nodes[ks[j - 1]] if j else None):
                return "node before #%d is %s, expected %s" % (k, name(nodes, nodes[k].prv), ks[j - 1] if j else None)
            if nodes[k].nxt is not (nodes[ks[j + 1]] if j + 1 < len(ks) else None):
                return "node after #%d is %s, expected %s" % (k, name(nodes, nodes[k].nxt), ks[j + 1] if j + 1 < len(ks) else None)
        if p is None and (n.prv is not None or n.nxt is not None):
            return "#%d has no parent but siblings %s, %s" % (i, name(nodes, n.prv), name(nodes, n.nxt))


def name(nodes, n):
    for i, x in enumerate(nodes):
        if x is n:
            return "#%d" % i
    return None if n is None else repr(n)


START = {"flat": [(0, 1), (0, 2), (0, 3)], "loose": [(0, 1), (0, 2)], "deep": [(0, 1), (1, 2), (2, 3)]}


def enumerate_(c):
    ops = [(o, a, b) for o in range(4) for a in range(4) for b in range(4) if a != b] + [(4, a, 0) for a in range(4)]
    n = len(ops)
    for s in sorted(START):
        for k in range(n ** (c.thorough and 3 or 2)):
            yield {"start": s, "pre": k}


def small(case, c):
    ops = [(o, a, b) for o in range(4) for a in range(4) for b in range(4) if a != b] + [(4, a, 0) for a in range(4)]
    pre, k = [], case["pre"]
    for _ in range(3 if c.thorough else 2):
        pre.append(ops[k % len(ops)])
        k //= len(ops)
    m0 = Model()
    for i in range(4):
        m0.add(i)
    for a, b in START[case["start"]]:
        m0.apply("append_child", a, b)
    base = list(START[case["start"]])
    hist = []
    for o, a, b in pre:
        if not m0.legal(OPS[o], a, b):
            c.trivial = True
            return None
        m0.apply(OPS[o], a, b)
        hist.append((o, a, b))
    for o, a, b in ops:
        if not m0.legal(OPS[o], a, b):
            continue
        nodes = [sut.Node("block_quote", None) for _ in range(4)]
        for x, y in base:
            nodes[x].append_child(nodes[y])
        for p, x, y in hist + [(o, a, b)]:
            do(nodes, p, x, y)
        m = Model()
        m.kids = {i: list(v) for i, v in m0.kids.items()}
        m.par = dict(m0.par)
        m.apply(OPS[o], a, b)
        d = compare(m, nodes)
        c.count("edits")
        c.count("states compared")
        if d:
            return "%s after %s" % (d, [(OPS[p], x, y) for p, x, y in hist + [(o, a, b)]])
        if len(hist) and (o + a + b) % 7 == 0:
            cont = [True] * 4
            for r in range(4):
                want = m.events(r, cont)
                got = []
                for n, e in nodes[r].walker():
                    got.append((nodes.index(n), bool(e)))
                    if len(got) > 20:
                        return "the walker does not stop after %s" % hist
                c.count("walker events", len(got))
                if got != want:
                    return "walker events %s, expected %s after %s" % (got, want, [(OPS[p], x, y) for p, x, y in hist + [(o, a, b)]])


def do(nodes, o, a, b):
    if o == 4:
        nodes[a].unlink()
    else:
        getattr(nodes[a], OPS[o])(nodes[b])


TYPES = ["block_quote", "paragraph", "emph", "list", "item", "link", "text", "code", "softbreak", "thematic_break", "html_block", "strong", "document", "heading", "image", "code_block", "linebreak", "html_inline", "custom_block", "custom_inline"]
LEAF = {"text", "code", "softbreak", "thematic_break", "html_block", "code_block", "linebreak", "html_inline"}


def history(r):
    n = r.randint(2, 9)
    types = [r.choice(TYPES) if i else "document" for i in range(n)]
    ops = []
    for _ in range(r.randint(3, 40)):
        k = r.random()
        if k < .62:
            ops.append([r.choice([0, 0, 1, 2, 3, 4]), r.randrange(n), r.randrange(n)])
        elif k < .8:
            ops.append(["walk", r.randrange(n), r.randrange(1 << 30)])
        elif k < .9:
            ops.append([0, r.choice([0, 0, 1]), r.randrange(n)])
        else:
            ops.append([r.choice([2, 3]), r.randrange(n), r.randrange(n)])
    return {"types": types, "ops": ops}


def parsed(r):
    ops = []
    for _ in range(r.randint(2, 25)):
        ops.append([r.choice([0, 1, 2, 3, 4, "walk", "walk"]), r.randrange(1000), r.randrange(1 << 30)])
    return {"text": G.any_doc(r, sut.REPO)[:400], "ops": ops}


def gens(c):
    return [(5, "history", history), (1, "parsed", parsed)]


def setup(case, c):
    m = Model()
    if "text" in case:
        doc = sut.parse(case["text"])
        nodes, index = [], {}
        st = [doc]
        while st:
            x = st.pop()
            index[id(x)] = len(nodes)
            nodes.append(x)
            m.add(len(nodes) - 1)
            if x.parent is not None:
                p = index[id(x.parent)]
                m.kids[p].append(len(nodes) - 1)
                m.par[len(nodes) - 1] = p
            ks = []
            k = x.first_child
            while k is not None:
                ks.append(k)
                k = k.nxt
            st.extend(reversed(ks))
            if len(nodes) > 300:
                c.skip("large document")
        c.count("parsed documents")
        for t in ("text", "emph", "paragraph", "list"):
            nodes.append(sut.Node(t, None))
            m.add(len(nodes) - 1)
    else:
        nodes = [sut.Node(t, None) for t in case["types"]]
        for i in range(len(nodes)):
            m.add(i)
    return nodes, m


def check(case, c):
    if "pre" in case:
        return small(case, c)
    nodes, m = setup(case, c)
    n = len(nodes)
    if not n:
        return None
    cont = [x.t not in LEAF for x in nodes]
    c.trivial = True
    for op, a, b in case["ops"]:
        a %= n
        if op == "walk":
            d = walk(nodes, m, cont, a, b, c)
            if d:
                return d
            continue
        b %= n
        if op in (0, 1) and not cont[a] or not m.legal(OPS[op], a, b):
            continue
        if op != 4 and m.par[b] is not None:
            c.count("moves")
            c.trivial = False
            if len(m.kids[m.par[b]]) == 1:
                c.count("only children moved")
            if m.par[b] == (a if op < 2 else m.par[a]):
                c.count("moves within a parent")
        m.apply(OPS[op], a, b)
        do(nodes, op, a, b)
        c.count("edits")
        d = compare(m, nodes)
        c.count("states compared")
        if d:
            return "%s after %s(#%d, #%d)" % (d, OPS[op], a, b)


def walk(nodes, m, cont, root, seed, c):
    """Step a walker, sometimes resuming it or unlinking its current node."""
    import random
    r = random.Random(seed)
    w = nodes[root].walker()
    style = r.random()
    want = m.events(root, cont)
    k = 0
    steps = 0
    while True:
        steps += 1
        if steps > 4 * len(nodes) + 40:
            return None
        if r.random() < .5:
            e = w.nxt()
            got = None if e is None else (e["node"], e["entering"])
        else:
            try:
                got = next(w)
            except StopIteration:
                got = None
        exp = want[k] if k < len(want) else None
        if (got is None) != (exp is None) or got is not None and (got[0] is not nodes[exp[0]] or bool(got[1]) != exp[1]):
            return "walker from #%d gives %s, expected %s" % (root, got and (name(nodes, got[0]), got[1]), exp)
        if exp is None:
            return None
        c.count("walker events")
        k += 1
        if style < .3:
            continue
        i, entering = exp
        x = r.random()
        if x < .12:
            want = m.events(root, cont)
            if r.random() < .3:
                # anywhere in the tree: on from there to the end of the root or of the tree
                top = root
                while m.par[top] is not None:
                    top = m.par[top]
                every = m.events(top, cont)
                i, e = r.choice(every)
                k = every.index((i, e))
                last = (root, not cont[root])
                n = every.index(last) if last in every[k:] else len(every) - 1
                if (i, e) not in want:
                    c.count("resumed outside the root")
                want, k = every[k:n + 1], 0
            else:
                i, e = r.choice(want)
                k = want.index((i, e))
            w.resume_at(nodes[i], e)
            c.count("resumed")
        elif x < .3 and i != root:
            if not cont[i] or not entering:
                # what remains to be visited does not change
                rest = want[k:]
                m.apply("unlink", i, i)
                nodes[i].unlink()
                want, k = rest, 0
                c.count("unlinked during a walk")
                c.trivial = False
            elif x < .2:
                m.apply("unlink", i, i)
                nodes[i].unlink()
                want = m.events(root, cont)
                k = r.randrange(len(want))
                w.resume_at(nodes[want[k][0]], want[k][1])
                c.count("unlinked during a walk")
            else:
                continue
            d = compare(m, nodes)
            if d:
                return "%s after unlinking #%d in a walk" % (d, i)
