"""Measures the checks' sensitivity; no check uses it.
  mutants.py list  DIR            write all mutants of /repo's modules to DIR/mutants.json
  mutants.py tests DIR [i/n]      run the repository's tests on each (in copies), keep the survivors
  mutants.py run   DIR [scale]    run the checks on the survivors until one reports a violation
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["blocks.py", "inlines.py", "common.py", "dump.py", "main.py", "node.py", "normalize_reference.py", "cmark.py", "render/html.py", "render/renderer.py", "render/rst.py"]
ORDER = {"blocks.py": "C02 C03 C04 C18 C19 C20 C07 C17 C13 C24", "inlines.py": "C05 C06 C07 C09 C08 C23 C04 C24 C12 C13 C25", "common.py": "C09 C08 C12 C10 C11 C06 C27 C25", "dump.py": "C21 C26", "main.py": "C01 C15 C21 C16", "node.py": "C14 C13",
         "normalize_reference.py": "C07 C27", "cmark.py": "C26", "render/html.py": "C10 C11 C20 C24", "render/renderer.py": "C10 C22 C13 C14", "render/rst.py": "C22 C13 C25"}
ALL = ["C%02d" % i for i in range(1, 35)]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
ATTR = {"prv": "nxt", "nxt": "prv", "first_child": "last_child", "last_child": "first_child", "next_nonspace": "offset", "offset": "next_nonspace", "column": "offset", "next_nonspace_column": "column", "tip": "oldtip"}


def seg(src, offs, n):
    return offs[n.lineno - 1] + len(src.split("\n")[n.lineno - 1].encode()[:n.col_offset].decode()), offs[n.end_lineno - 1] + len(src.split("\n")[n.end_lineno - 1].encode()[:n.end_col_offset].decode())


def mutants(src):
    tree = ast.parse(src)
    offs, o = [], 0
    for ln in src.split("\n"):
        offs.append(o)
        o += len(ln) + 1
    out = []

    def add(n, new, what):
        a, b = seg(src, offs, n)
        if src[a:b] != new:
            out.append((a, b, new, what, n.lineno))

    def txt(n):
        a, b = seg(src, offs, n)
        return src[a:b]
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, txt(n.left) + " " + CMP[type(n.ops[0])] + " " + txt(n.comparators[0]), "compare")
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                add(n, txt(n.left) + " " + {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}[type(n.ops[0])] + " " + txt(n.comparators[0]), "negate")
        if isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(" + txt(v) + ")" for v in n.values) + ")", "and/or")
            for i in range(len(n.values)):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + txt(v) + ")" for k, v in enumerate(n.values) if k != i) + ")", "drop operand %d" % i)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + txt(n.operand) + ")", "drop not")
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        if isinstance(n, ast.While):
            add(n.test, "False", "while False")
        if isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flip")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "+1")
                add(n, str(n.value - 1), "-1")
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and n.lineno == n.end_lineno:
                t = txt(n)
                m = re.match(r"^([rRuU]?)(['\"])(.*)\2$", t, re.S)
                if m and m.group(3):
                    b = m.group(3)
                    for k in re.finditer(r"[*+?^$]|\{\d+,\d*\}|\\.|[|]|\[\^?|.", b):
                        s = k.group(0)
                        if len(b) > 1 and re.search(r"[\\\[\](){}*+?|^$]", b):
                            reps = {"*": ["+"], "+": ["*"], "?": ["", "*"], "^": [""], "$": [""], "[^": ["["], "|": [""]}.get(s, [""] if len(s) == 1 or s[0] == "\\" else [])
                            if s[0] == "{" and len(s) > 1:
                                x = re.findall(r"\d+", s)
                                reps = ["{%d%s" % (int(x[0]) + 1, s[s.index(","):])] + ([s[:s.index(",") + 1] + "%d}" % (int(x[1]) - 1)] if len(x) > 1 else [])
                            for rep in reps:
                                add(n, m.group(1) + m.group(2) + b[:k.start()] + rep + b[k.end():] + m.group(2), "string %d" % k.start())
                    if not re.search(r"[\\\[\](){}*+?|^$]", b):
                        add(n, m.group(1) + m.group(2) + b + "~" + m.group(2), "string+")
                        add(n, "''", "string empty")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, txt(n.left) + (" - " if isinstance(n.op, ast.Add) else " + ") + txt(n.right), "+/-")
            add(n, txt(n.left), "left only")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and id(n) not in docs:
            add(n, "pass", "drop statement")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None")
            for v in ("True", "False"):
                if isinstance(n.value, (ast.Compare, ast.BoolOp, ast.Constant)):
                    add(n.value, v, "return " + v)
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            add(n, txt(n.value) + "." + ATTR[n.attr], "attr")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, "(" + txt(n.lower) + ")+1", "slice+1")
            if n.upper is not None:
                add(n.upper, "(" + txt(n.upper) + ")-1", "slice-1")
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "upper"):
            add(n, txt(n.func.value), "drop ." + n.func.attr)
    seen, res = set(), []
    for m in out:
        if m[:3] in seen:
            continue
        seen.add(m[:3])
        new = src[:m[0]] + m[2] + src[m[1]:]
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        res.append(m)
    return res


def apply(d, m, src):
    p = os.path.join(d, "commonmark", m["file"])
    with open(p, "w", encoding="utf-8") as f:
        f.write(src[:m["a"]] + m["new"] + src[m["b"]:] if m else src)


def tests(repo, spec_examples):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, PYTHONPYCACHEPREFIX="/nonexistent")
    try:
        r = subprocess.run([sys.executable, os.path.join(V, "tools", "mutants.py"), "selftest", repo], env=e, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=15)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def selftest(repo):
    sys.path.insert(0, repo)
    import io
    import unittest
    import contextlib
    import commonmark
    assert commonmark.__file__.startswith(repo)
    os.chdir(repo)
    t = open("spec.txt", encoding="utf-8").read()
    for m in re.finditer(r"^`{32} example\n(.*?)^\.\n(.*?)^`{32}$", t, re.S | re.M):
        if commonmark.HtmlRenderer().render(commonmark.Parser().parse(m.group(1).replace("→", "\t"))) != m.group(2).replace("→", "\t"):
            return 1
    suite = unittest.TestSuite()
    import importlib
    for n in ("unit_tests", "rst_tests"):
        try:
            suite.addTests(unittest.defaultTestLoader.loadTestsFromModule(importlib.import_module("commonmark.tests." + n)))
        except ImportError:
            pass
    with contextlib.redirect_stdout(io.StringIO()):
        r = unittest.TextTestRunner(stream=io.StringIO(), failfast=True).run(suite)
    bad = [x for x in r.errors + r.failures if "hypothesis" not in x[1]]
    if bad:
        return 1
    for o in ([], ["-a"], ["-aj"]):
        sys.argv = ["cmark", "commonmark/tests/test.md"] + o
        from commonmark import cmark
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                cmark.main()
        except SystemExit as e:
            if e.code:
                return 1
    return 0


def main():
    what, d = sys.argv[1:3]
    if what == "selftest":
        try:
            sys.exit(selftest(d))
        except Exception:
            sys.exit(1)
    os.makedirs(d, exist_ok=True)
    srcs = {f: open(os.path.join("/repo/commonmark", f), encoding="utf-8").read() for f in FILES}
    if what == "list":
        res = []
        for f in FILES:
            for a, b, new, w, ln in mutants(srcs[f]):
                res.append({"file": f, "a": a, "b": b, "new": new, "what": w, "line": ln, "old": srcs[f][a:b]})
        for i, m in enumerate(res):
            m["id"] = i
        json.dump(res, open(os.path.join(d, "mutants.json"), "w"), indent=0)
        print(len(res))
        return
    n = int(os.environ.get("JOBS", "8"))
    copies = []
    for k in range(n):
        c = os.path.join(d, "copy%d-%s" % (k, what))
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree("/repo", c, ignore=shutil.ignore_patterns(".git"))
        copies.append(c)
    import queue
    q = queue.Queue()
    for c in copies:
        q.put(c)
    if what == "tests":
        ms = json.load(open(os.path.join(d, "mutants.json")))

        def one(m):
            c = q.get()
            try:
                apply(c, m, srcs[m["file"]])
                return tests(c, None)
            finally:
                open(os.path.join(c, "commonmark", m["file"]), "w", encoding="utf-8").write(srcs[m["file"]])
                q.put(c)
        with ThreadPoolExecutor(n) as ex:
            ok = list(ex.map(one, ms))
        surv = [m for m, o in zip(ms, ok) if o]
        json.dump(surv, open(os.path.join(d, "survivors.json"), "w"), indent=0)
        print(len(ms), "mutants,", len(surv), "pass the tests")
    elif what == "run":
        scale = sys.argv[3] if len(sys.argv) > 3 else ".5"
        ms = json.load(open(os.path.join(d, "survivors.json")))
        log = os.path.join(d, "results.jsonl")
        done = set()
        if os.path.exists(log):
            done = {json.loads(x)["id"] for x in open(log)}
        random.Random(1).shuffle(ms)
        only = os.environ.get("ONLY", "").split()

        def one(m):
            if m["id"] in done:
                return
            c = q.get()
            try:
                apply(c, m, srcs[m["file"]])
                order = ORDER[m["file"]].split()
                order += [x for x in ("C15 C01" if os.environ.get("RELEVANT") else " ".join(ALL)).split() if x not in order]
                if only:
                    order = only
                killed = None
                odd = []
                for cid in order:
                    e = dict(os.environ, VERIF_REPO=c, VERIF_WORKERS="1", VERIF_SCALE=scale, VERIF_EVIDENCE=os.path.join(c, "ev"), VERIF_SEED="7")
                    try:
                        r = subprocess.run([sys.executable, os.path.join(V, "run.py"), cid], env=e, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    except subprocess.TimeoutExpired:
                        odd.append(cid + " timeout")
                        continue
                    if r.returncode == 1:
                        killed = cid
                        break
                    if r.returncode == 2 and b"INCONCLUSIVE" not in r.stdout:
                        odd.append(cid + " " + r.stdout.decode("utf-8", "replace")[-200:])
                with open(log, "a") as f:
                    f.write(json.dumps({"id": m["id"], "killed": killed, "odd": odd, "file": m["file"], "line": m["line"], "what": m["what"], "old": m["old"][:200], "new": m["new"][:200]}) + "\n")
            finally:
                open(os.path.join(c, "commonmark", m["file"]), "w", encoding="utf-8").write(srcs[m["file"]])
                q.put(c)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, ms))
        rs = [json.loads(x) for x in open(log)]
        print(len(rs), "survivors,", sum(1 for r in rs if r["killed"]), "killed")
    for c in copies:
        shutil.rmtree(c, ignore_errors=True)


main()
