import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

import gen as G
import harness
import sut

ID = "C26"
TECHNIQUE = "end-to-end monitor: the command run as a subprocess and in process in a scratch directory; every byte of stdout, output and input files compared with the library's result"
QUICK = (1400, 60)
THOROUGH = (12000, 1200)
RULE = ("Documents given as a file, on standard input or as '-', with the output on standard output, in a new file or over an existing longer or shorter one, as HTML, JSON or AST, options before or after the file, unusual file names, several locales. "
        "Exit status, standard output and all files of the directory are compared byte by byte with the library's results. Non-trivial: the document is not blank.")
REQUIRE = {"runs": 3500, "subprocess runs": 700, "output files compared": 1000, "overwritten files": 500, "json": 800, "ast": 400, "stdin": 800, "non-ASCII": 500}
ASSUMPTIONS = ["-o is not given together with -a", "output and input are different files", "text the platform's UTF-8 can carry (no lone surrogates)"]
SHRINK = True
ENVS = [{"PYTHONUTF8": "1"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C"}, {"LANG": "en_US.UTF-8", "PYTHONIOENCODING": "utf-8"}]


def expected(text, mode):
    text = text.replace("\r\n", "\n").replace("\r", "\n")          # the file is read in text mode
    doc = sut.Parser().parse(text)
    if mode == "-a":
        return sut.printed(sut.dumpAST, doc)[0]
    if mode == "-aj":
        return sut.dumpJSON(doc)
    return sut.HtmlRenderer().render(doc)


def begin(c):
    c.state["dir"] = tempfile.mkdtemp(prefix="verif-c26-")


def finish(c):
    shutil.rmtree(c.state["dir"], ignore_errors=True)


def in_process(args, data):
    """(status, stdout bytes, traceback)"""
    import commonmark.cmark
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8", newline="\n", write_through=True)
    old = sys.argv, sys.stdin
    sys.argv = ["cmark"] + args
    sys.stdin = io.TextIOWrapper(io.BytesIO(data), encoding="utf-8")
    status = 0
    try:
        with contextlib.redirect_stdout(out):
            try:
                commonmark.cmark.main()
            except SystemExit as e:
                status = 0 if e.code is None else e.code
        out.flush()
    finally:
        sys.argv, sys.stdin = old
    return status, raw.getvalue(), ""


def sub(args, data, cwd, env):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    e.update(env)
    e["PYTHONPATH"] = sut.REPO
    e["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
    p = subprocess.run([sys.executable, "-m", "commonmark.cmark"] + args, input=data, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")


def check(case, c):
    text = case["text"]
    try:
        data = text.encode("utf-8")
    except UnicodeEncodeError:
        c.skip("not encodable")
    c.trivial = not text.strip()
    want = expected(text, case["mode"]).encode("utf-8")
    d = os.path.join(c.state["dir"], "w")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    inname, outname = case["names"]
    files = {}
    args = [case["mode"]] if case["mode"] else []
    if case["src"] == "file":
        files[inname] = data
        pos = [inname] if case["rel"] else [os.path.join(d, inname)]
    else:
        pos = ["-"] if case["src"] == "dash" else []
    dst = case["dst"]
    o = []
    if dst == "bare":
        o = ["-o"]
    elif dst == "dash":
        o = ["-o", "-"]
    elif dst != "stdout":
        o = ["-o", outname if case["rel"] else os.path.join(d, outname)]
        if dst == "longer":
            files[outname] = want + b"old content\n" * 50
        elif dst == "shorter":
            files[outname] = b"x"
        elif dst == "same":
            files[outname] = want
    for n, b in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
    if dst == "bare":
        args = pos + args + o                          # a file name after a bare -o would be taken as its argument
    elif case["order"] == 0:
        args = o + args + pos
    elif case["order"] == 1:
        args = pos + o + args
    else:
        args = args + pos + o
    real = case["how"] == "sub"
    if real:
        status, out, err = sub(args, data if case["src"] != "file" else b"ignored *input*", d, ENVS[case["env"]])
        c.count("subprocess runs")
    else:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            status, out, err = in_process(args, data if case["src"] != "file" else b"ignored *input*")
        finally:
            os.chdir(cwd)
    c.count("runs")
    c.count("json" if case["mode"] == "-aj" else "ast" if case["mode"] == "-a" else "html")
    if case["src"] != "file":
        c.count("stdin")
    if len(data) != len(text):
        c.count("non-ASCII")
    shown = "cmark " + " ".join(args)
    if status:
        return "%s: exit status %r %s" % (shown, status, err[-300:])
    if err.strip():
        return "%s: wrote to standard error: %s" % (shown, err[-300:])
    tofile = dst not in ("stdout", "bare", "dash")
    if tofile:
        files[outname] = want
        want = b""
    if out != want:
        return "%s: standard output is %r, expected %r" % (shown, diff(out, want), diff(want, out))
    have = {}
    for n in os.listdir(d):
        with open(os.path.join(d, n), "rb") as f:
            have[n] = f.read()
    for n in sorted(set(have) | set(files)):
        if n not in have:
            return "%s: the file %r is gone" % (shown, n)
        if n not in files:
            return "%s: an unexpected file %r was written" % (shown, n)
        if have[n] != files[n]:
            return "%s: the %s file has %r, expected %r" % (shown, "output" if n == outname else "input", diff(have[n], files[n]), diff(files[n], have[n]))
    if tofile:
        c.count("output files compared")
        if dst != "new":
            c.count("overwritten files")


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 20):i + 60]


NAMES = [("in.md", "out.html"), ("a b.md", "c d.html"), ("é日.md", "ü.html"), ("in", "out"), ("x.txt", "x.txt.html"), ("in.md", "in.html"), ("'q'.md", "\"o\".html")]


def BIG(text):
    return {"text": text, "mode": "", "src": "file", "dst": "stdout", "names": list(NAMES[0]), "rel": True, "order": 0, "how": "in", "env": 0}


def gens(c):
    docs = [(3, G.document), (1, G.block_soup), (1, G.link_doc), (1, G.spec_mutant), (1, lambda r: G.any_doc(r, sut.REPO)), (1, G.rand_unicode), (.5, lambda r: r.choice(["", "\n", "a", "é\r\nb\rc", "\x00", "\ufeffa", "# h\n", "a\x0bb\x1cc\u2028d\x85e\n", "a\tb", "x" * 9000, "- a\n" * 3000, "%s %d {0}", "\r", "a\n\x1a\nb\n"]))]

    def case(how):
        def g(r):
            x = r.random() * sum(w for w, _ in docs)
            for w, f in docs:
                x -= w
                if x <= 0:
                    break
            mode = r.choice(["", "", "-aj", "-a"])
            return {"text": f(r), "mode": mode, "src": r.choice(["file", "file", "stdin", "dash"]), "dst": r.choice(["stdout", "bare", "dash"] if mode == "-a" else ["stdout", "stdout", "new", "longer", "shorter", "same", "bare", "dash"]),
                    "names": list(r.choice(NAMES)), "rel": r.random() < .6, "order": r.randrange(3), "how": how, "env": r.randrange(len(ENVS))}
        return g
    return [(4, "in process", case("in")), (1, "subprocess", case("sub"))]


def smaller(case):
    for t in harness.smaller(case["text"]):
        yield dict(case, text=t)
