"""Imports the code under test from its working tree, never from stale bytecode."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
_pyc = tempfile.mkdtemp(prefix="verif-pyc-")
_owner = os.getpid()
sys.pycache_prefix = _pyc       # an empty cache: nothing stale is read, nothing is written


@atexit.register
def _clean():
    if os.getpid() == _owner:
        shutil.rmtree(_pyc, ignore_errors=True)


HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [REPO] + [p for p in sys.path if os.path.abspath(p or ".") != REPO]
if HERE not in sys.path:
    sys.path.append(HERE)

import commonmark  # noqa: E402
from commonmark import HtmlRenderer, Parser, ReStructuredTextRenderer, dumpAST, dumpJSON  # noqa: E402,F401
from commonmark.node import Node, NodeWalker  # noqa: E402,F401

PKG = os.path.join(REPO, "commonmark")
assert os.path.dirname(os.path.abspath(commonmark.__file__)) == PKG, commonmark.__file__

import canon as _canon  # noqa: E402


def parse(text, smart=None):
    return (Parser() if smart is None else Parser({"smart": smart})).parse(text)


def tree(text, smart=None, pos=False):
    return _canon.canon(parse(text, smart), pos)


def html(text, popts=None, ropts=None):
    p = Parser(popts) if popts is not None else Parser()
    r = HtmlRenderer(ropts) if ropts is not None else HtmlRenderer()
    return r.render(p.parse(text))


def rst(text):
    return ReStructuredTextRenderer().render(Parser().parse(text))


def printed(f, *a):
    """(what f(*a) prints, its result)"""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = f(*a)
    return b.getvalue(), r


def in_repo(filename):
    return os.path.abspath(filename).startswith(PKG + os.sep)
