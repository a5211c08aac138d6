"""Answers requests (JSON lines on stdin) with the library loaded as an old Python
would load it.  argv[1]: 'native', 'py33' (no html.entities.html5, no str.casefold),
'narrow' (additionally strings of UTF-16 code units, as Python 2's narrow builds)."""
import builtins
import sys

mode = sys.argv[1]
import html, html.entities, json, re, string, unicodedata, urllib.parse, argparse, importlib  # noqa: E401,E402,F401
import sut  # noqa: E402

real = sys.version_info, sys.maxunicode, builtins.chr


class NoFold(str):
    @property
    def casefold(self):
        raise AttributeError("casefold")


def drop():
    for m in [m for m in sys.modules if m == "commonmark" or m.startswith("commonmark.")]:
        del sys.modules[m]


def load(mode):
    drop()
    if mode == "native":
        return importlib.import_module("commonmark")
    builtins.chr = lambda i: NoFold(real[2](i))
    sys.version_info = (3, 3, 0, "final", 0)
    if mode == "narrow":
        sys.version_info, sys.maxunicode = (2, 7, 18, "final", 0), 0xffff
    try:
        if mode == "narrow":
            # this module alone: others would take Python 2 paths that cannot run here
            sys.version_info = (3, 3, 0, "final", 0)
            cm = importlib.import_module("commonmark.common")
            sys.version_info = (2, 7, 18, "final", 0)
            for m in [m for m in sys.modules if m == "commonmark.normalize_reference"]:
                del sys.modules[m]
            importlib.import_module("commonmark.normalize_reference")
            return cm
        return importlib.import_module("commonmark")
    finally:
        builtins.chr = real[2]
        if mode != "narrow":
            sys.version_info = real[0]
        sys.version_info, sys.maxunicode = real[0], real[1]


try:
    cm = load(mode)
except BaseException as e:
    # an error that only the simulation may cause says nothing
    print(json.dumps({"load": "%s: %s" % (type(e).__name__, str(e)[:200]), "own": not isinstance(e, (ImportError, AttributeError, NameError, SyntaxError, SystemExit, TypeError))}), flush=True)
    sys.exit(0)
nr = sys.modules["commonmark.normalize_reference"]
en = importlib.import_module("commonmark.entitytrans")
info = {"fold": nr.normalize_reference("[\u1e9e\u00df]"), "html5": sys.modules["commonmark.common"].html5 is en._html5}
try:
    info["bundled fold"] = "casefold" not in nr.normalize_reference.__code__.co_names
except AttributeError:
    info["bundled fold"] = None
print(json.dumps(info), flush=True)


def split16(s):
    return "".join(real[2](0xd800 + ((ord(x) - 0x10000) >> 10)) + real[2](0xdc00 + ((ord(x) - 0x10000) & 0x3ff)) if ord(x) > 0xffff else x for x in s)


def join16(s):
    return s.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")


def label(s):
    return join16(str(nr.normalize_reference(split16(s)))) if mode == "narrow" else str(nr.normalize_reference(s))


for ln in sys.stdin:
    q = json.loads(ln)
    try:
        if q["op"] == "label":
            a = label(q["text"])
        elif q["op"] == "labels":
            a = [label(s) for s in q["text"]]
        elif q["op"] == "html":
            a = cm.HtmlRenderer().render(cm.Parser().parse(q["text"]))
        elif q["op"] == "unescape":
            a = en._unescape(q["text"])
        r = {"r": a}
    except Exception as e:
        r = {"e": repr(e)[:300]}
    print(json.dumps(r), flush=True)
