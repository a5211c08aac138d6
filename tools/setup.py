"""setup_cmd: nothing to build (pure Python); checks that what the checks need is there."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
json.load(open(os.path.join(V, "MANIFEST.json")))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import refmodel
q = lambda s: s.replace("%5B", "[").replace("%5D", "]")       # either is allowed
bad = [e for e in json.load(open(os.path.join(V, "corpus", "spec_examples.json"), encoding="utf-8"))
       if q(refmodel.html(refmodel.parse(e["md"]))) != q(e["html"])]
print("reference model: %d spec examples differ" % len(bad))
sys.exit(1 if bad else 0)
