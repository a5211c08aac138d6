"""Which checks catch which planted bugs; no check uses it.
  catch.py [-a] [ID ...]    run each bug's own check (-a: every check) on a copy of /repo with the bug
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
for b in args or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + b
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp()
    try:
        shutil.copytree("/repo", t + "/repo")
        subprocess.run(["git", "-C", t + "/repo", "apply", d + "/patch.diff"], check=True)
        env = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_EVIDENCE=t + "/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        own = []
        for c in ([prop] if "-a" not in sys.argv else ["C%02d" % i for i in range(1, 35)]):
            r = subprocess.run([sys.executable, V + "/run.py", c, "--tier", "quick"], capture_output=True, text=True, env=env, cwd=V)
            hit = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
            own.append("%s%s" % (c, "" if hit else "(missed)" if r.returncode == 0 else "(exit %d)" % r.returncode) if "-a" not in sys.argv else c if hit else "")
            if c == prop:
                what = [x for x in r.stdout.splitlines() if x.strip()][-3:]
        print(b, "own=" + prop, " ".join(x for x in own if x), "|", " ".join(what)[:300] if "-a" not in sys.argv else "", flush=True)
    finally:
        shutil.rmtree(t)
