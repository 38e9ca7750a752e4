"""mkseed.py SPEC.py ...: SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (Jython code), NEEDS, BREAKS; writes seeded/<ID>/."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input, 1 when it is broken
export PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$(dirname "$0")/demo.py" "$T/demo.py"
S="$PWD/src"
cd "$T" && timeout -k 5 200 jython -B "$T/demo.py" "$S"
'''
HEAD = 'import sys\nsys.path.insert(0, sys.argv[1])\n'
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(t, "w", f)
            s = open(p, encoding="latin-1").read()
            assert s.count(old) == 1, (g["ID"], f, s.count(old))
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + g["DEMO"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(g["ID"], len(diff))
