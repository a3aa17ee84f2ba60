"""Development helper: python3-vt tools/mkseed.py [id...] writes seeded/<id>/ from tools/seeds.py. No check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS, PRE  # noqa

want = set(sys.argv[1:])
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed_")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -Af . && "
                          "git -c user.name=x -c user.email=x@x commit -qm x" % (t, t), shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(t, f)
        src = open(p, encoding="utf-8", newline="").read()
        assert src.count(old) == 1, (s["id"], f, src.count(old), old)
        open(p, "w", encoding="utf-8", newline="").write(src.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t, "diff"])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# run in the repository: exit 0 when the property holds on this history\n"
        'exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
    print(s["id"])
