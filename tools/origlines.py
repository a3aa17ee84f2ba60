"""Development helper: the lines each planted bug removes must be lines of the original repository."""
import glob
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
for p in sorted(glob.glob(HERE + "/seeded/*/patch.diff")):
    f, bad, removed = None, [], 0
    for l in open(p, encoding="utf-8"):
        m = re.match(r"--- a/(.*)", l)
        if m:
            f = m.group(1)
            old = subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True).stdout.decode().splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if l[1:].rstrip("\n") not in old:
                bad.append(l.rstrip())
    if bad or not removed:
        print(p.split("/")[-2], removed, bad)
