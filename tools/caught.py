"""Which checks exit 1 with each planted bug applied: python3-vt tools/caught.py [bug…]  (uses tools/seed.sh on /repo)
Writes tools/caught.json, from which tools/design.py fills the table of DESIGN.md."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "caught.json")


def main():
    caught = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for b in sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        text = subprocess.run([os.path.join(HERE, "tools", "seed.sh"), b], cwd=HERE, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, universal_newlines=True).stdout
        rc = dict(re.findall(r"check (C\d+) rc=(\d+)", text))
        caught[b] = [c for c, r in sorted(rc.items()) if r == "1"] or ["missed"]
        print(b, rc, flush=True)
        json.dump(caught, open(OUT, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    main()
