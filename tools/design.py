"""Rewrites the generated parts of DESIGN.md (harness table, planted bugs): python3-vt tools/design.py"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def bounds(ps):
    s = ", ".join("{" + " ".join("%s=%s" % (k, short(v)) for k, v in p.items()) + "}" for p in ps[:6])
    return s + (" … %d in all" % len(ps) if len(ps) > 6 else "")


def short(v):
    s = str(v).replace("'", "")
    return s if len(s) < 60 else s[:57] + "…"


def harness_section():
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("harness." + p["id"].lower())
        out.append("\n#### %s %s\n" % (p["id"], p["title"]))
        for h in m.HARNESSES:
            q, t = h.h["quick"], h.h["thorough"]
            more = "" if t == q else "; thorough %s" % bounds([x for x in t if x not in q] or t)
            out.append("* `%s` — %s. Quick %s%s" % (h.__name__, " ".join((h.__doc__ or "").split()), bounds(q), more))
    return "\n".join(out) + "\n"


def bugs_section():
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    out = ["\n| bug | property | needs | caught by |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
        out.append("| %s | %s | %s | %s |" % (b, m["property"], needs.replace("|", "/").replace("\n", " "),
                                            ", ".join(caught.get(b, ["not recorded"]))))
    return "\n".join(out) + "\n"


def main():
    f = os.path.join(HERE, "DESIGN.md")
    s = open(f).read()
    for name, body in (("harnesses", harness_section()), ("bugs", bugs_section())):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)
    open(f, "w").write(s)


if __name__ == "__main__":
    main()
