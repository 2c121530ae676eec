"""Fill the list of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.txt (written by plant.py --check)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    caught = {}
    path = os.path.join(HERE, "caught.txt")
    if os.path.isfile(path):
        for line in open(path, encoding="utf-8"):
            sid, what = line.rstrip("\n").split("\t")
            caught[sid] = what
    lines = ["| bug | manifests with | breaks | found by |",
             "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*",
                                           "meta.json"))):
        sid = os.path.basename(os.path.dirname(f))
        m = json.load(open(f, encoding="utf-8"))
        lines.append("| %s | %s | %s | %s |" % (
            sid, m["needs"], m["what_it_breaks"],
            caught.get(sid, "not run yet")))
    text = "\n".join(lines)
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p, encoding="utf-8").read()
    a, b = "<!-- seeds -->\n", "\n<!-- end of seeds -->"
    s = re.sub(re.escape(a) + "(?s:.*)" + re.escape(b),
               lambda m: a + text + b, s)
    open(p, "w", encoding="utf-8").write(s)


if __name__ == "__main__":
    main()
