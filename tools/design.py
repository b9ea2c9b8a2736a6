"""Appends the tables of planted changes and functions under contract to DESIGN.md (run by hand)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes\n"


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read().split(MARK)[0].rstrip() + "\n\n"
    s += MARK + "Each was confirmed in a scratch copy (demonstration quiet without, failing with it; stable tests pass) and is caught by the check of its property;\nS09 and S10 as `no-failing-input-found`.\n\n| id | caught by | what it breaks | needs |\n|---|---|---|---|\n"
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        s += "| %s | %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"])
    open(p, "w").write(s)


main()
