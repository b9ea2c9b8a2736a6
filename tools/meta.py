"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand; the outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
REALS = "Floats are treated as reals with an explicit undefined value; clang/opt, the VC generator vf/sexec.py and z3/cvc5 are trusted."


def mech(m, files):
    return [dict(name=m, where=", ".join(files))]


def prop(pid, title, statement, over, qtext, why, files, mechanism, note="", technique=None, level="proof", **anch):
    assert len(title) <= 80, title
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors=dict(files=files, mechanism=mech(mechanism, files), **anch)))
    PROPS[-1]["_"] = dict(note=note, technique=technique or "contracts on the real functions, VCs from their LLVM IR discharged by z3/cvc5", level=level)


def na(pid, title, statement, over, qtext, why, files, mechanism, reason):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors=dict(files=files, mechanism=mech(mechanism, files))))
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if k != "_"}) + "\n")
    checks = []
    for p in PROPS:
        if "_" not in p:
            continue
        x = p["_"]
        checks.append(dict(property=p["id"], quick_cmd="python3-vt -m vf.check %s" % p["id"], thorough_cmd="python3-vt -m vf.check %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=x["technique"], level=x["level"], level_note=(x["note"] + " " + REALS).strip()))
    m = dict(version=1, setup_cmd="python3-vt -m vf.setup", checks=checks, not_applicable=NA)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
