"""python3-vt -m vf.rerun <replay file>: run the recorded failing input again on the current code"""
import json, sys
from . import check


def main():
    d = json.load(open(sys.argv[1]))
    print(json.dumps({k: d[k] for k in d if k != "failed_obligations"}, indent=1)[:3000])
    for f in d.get("failed_obligations", []):
        print("obligation:", f["label"], f["status"])
    sys.argv = ["check", d["property"], "-v"] + (["--only", d["contract"]] if "contract" in d else [])
    check.main()


if __name__ == "__main__":
    main()
