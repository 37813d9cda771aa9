import json
import sys

from .check import run_unit


def main():
    d = json.load(open(sys.argv[1]))
    print("property %s, clause %s" % (d["property"], d["clause"]))
    for w in d["recorded"]:
        for e in w["events"]:
            print("  recorded:", json.dumps(e)[:400])
    r = run_unit(d["unit"])
    print("run again:", json.dumps(r.get("bad", r.get("error"))))
    return 1 if r.get("bad") else 0


if __name__ == "__main__":
    sys.exit(main())
