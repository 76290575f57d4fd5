"""Are the recorded known findings of a property still present?

usage: python -m pyvc.findings <ID> <out.json>

FINDINGS of a property module maps the id of a recorded finding to a probe of the real code, true while the
recorded input, call site or history still fails."""
import importlib
import json
import os
import sys


def main():
    pid, outp = sys.argv[1:3]
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    m = importlib.import_module("props." + pid.lower())
    out = {}
    for k, f in getattr(m, "FINDINGS", {}).items():
        try:
            out[k] = bool(f())
        except Exception:
            out[k] = True
    with open(outp, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
