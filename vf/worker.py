"""Runs cases against the code under test (repository interpreter, PyPy).

usage: worker.py CHECK_MODULE          cases as JSON lines on stdin, results on stdout
       worker.py --replay FILE         one stored case, human readable verdict
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def run_one(mod, case):
    from vf.util import CheckFailure

    t = time.time()
    try:
        info = mod.run(case) or {}
        out = {"ok": True, "nontrivial": bool(info.get("nontrivial", True)),
               "classes": list(info.get("classes", [])),
               "known": dict(info.get("known", {}))}
    except CheckFailure as e:
        out = {"ok": False, "sig": e.sig, "detail": str(e)}
    except MemoryError:
        out = {"error": "MemoryError"}
    except Exception:  # a bug of the harness, never a verdict
        out = {"error": traceback.format_exc()}
    out["t"] = time.time() - t
    return out


def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module("checks." + rec["module"])
        for case in rec.get("before", []):  # state left behind by earlier cases
            run_one(mod, case)
        out = run_one(mod, rec["case"])
        print(json.dumps(out, indent=1))
        if "error" in out:
            sys.exit(2)
        if not out["ok"]:
            print("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[2]))
            print(out["detail"])
            sys.exit(1)
        for sig, what in out["known"].items():
            print("fails as the listed finding %r: %s" % (sig, what))
        print("holds")
        return
    # keep stdout for the protocol; whatever the code prints goes to stderr
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    mod = importlib.import_module("checks." + sys.argv[1])
    import sopht

    repo = os.environ.get("VERIF_REPO", "/repo")
    assert os.path.abspath(sopht.__file__).startswith(repo + "/"), sopht.__file__
    proto.write(json.dumps({"ready": True}) + "\n")
    proto.flush()
    for line in sys.stdin:
        out = run_one(mod, json.loads(line))
        proto.write(json.dumps(out) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
