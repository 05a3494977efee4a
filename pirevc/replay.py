"""Rebuild the harness of a replay file from /repo's current tree and rerun its failing input.

usage: python3-vt pirevc/replay.py REPLAY.json
exit 0: the input does not fail (any more), 1: it fails, 2: the file carries no input (a failed obligation only)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    d = json.load(open(sys.argv[1]))
    if "rerun" not in d:
        print(json.dumps(d, indent=1))
        print("no failing input in this file: rerun the check itself to see the obligation")
        return 2
    import framework
    h = framework.Harness(d["harness"], 1) if "harness" in d else framework.Harness(d["property"] + ".cpp", 1)
    exe = framework.build_harness(h)
    args = d["rerun"].split()[1:]
    return 1 if subprocess.call([exe] + args) else 0


sys.exit(main())
