#!/opt/venv/bin/python
"""Replay a recorded violation exactly:  replay.py replays/<file>.json"""

import sys

import check

if __name__ == "__main__":
    res = check.replay(sys.argv[1])
    for event in res.get("events", []):
        print("  ", *event)
    print(res["status"], res.get("cls", ""), res.get("message", ""), "digest", res.get("digest"))
    sys.exit(1 if res["status"] == "violation" else 0)
