#!/usr/bin/env python3
"""Development helper: (re)writes known_findings.json. 'fixed' entries come from the fix: commits in /repo; nothing here runs during a check."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"baaa164": "C01", "c3598a3": "C01", "d3a23e6": "C04", "b531dc0": "C05", "6a05828": "C04", "ef15d22": "C03", "aecab24": "C04",
        "cb2b94c": "C04", "b20c10d": "C04", "96637b3": "C04", "e399795": "C01", "44e19ef": "C02", "93c8d50": "C14", "003d169": "C04",
        "9d9fe37": "C05", "97a12d4": "C03", "3690a5e": "C05", "0cb2d8d": "C05", "e60ecd0": "C04", "606aa8e": "C04",
        "bb4adc9": "C06", "8a468be": "C07", "1aedf46": "C07", "4f3c84a": "C07", "ddffc61": "C04", "cc6f684": "C07", "11e6735": "C03", "f5885e9": "C04",
        "7e0a58f": "C10", "6a351f7": "C10", "2966226": "C10",
        "b0275f2": "C15", "929e27a": "C15", "c47e288": "C15", "b554287": "C05", "1dfe9bd": "C05",
        "ceb81ac": "C14", "941049e": "C14", "058e541": "C14", "51b432d": "C14", "4513571": "C14", "91f7276": "C14", "7284448": "C14", "ded8e0b": "C14", "2e291f7": "C14", "5f3484e": "C14",
        "609d361": "C10", "d833ec9": "C10", "0a53f5a": "C10", "feaa08a": "C10", "01f9ac6": "C10", "187a7f7": "C10", "08f78dc": "C10", "f42d65b": "C10", "4a45ace": "C10", "01ea5de": "C10", "c20e13c": "C10", "b603c82": "C10", "2e83e56": "C10", "e6756b4": "C10", "3d55bb2": "C10"}
OPEN = []  # dicts: property, id, status "open", what
if os.path.exists(os.path.join(V, "tools/findings_open.json")):
    OPEN = json.load(open(os.path.join(V, "tools/findings_open.json")))
    PROP.update({k: v for e in OPEN for k, v in e.get("commits", {}).items()})
    OPEN = [e for e in OPEN if "commits" not in e]
out = list(OPEN)
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "1f2e869..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        what = s[5:]
        out.append({"property": PROP[h[:7]], "status": "fixed", "commit": h, "what": what,
                    "line": "fixed: property=%s %s %s" % (PROP[h[:7]], h, what)})
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
