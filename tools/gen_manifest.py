#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and the fixed: lines of known_findings.txt."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
TECH = {
 "session": "model-based property testing of real client-server sessions",
 "data": "stateful property testing against a reference model",
 "region": "property testing against a reference implementation",
 "cpp": "stateful property testing against a value model",
 "proc": "property testing with generated process behaviour and faults",
 "threads": "differential property testing of concurrent programs under ThreadSanitizer",
 "locale": "metamorphic property testing over the locales of the program",
}
T = {
 "C01": "round-trip property testing of messages over real sessions",
 "C02": "metamorphic property testing over generated read and write partitions",
 "C03": "metamorphic property testing with generated foreign lines",
 "C04": "differential property testing of generated message spellings",
 "C05": "fault enumeration over generated sessions (cut at generated byte positions)",
 "C06": "structure-aware fuzzing with sanitizers and validity predicates",
 "C12": "round-trip property testing over all channels and encodings",
 "C14": "round-trip property testing",
 "C15": "grammar-based fuzzing with sanitizers and round-trip oracle",
 "C25": "property testing with a byte-exact recording of the channel",
 "C27": "fault injection with generated tracker scripts against the real process wrapper",
 "C28": "property testing of generated commands and environments against what the started process saw",
 "C29": "round-trip property testing of generated trajectories",
 "C30": "property testing (hypothesis) of the package against plain values, alone and in sessions",
 "C31": "property testing of generated experiments against a model of the experiment protocol",
 "C32": "round-trip property testing of generated matrices against plain arrays",
 "C33": "model-based property testing of generated sessions between the server function and a C client",
 "C34": "property testing of generated callbacks against scripted tracker processes, with faults",
 "C39": "property testing of logs against what scripted trackers exchanged and wrote",
 "C40": "property testing of concurrent tracker processes with generated faults",
 "C26": "property testing with allocation and descriptor accounting",
}
NOTES = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        g = check.PROPS[i]["group"]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": T.get(i, TECH.get(g, "property testing")), "level": check.PROPS[i].get("level", "exploration"),
                       "level_note": NOTES.get(i, NOTES[g])})
    else: na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses public interfaces of an unmodified build with sanitizers. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
log = subprocess.run(["git", "-C", os.environ.get("TRAX_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    k = [k for k in FIXED if s.startswith(k)]
    if len(k) != 1: sys.exit("which property does this fix belong to? " + s)
    for i in FIXED[k[0]].split(): out.append("fixed: property=%s %s %s" % (i, h, s))
with open(os.path.join(here, "known_findings.txt"), "w") as f:
    f.write("# known: property=<id> <input, call site or history that fails>\n# fixed: property=<id> <commit> <what failed>\n")
    for k in KNOWN: f.write("known: property=%s %s\n" % k)
    f.write("\n".join(out) + "\n")
print(len(checks), "checks,", len(na), "not applicable,", len(out), "fixed entries,", len(KNOWN), "known")
