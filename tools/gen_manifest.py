#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
INPUT = ("stateless exhaustive exploration of the real code over all choices of a bounded input space, "
         "every execution compared with an independent executable reference model")
HIST = ("stateless exhaustive exploration of the real client under a controlled scheduler, simulated transport, "
        "server and clock; every execution checked against a reference model")
NOTE_I = ("Every case of the bounded space in coverage.scenarios is run on the real crates; nothing is sampled. "
          "Trusted: the reference model in mc/src, serde_json and tungstenite as oracles of plain JSON and frames. "
          "Shapes, lengths and alphabets beyond the bounds are not covered.")
NOTE_H = ("Every history of the bounded space, and every schedule and transport behaviour within the stated deviation "
          "bound, is run on the real client (async-tungstenite, futures and std locks included; only timers, "
          "channels' scheduling points and select's random order are substituted). Sequentially consistent memory; "
          "switches happen at lock, channel, transport and poll operations.")
DONE = os.environ.get("CHECKS", " ".join("C%02d" % i for i in range(1, 28))).split()
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "cfg(sio_mc)", "enable": "RUSTFLAGS='--cfg sio_mc' (set by check.sh)", "source_commits": []},
     "checks": [], "not_applicable": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
m["hooks"]["source_commits"] = [l.split()[0] for l in log.splitlines() if " hook:" in l]
for p in props:
    i = p["id"]
    if i not in DONE:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
        continue
    codec = int(i[1:]) <= 8 or i == "C25"
    m["checks"].append({"property": i,
        "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": INPUT if codec else HIST, "level": "model_checking",
        "level_note": NOTE_I if codec else NOTE_H})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
