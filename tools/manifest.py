"""Writes MANIFEST.json from units.json and properties.jsonl. Run by hand; the result is committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "units.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = cfg["properties"].get(p["id"])
    if not c or c.get("na"):
        na.append({"property": p["id"], "reason": c["na"] if c else "no check yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": c.get("technique", "contract-based deductive verification with Verus of functions extracted from /repo; failing inputs searched on the real crate"),
                   "level": c["level"], "level_note": c.get("note", cfg["note"])})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "mutagenyx_verif", "enable": "RUSTFLAGS=\"--cfg mutagenyx_verif\" (set in /verif/harness/.cargo/config.toml)", "source_commits": cfg["hook_commits"]},
     "checks": checks, "not_applicable": na, "notes": cfg["notes"]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
