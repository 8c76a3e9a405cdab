#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, subprocess, props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if "verification hook" in l]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "bongo_verif (rustc cfg)", "enable": "RUSTFLAGS=--cfg bongo_verif when building the harness crate, which has a path dependency on /repo", "source_commits": hooks},
    "checks": [], "not_applicable": [],
    "notes": "check.py decides one property; props.py lists entry points and bounds; symx/ is the symbolic executor; see DESIGN.md",
}
for i in ids:
    if i in props.PROPS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": props.PROPS[i].get("technique", "exhaustive symbolic execution (symx, z3) of the LLVM IR of the real code within bounds; counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": "Every feasible path of the real code within the bounds is executed symbolically, each branch on symbolic data decided by z3; nothing is claimed outside them. Bounds: "
                + " | ".join(e["name"] + ": " + e["bounds"] for e in props.PROPS[i]["entries"] if e.get("tier", "both") in ("both", "quick"))
                + ". Outside: " + props.PROPS[i]["outside"] + ". Trusted: symx (checked by native replay of sampled paths), z3, rustc's IR.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
