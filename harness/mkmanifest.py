"""Writes MANIFEST.json from the property modules present."""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.load_sut()
import importlib  # noqa: E402

TECHNIQUE = "property-based testing (Hypothesis): "
checks, missing = [], []
for line in open(os.path.join(boot.VERIF, "properties.jsonl")):
    ident = json.loads(line)["id"]
    if not os.path.exists(os.path.join(boot.VERIF, "harness", "props", f"{ident.lower()}.py")):
        missing.append({"property": ident, "reason": "check not built yet"})
        continue
    module = importlib.import_module(f"props.{ident.lower()}")
    checks.append({
        "property": ident,
        "quick_cmd": f"./check.sh {ident} quick",
        "thorough_cmd": f"./check.sh {ident} thorough",
        "evidence_file": f"evidence/{ident}.json",
        "technique": TECHNIQUE + module.ORACLE,
        "level": "exploration",
        "level_note": "Random search over generated cases with shrinking; no counterexample in the explored cases, "
                      "not a proof. " + " ".join(getattr(module, "ASSUMPTIONS", [])),
    })
manifest = {
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "hooks": {"guard": "JINETE_VERIF", "enable": "no hooks are used: every check drives the public API of /repo as it is",
              "source_commits": []},
    "checks": checks,
    "not_applicable": missing,
    "notes": "check.sh <ID> [quick|thorough]; harness/run.py <ID> --replay <file> re-runs one saved input.",
}
with open(os.path.join(boot.VERIF, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
