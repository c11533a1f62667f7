"""Writes MANIFEST.json from the registry: python3 -m harness.manifest"""
import json
import pathlib

from .registry import REGISTRY

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTE = (
    "TLC decides every recorded outcome against the TLA+ specification ({spec}); "
    "outcomes come from executing the public API on every case of the small-scope "
    "design models and on seeded random cases. Assurance is exhaustive within the "
    "model scope and by sampling beyond it; trusts TLC, the JSON projection of "
    "values in harness/ and numpy. {extra}"
)


def main():
    props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
    checks, rest = [], []
    for p in props:
        pid = p["id"]
        reg = REGISTRY.get(pid)
        if reg is None:
            rest.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "technique": "TLA+ specification, TLC model checking and trace validation "
                         "of the real code (both directions)",
            "level": "model_checking",
            "level_note": NOTE.format(spec=reg["trace"], extra=reg.get("note", "")).strip(),
        })
    json.dump({
        "version": 1, "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: every event is observed through the public API", "source_commits": []},
        "checks": checks, "not_applicable": rest,
        "notes": "Specification language: TLA+ checked with TLC. See DESIGN.md.",
    }, open(ROOT / "MANIFEST.json", "w"), indent=1)


main()
