"""Maintain the "fixed" entries of known_findings.json from /repo's log."""

import json
import subprocess
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PATH = ROOT / "known_findings.json"
BASE = "e5105fb"
# First property each fix commit (by subject) was found with.
MAP = json.loads((ROOT / "tools" / "fixed_map.json").read_text())


def main() -> None:
    """Rewrite the entries."""
    out = subprocess.check_output(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s",
         f"{BASE}..HEAD"],
        text=True,
    )
    data = json.loads(PATH.read_text())
    items = [x for x in data["findings"] if x.get("kind") != "fixed"]
    for line in out.splitlines():
        sha, subject = line.split("\t")
        if subject not in MAP:
            print("unmapped:", subject)
            continue
        what = subject.removeprefix("fix: ")
        items.append(
            {
                "kind": "fixed",
                "property": MAP[subject],
                "commit": sha,
                "entry": f"fixed: property={MAP[subject]} {sha} {what}",
            }
        )
    data["findings"] = items
    PATH.write_text(json.dumps(data, indent=1) + "\n")


if __name__ == "__main__":
    sys.exit(main())
