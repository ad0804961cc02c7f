"""Writes DESIGN.md from the properties, checks, seeds and findings."""

import importlib
import json
from pathlib import Path
import sys

ROOT = Path(__file__).resolve().parents[1]
sys.path[:0] = [str(ROOT), "/repo"]


def main() -> None:
    """Entry."""
    import runtimepy.net.server.websocket  # noqa

    props = [
        json.loads(x)
        for x in (ROOT / "properties.jsonl").read_text().splitlines()
    ]
    manifest = {
        x["property"]: x
        for x in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]
    }
    notes = json.loads((ROOT / "tools" / "design_notes.json").read_text())
    out = [(ROOT / "tools" / "design_head.md").read_text().rstrip(), ""]
    out += ["## Properties", ""]
    for prop in props:
        pid = prop["id"]
        mod = importlib.import_module(f"props.{pid.lower()}")
        quick, full = mod.build("quick"), mod.build("thorough")
        note = notes.get(pid, {})
        out.append(f"### {pid}: {prop['title']}")
        out.append("")
        out.append(f"*Method* ({manifest[pid]['technique']}): {quick.rule}.")
        out.append("")
        bounds = ", ".join(f"{k}: {v}" for k, v in quick.bounds.items())
        diff = ", ".join(
            f"{k}: {v}"
            for k, v in full.bounds.items()
            if quick.bounds.get(k) != v
        )
        out.append(
            f"*Bounds*: {bounds}"
            + (f"; thorough: {diff}" if diff else "")
            + f". {len(quick.scenarios)} scenarios; quick takes about "
            f"{note.get('cost', '?')}."
        )
        out.append("")
        out.append(f"*Oracle*: {note.get('oracle', '?')}")
        out.append("")
        out.append(f"*Why tests can't*: {note.get('why', '?')}")
        if note.get("not"):
            out += ["", f"*Not judged*: {note['not']}"]
        out.append("")
    out.append((ROOT / "tools" / "design_tail.md").read_text().rstrip())
    out += [
        "",
        "## Planted bugs",
        "",
        "Each is in `seeded/<id>` and was confirmed to pass the stable tests; "
        "the check named is that of its property (all are quick checks).",
        "",
        "| bug | needs | caught by |",
        "|---|---|---|",
    ]
    caught = json.loads((ROOT / "tools" / "caught.json").read_text())
    for path in sorted((ROOT / "seeded").iterdir()):
        meta = json.loads((path / "meta.json").read_text())
        needs = " ".join(meta["needs"].split())
        out.append(f"| {path.name} | {needs} | {caught.get(path.name, '?')} |")
    out += [
        "",
        "## Genuine defects that were found",
        "",
        "Each was shown by a check on the real code and repaired by its own "
        "`fix:` commit in /repo (`known_findings.json` has the same list):",
        "",
    ]
    for item in json.loads((ROOT / "known_findings.json").read_text())[
        "findings"
    ]:
        out.append(f"* {item.get('entry') or item.get('what')}")
    (ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
