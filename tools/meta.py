"""Source of properties.jsonl and MANIFEST.json (run: python tools/meta.py)."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PROPS: list[dict] = []
LEVELS: dict[str, tuple[str, str, str]] = {}
NOT_APPLICABLE: dict[str, str] = {}


def prop(
    pid,
    title,
    statement,
    over,
    quant,
    why,
    files,
    mechanism,
    level,
    technique,
    note,
    state=(),
    observe=(),
):
    """Register a property."""
    assert len(title) <= 80, title
    for name in list(files) + [x[-1] for x in [*mechanism, *state]]:
        assert (Path("/repo/runtimepy") / name).exists(), name
    PROPS.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": list(over), "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": [f"runtimepy/{x}" for x in files],
                "state": [
                    {"name": n, "meaning": m, "where": f"runtimepy/{w}"}
                    for n, m, w in state
                ],
                "mechanism": [
                    {"name": n, "where": f"runtimepy/{w}"}
                    for n, w in mechanism
                ],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )
    LEVELS[pid] = (level, technique, note)


def main() -> None:
    """Write the files."""
    # pylint: disable=import-outside-toplevel
    import property_text

    property_text.register(prop)
    have = {
        x.stem.upper() for x in (ROOT / "props").glob("c[0-9][0-9].py")
    }
    PROPS.sort(key=lambda x: x["id"])
    with (ROOT / "properties.jsonl").open("w", encoding="utf-8") as fd:
        for item in PROPS:
            fd.write(json.dumps(item) + "\n")
    checks = []
    missing = []
    for item in PROPS:
        pid = item["id"]
        if pid not in have:
            missing.append(
                {"property": pid, "reason": "no check has been built yet"}
            )
            continue
        level, technique, note = LEVELS[pid]
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} quick",
                "thorough_cmd": f"./check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": technique,
                "level": level,
                "level_note": note,
            }
        )
    for pid, reason in NOT_APPLICABLE.items():
        missing.append({"property": pid, "reason": reason})
    manifest = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": checks,
        "not_applicable": missing,
        "notes": (
            "All checks run the real Python code of /repo under an explorer "
            "(mc/core.py) and, for asynchronous code, a virtual event loop "
            "(mc/vloop.py). No hooks in /repo. See DESIGN.md."
        ),
    }
    (ROOT / "MANIFEST.json").write_text(
        json.dumps(manifest, indent=1) + "\n", encoding="utf-8"
    )
    print(len(checks), "checks,", len(missing), "not applicable")


if __name__ == "__main__":
    import sys

    sys.path.insert(0, str(Path(__file__).resolve().parent))
    import meta

    meta.main()
