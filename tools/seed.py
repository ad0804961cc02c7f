"""
Build and confirm seeded changes: seed.py SPEC.py [ID...]

SPEC defines SEEDS: a list of dictionaries with id, property, edits
[(file, old, new)], demo (python source), needs, breaks. Each is confirmed in a
scratch clone of /repo: applies, builds, stable tests pass, demo passes without
and fails with it. The property's check is run against the changed clone.
"""

from concurrent.futures import ThreadPoolExecutor
import json
import os
from pathlib import Path
import runpy
import shutil
import subprocess
import sys
import textwrap

ROOT = Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
BASELINE = Path("/opt/vp/BASELINE.json")
DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore -P "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys

sys.path.insert(0, os.getcwd())
"""


def sh(cmd, cwd=None, timeout=1200, env=None):
    """Run a command."""
    full = dict(os.environ)
    full.update(env or {})
    return subprocess.run(
        cmd,
        cwd=cwd,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=timeout,
        env=full,
        check=False,
    )


def stable() -> set:
    """Names of the stable tests."""
    data = json.loads(BASELINE.read_text())
    for key in ("stable", "passed", "pass", "tests"):
        if key in data:
            return set(data[key])
    raise KeyError(list(data))


def run_seed(seed, check_only: bool, tests: bool) -> str:
    """Build a seed."""
    sid = seed["id"]
    scratch = Path(f"/tmp/seed-{sid}")
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["cp", "-a", "/repo", str(scratch)])
    out = ROOT / "seeded" / sid
    report = [f"== {sid} ({seed['property']})"]
    try:
        if check_only:
            res = sh(["git", "apply", str(out / "patch.diff")], scratch)
            assert res.returncode == 0, res.stdout
        else:
            out.mkdir(parents=True, exist_ok=True)
            (out / "demo.py").write_text(
                HEAD + textwrap.dedent(seed["demo"]).lstrip("\n")
            )
            (out / "demo.sh").write_text(DEMO_SH)
            (out / "demo.sh").chmod(0o755)
            for name, content in seed.get("files", {}).items():
                (out / name).write_text(textwrap.dedent(content))
            (out / "meta.json").write_text(
                json.dumps(
                    {
                        "property": seed["property"],
                        "needs": seed["needs"],
                        "what_it_breaks": seed["breaks"],
                    },
                    indent=1,
                )
                + "\n"
            )
            clean = sh([str(out / "demo.sh")], scratch)
            report.append(f"  demo clean: {clean.returncode}")
            if clean.returncode:
                report.append(clean.stdout[-1500:])
            for name, old, new in seed["edits"]:
                path = scratch / name
                text = path.read_text()
                assert text.count(old) == 1, (sid, name, text.count(old), old)
                path.write_text(text.replace(old, new))
            diff = sh(["git", "diff"], scratch).stdout
            (out / "patch.diff").write_text(diff)
            demo = sh([str(out / "demo.sh")], scratch)
            report.append(
                f"  demo patched: {demo.returncode} "
                + demo.stdout.strip()[-200:].replace("\n", " | ")
            )
        if tests:
            script = Path("/opt/vp/test.sh").read_text()
            script = script.replace("/repo", str(scratch))
            test = Path(f"/tmp/seed-{sid}.sh")
            test.write_text(script)
            res_path = Path(f"/tmp/seed-{sid}.json")
            res = sh(["bash", str(test), str(res_path)], scratch)
            data = json.loads(res_path.read_text())
            passed = set(data.get("passed", data.get("pass", [])))
            lost = sorted(stable() - passed)
            report.append(f"  stable tests lost: {lost[:5]} {len(lost)}")
            test.unlink()
            res_path.unlink()
        res = sh(
            [str(ROOT / "check"), seed["property"], "quick"],
            ROOT,
            env={"MC_REPO": str(scratch), "MC_NO_OUTPUT": "1"},
        )
        lines = res.stdout.strip().splitlines()
        verdict = "CAUGHT" if res.returncode == 1 else f"MISSED rc={res.returncode}"
        report.append(f"  check: {verdict}")
        report += ["    " + x[:220] for x in lines[:3]]
        if res.returncode != 1:
            report += ["    " + x[:220] for x in lines[-5:]]
    except Exception as exc:  # pylint: disable=broad-except
        report.append(f"  ERROR {exc!r}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return "\n".join(report)


def main() -> None:
    """Entry."""
    args = sys.argv[1:]
    jobs = 2
    check_only = "--check" in args
    tests = "--no-tests" not in args and not check_only
    args = [x for x in args if not x.startswith("--")]
    if check_only:
        seeds = []
        for path in sorted((ROOT / "seeded").iterdir()):
            meta = json.loads((path / "meta.json").read_text())
            seeds.append({"id": path.name, "property": meta["property"]})
    else:
        seeds = runpy.run_path(args.pop(0))["SEEDS"]
    if args:
        seeds = [
            x for x in seeds if x["id"] in args or x["property"] in args
        ]
    with ThreadPoolExecutor(jobs) as pool:
        for text in pool.map(
            lambda x: run_seed(x, check_only, tests), seeds
        ):
            print(text, flush=True)


if __name__ == "__main__":
    main()
