"""Entry point of all checks: run_check.py PROPERTY [TIER] [--replay FILE]."""

import importlib
import json
import os
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, str(HERE))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main() -> int:
    """Run a check."""
    args = sys.argv[1:]
    prop = args[0]
    replay = None
    tier = os.environ.get("VERIF_TIER") or "quick"
    rest = args[1:]
    while rest:
        arg = rest.pop(0)
        if arg == "--replay":
            replay = json.loads(Path(rest.pop(0)).read_text())
            tier = replay["tier"]
        else:
            tier = arg
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()

    if os.environ.get("MC_COV"):
        from mc import cov  # pylint: disable=import-outside-toplevel

        cov.start(REPO + "/runtimepy/")

    import runtimepy  # pylint: disable=import-outside-toplevel

    assert str(Path(runtimepy.__file__).resolve()).startswith(
        str(Path(REPO).resolve())
    ), runtimepy.__file__

    from mc import core, vloop  # pylint: disable=import-outside-toplevel

    if os.environ.get("MC_COV"):
        core.CLEANUPS.append(cov.dump)
    vloop.mute_logging()
    vloop.patch_names()
    try:
        module = importlib.import_module(f"props.{prop.lower()}")
        check = module.build(tier)
    except Exception as exc:  # pylint: disable=broad-except
        if not core.repo_frames(exc):
            raise
        # The code under test fails before anything can be explored.
        check = core.Check(prop, tier, kind="exploration")

        def broken(*_, exc=exc) -> None:
            raise exc

        check.add("build", broken)
    if replay is not None:
        by_name = {x.name: x for x in check.scenarios}
        scen = by_name[replay["scenario"]]
        _, found, result = core.run_once(
            scen, replay["choices"], core.Stats()
        )
        if found is None:
            print(f"no violation on replay; result {core.short(result)}")
            return 0
        print(found.trace)
        print(f"replayed: {found.message}")
        return 1
    return check.finish(seed, start)


if __name__ == "__main__":
    from mc.core import main_exit

    main_exit(main())
