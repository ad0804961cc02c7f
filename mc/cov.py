"""Records which lines of the code under test a check executes (MC_COV)."""

import atexit
import json
import os
import sys

LINES: dict = {}
TOOL = 3


def start(prefix: str) -> None:
    """Start recording."""
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "mc")

    def on_line(code, line):
        name = code.co_filename
        if name.startswith(prefix):
            LINES.setdefault(name[len(prefix) :], set()).add(line)
        return mon.DISABLE

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    atexit.register(dump)


def dump() -> None:
    """Write what was recorded by this process."""
    path = os.environ.get("MC_COV")
    if path:
        os.makedirs(path, exist_ok=True)
        with open(f"{path}/{os.getpid()}.json", "w", encoding="utf8") as out:
            json.dump({k: sorted(v) for k, v in LINES.items()}, out)
