"""C40: The text interface shows what is, and its cursor stays inside."""

import asyncio
import curses

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

KEY_RESIZE = curses.KEY_RESIZE


class Grid:
    """A screen."""

    def __init__(self, height: int, width: int) -> None:
        self.height = height
        self.width = width
        self.cells = {}

    def row(self, num: int, first: int, last: int) -> str:
        """Text in a row."""
        return "".join(
            self.cells.get((num, x), " ") for x in range(first, last)
        )


class Window:
    """A window of a screen (parts of it share its contents)."""

    def __init__(self, grid, lines, cols, top=0, left=0) -> None:
        if lines <= 0 or cols <= 0:
            raise curses.error("size")
        if top + lines > grid.height or left + cols > grid.width:
            raise curses.error("outside")
        self.grid = grid
        self.lines = lines
        self.cols = cols
        self.top = top
        self.left = left
        self.pos = (0, 0)
        self.keys: list = []
        self.blocking = True

    def getmaxyx(self):
        """Get the size."""
        return self.lines, self.cols

    def resize(self, lines, cols) -> None:
        """Change the size."""
        self.lines, self.cols = lines, cols
        self.pos = (min(self.pos[0], lines - 1), min(self.pos[1], cols - 1))

    def move(self, y, x) -> None:
        """Move the cursor."""
        if not (0 <= y < self.lines and 0 <= x < self.cols):
            raise curses.error("move")
        self.pos = (y, x)

    def addstr(self, y, x, text) -> None:
        """Write some text."""
        self.move(y, x)
        if x + len(text) > self.cols:
            raise curses.error("addstr")
        for idx, char in enumerate(text):
            self.grid.cells[(self.top + y, self.left + x + idx)] = char

    def clear(self) -> None:
        """Clear contents."""
        for y in range(self.lines):
            for x in range(self.cols):
                self.grid.cells.pop((self.top + y, self.left + x), None)

    erase = clear

    def box(self) -> None:
        """Draw a border."""
        for y in range(self.lines):
            for x in range(self.cols):
                if y in (0, self.lines - 1) or x in (0, self.cols - 1):
                    self.grid.cells[(self.top + y, self.left + x)] = "#"

    def subwin(self, lines, cols, top, left):
        """Get a part."""
        return Window(self.grid, lines, cols, top, left)

    def nodelay(self, flag) -> None:
        """Don't wait for input."""
        self.blocking = not flag

    def noutrefresh(self) -> None:
        """Nothing to do."""

    refresh = noutrefresh

    def getch(self) -> int:
        """Get input."""
        if self.keys:
            return self.keys.pop(0)
        if self.blocking:
            raise AssertionError("waits for input")
        return -1


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.tui.cursor import Cursor
    from runtimepy.tui.task import TuiTask

    thorough = tier == "thorough"
    depth = 5 if thorough else 4
    check = Check(
        "C40",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of moves, changes of the size and resets of a "
            "cursor and every sequence of changes, keys and changes of the "
            "size of an interface up to the depth, for every initial size"
        ),
        bounds={"operations": depth},
    )

    # Cursors.
    SIZES = [(1, 1), (1, 3), (3, 2), (4, 4)]
    MOVES = [
        ("move", None, None),
        *(("move", y, None) for y in (0, 2, 3, 4, -1)),
        *(("move", None, x) for x in (0, 1, 3, 4, -1)),
        *(("move", y, x) for y, x in ((0, 0), (2, 1), (3, 3), (1, 9), (9, 1))),
        *(("x", x) for x in (1, 2, 0, -1, -3)),
        *(("y", y) for y in (1, 2, 0, -1, -3)),
        ("x",),
        ("y",),
        *(("size", y, x) for y, x in SIZES),
        ("poll",),
        ("reset",),
    ]

    def cursor(chooser, stats):
        size = chooser.pick(SIZES)
        grid = Grid(10, 10)
        window = Window(grid, *size)
        real = size
        known = size
        curs = Cursor(window)
        pos = (0, 0)
        order: list = [size]
        for _ in range(depth - 1):
            name, *args = chooser.pick(MOVES)
            order.append((name, *args))
            if name == "size":
                # The terminal changes, noticed later.
                window.lines, window.cols = real = tuple(args)
                name = "poll"
            if name in ("move", "x", "y"):
                if name == "move":
                    want = (
                        pos[0] if args[0] is None else args[0],
                        pos[1] if args[1] is None else args[1],
                    )
                    got = curs.move(
                        **{
                            key: val
                            for key, val in zip(("new_y", "new_x"), args)
                            if val is not None
                        }
                    )
                elif name == "x":
                    want = (pos[0], pos[1] + (args[0] if args else 1))
                    got = curs.inc_x(*args)
                else:
                    want = (pos[0] + (args[0] if args else 1), pos[1])
                    got = curs.inc_y(*args)
                okay = 0 <= want[0] < known[0] and 0 <= want[1] < known[1]
                expect_eq(got, okay, "result", order)
                if okay:
                    pos = want
            elif name == "poll":
                expect_eq(curs.poll_max(), known != real, "changed", order)
                known = real
                pos = (min(pos[0], known[0] - 1), min(pos[1], known[1] - 1))
            else:
                curs.reset()
                known = real
                pos = (0, 0)
            expect_eq((curs.y.value, curs.x.value), pos, "position", order)
            expect_eq(window.pos, pos, "cursor of the window", order)
            expect_eq((curs.height, curs.width), known, "size", order)
            stats.step()
        stats.state((known, pos))
        stats.outcome((known, pos))

    check.add("cursor", cursor, split=2, replay_every=9973, limit_s=240.0)

    # The interface.
    WINDOWS = [(24, 80), (20, 60), (40, 120), (24, 100)]
    VALUES = [
        ("b.int", 0),
        ("b.int", 7),
        ("b.int", -123456789),
        ("b.int", 12345678901),
        ("a.real", 0.5),
        ("a.real", 123456.25),
        ("a.real", -1.0),
        ("flag", True),
        ("flag", False),
    ]

    def text(value) -> str:
        """How values are shown."""
        if isinstance(value, float):
            return f"{value:.6f}"
        return str(int(value))

    def fake_curses():
        """Nothing of the terminal is used."""
        names = {
            "use_default_colors": lambda: None,
            "curs_set": lambda _: None,
            "doupdate": lambda: None,
            "keyname": lambda char: (
                b"KEY_RESIZE" if char == KEY_RESIZE else bytes([char])
            ),
        }
        for name, func in names.items():
            setattr(curses, name, func)

    def interface(chooser, stats):
        size = chooser.pick(WINDOWS)
        ops = [
            chooser.pick(
                [
                    *VALUES,
                    *(("size", x) for x in WINDOWS),
                    ("key", ord("q")),
                    ("key", KEY_RESIZE),
                    ("keys", None),
                ]
            )
            for _ in range(depth - 1)
        ]
        fake_curses()

        async def main(loop):
            env = ChannelEnvironment()
            env.int_channel("b.int", "int64")
            env.float_channel("a.real", "double")
            env.bool_channel("flag")
            task = TuiTask("ui", 0.1, env)
            window = Window(Grid(50, 150), *size)
            expect(await task.init(window), "not initialized")
            expect_eq(await task.init(window), False, "initialized again")
            real = known = size
            order: list = [size]

            def verify():
                """Verify what is visible."""
                lines, cols = known
                rows = [
                    window.grid.row(y, 0, cols).replace("#", " ").strip()
                    for y in range(lines)
                ]
                shown = {}
                for row in rows:
                    parts = row.split()
                    if parts and parts[0] in task.env.names:
                        expect(parts[0] not in shown, "twice", row, order)
                        shown[parts[0]] = parts[1:]
                # (At least, everything that fits is shown.)
                names = sorted(task.env.names)
                count = len(shown)
                expect(
                    count >= min(len(names), lines - 10),
                    "shown",
                    count,
                    order,
                )
                want = {
                    name: [text(task.env.value(name))]
                    for name in names[:count]
                }
                expect_eq(shown, want, "channels", order)
                for name, val in (("width", cols), ("height", lines)):
                    expect_eq(
                        task.env.value(f"ui.window.{name}"),
                        val,
                        name,
                        order,
                    )
                    expect(
                        [f"{name}:", str(val)]
                        in [x.split()[:2] for x in rows],
                        "header",
                        name,
                        rows[:8],
                        order,
                    )
                # (Borders of the window are intact.)
                for y in range(lines):
                    expect(
                        window.grid.cells.get((y, 0)) == "#"
                        and window.grid.cells.get((y, cols - 1)) == "#",
                        "border",
                        y,
                        order,
                    )

            expect(await task.dispatch(), "dispatch")
            verify()
            for name, arg in ops:
                order.append((name, arg))
                key = None
                if name == "size":
                    window.lines, window.cols = real = arg
                    window.keys.append(KEY_RESIZE)
                    known = real
                elif name == "key":
                    window.keys.append(arg)
                    key = arg
                elif name == "keys":
                    window.keys += [ord("a"), ord("b")]
                else:
                    env.set(name, arg)
                expect(await task.dispatch(), "dispatch", order)
                verify()
                if key is not None:
                    expect(
                        any(
                            str(key) in window.grid.row(y, 0, known[1])
                            for y in range(8)
                        ),
                        "key",
                        order,
                    )
                # Keys that are left.
                while window.keys:
                    expect(await task.dispatch(), "dispatch", order)
                    verify()
                stats.step()
            del loop

        run_loop(main, max_steps=10**5)
        stats.state((size, tuple(ops)))

    check.add("interface", interface, split=2, replay_every=997)
    return check
