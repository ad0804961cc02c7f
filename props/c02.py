"""C02: value-change notification and update timestamps."""

import math

from mc import refcodec as ref
from mc.core import Check, System, Violation, expect, expect_eq


class Clock:
    """A manual nanosecond clock."""

    def __init__(self) -> None:
        self.now = 1000

    def __call__(self) -> int:
        return self.now


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.primitives import create
    from runtimepy.primitives.array import PrimitiveArray

    thorough = tier == "thorough"
    check = Check(
        "C02",
        tier,
        kind="model_checking",
        rule=(
            "every history of assignments (through every assignment route), "
            "registrations and removals up to the depth, run on the real "
            "primitive next to a reference model of observers; states are "
            "(value, observers, received notifications)"
        ),
        bounds={
            "full_depth": 5 if thorough else 4,
            "observers": 3,
            "types": list(ref.SIZES),
        },
    )

    VALUES = {
        "bool": [False, True],
        "uint8": [0, 1, 255, 256, 257],
        "int8": [0, -1, 127, 128],
        "uint16": [0, 65535, 65536],
        "int16": [0, 32768, 7],
        "uint32": [0, 2**32, 9],
        "int32": [0, 2**31, -4],
        "uint64": [0, 2**64 - 1, -1],
        "int64": [0, 2**63, -(2**63)],
        "half": [0.0, 0.1, 1.5],
        "float": [0.0, 0.1, math.nan, 0.2],
        "double": [0.0, 0.1, math.nan, math.inf],
    }

    class Observed(System):
        """A primitive with observers against a model."""

        def __init__(self, kind: str) -> None:
            self.kind = kind
            self.clock = Clock()
            self.prim = create(kind, time_source=self.clock)
            self.value = self.prim.value
            self.stamp = self.clock.now
            # Model: observer number -> (ident, once, behaviour).
            self.model: dict[int, list] = {}
            self.got: list[list] = []
            self.want: list[list] = []
            self.contexts: dict[int, object] = {}
            self.optional: set[int] = set()
            self.removed_ids: list[int] = []

        def ops(self):
            out = [("set", x) for x in VALUES[self.kind]]
            out += [("stamped", VALUES[self.kind][1]), ("tick", 0)]
            if self.kind == "bool":
                out += [("toggle", 0)]
            elif self.kind in ref.INTS:
                out += [("inc", 1), ("incstamp", 255)]
            out += [("bytes", VALUES[self.kind][1])]
            if len(self.got) < 3:
                out += [
                    ("register", "plain"),
                    ("register", "once"),
                    ("register", "self_remove"),
                    ("register", "spawn"),
                    ("register", "context"),
                ]
                # Two of these would race to remove each other.
                if ["remove_other"] not in self.model.values():
                    out.append(("register", "remove_other"))
            for num in range(len(self.got)):
                out.append(("remove", num))
            return out

        def _observer(self, num: int, how: str):
            def callback(old, new) -> None:
                self.got[num].append((old, new))
                # The primitive already shows the new state.
                if new == new:
                    expect_eq(self.prim.value, new, "value when notified")
                expect_eq(
                    self.prim.last_updated_ns,
                    self.expected_stamp,
                    "timestamp when notified",
                )
                if how == "self_remove":
                    self.prim.remove_callback(self.ids[num])
                elif how == "remove_other":
                    for other in list(self.ids):
                        if other != num:
                            self.prim.remove_callback(self.ids[other])
                elif how == "spawn":
                    self.prim.register_callback(lambda a, b: None, once=True)

            return callback

        ids: dict[int, int]

        def apply(self, op):
            what, arg = op
            if not hasattr(self, "ids"):
                self.ids = {}
            prim = self.prim
            old = self.value
            assign = True
            self.expected_stamp = self.clock.now
            if what == "tick":
                self.clock.now += 7
                expect_eq(
                    prim.age_ns(), self.clock.now - self.stamp, "age"
                )
                return
            if what == "register":
                num = len(self.got)
                self.got.append([])
                self.want.append([])
                callback = self._observer(num, arg)
                if arg == "context":
                    ctx = prim.callback(callback)
                    ctx.__enter__()
                    self.contexts[num] = ctx
                    self.ids[num] = -1
                else:
                    ident = prim.register_callback(
                        callback, once=arg == "once"
                    )
                    expect(
                        ident not in self.ids.values(),
                        "identifier of a live observer reused",
                    )
                    self.ids[num] = ident
                self.model[num] = [arg]
                return
            if what == "remove":
                if arg in self.contexts:
                    ctx = self.contexts.pop(arg)
                    ctx.__exit__(None, None, None)
                elif self.ids[arg] == -1:
                    return
                else:
                    expect_eq(
                        prim.remove_callback(self.ids[arg]),
                        arg in self.model,
                        "remove_callback result",
                    )
                self.model.pop(arg, None)
                return

            if what == "set":
                prim.value = arg
                new = ref.stored(self.kind, arg)
            elif what == "stamped":
                self.expected_stamp = 5_000_000
                self._expect_notify(old, ref.stored(self.kind, arg))
                prim.set_value(arg, timestamp_ns=self.expected_stamp)
                new = ref.stored(self.kind, arg)
                assign = False
            elif what == "toggle":
                prim.toggle()
                new = not old
            elif what == "inc":
                prim.increment(arg)
                new = ref.stored(self.kind, old + arg)
            elif what == "incstamp":
                self.expected_stamp = 6_000_000
                prim.increment(arg, timestamp_ns=self.expected_stamp)
                new = ref.stored(self.kind, old + arg)
            else:
                val = ref.stored(self.kind, arg)
                prim.update(ref.encode(self.kind, val, "NETWORK"))
                new = ref.stored(
                    self.kind,
                    ref.decode(
                        self.kind,
                        ref.encode(self.kind, val, "NETWORK"),
                        "NETWORK",
                    ),
                )
            if assign:
                self._expect_notify(old, new)
            self.value = new
            self.stamp = self.expected_stamp

        def _expect_notify(self, old, new) -> None:
            if new == old or new != new:
                return
            gone = []
            maybe: set[int] = set()
            for num, (how,) in self.model.items():
                if how == "remove_other":
                    for other in self.model:
                        if other != num and self.model[other][0] != "context":
                            # Removed while the notification is going on:
                            # later ones may or may not see this change.
                            maybe.add(other)
            for num, (how,) in self.model.items():
                if num in maybe:
                    self.optional.add(num)
                self.want[num].append((old, new))
                if how in ("once", "self_remove"):
                    gone.append(num)
            for num in set(gone) | maybe:
                self.model.pop(num)

        def check(self):
            same = self.prim.value == self.value or (
                self.value != self.value and self.prim.value != self.prim.value
            )
            expect(same, "value", self.prim.value, self.value)
            expect_eq(self.prim.last_updated_ns, self.stamp, "timestamp")
            for num, got in enumerate(self.got):
                want = [self._clean(x) for x in self.want[num]]
                seen = [self._clean(x) for x in got]
                if num in self.optional:
                    expect(
                        seen in (want, want[:-1]),
                        f"notifications of removed observer {num}",
                        seen,
                        want,
                    )
                else:
                    expect_eq(
                        seen, want, f"{self.kind} notifications of {num}"
                    )

        @staticmethod
        def _clean(pair):
            return tuple("nan" if x != x else x for x in pair)

        def key(self):
            return (
                self.kind,
                repr(self.value),
                self.stamp,
                tuple((n, x[0]) for n, x in self.model.items()),
                tuple(len(x) for x in self.got),
            )

    check_kinds = list(ref.SIZES)
    for kind in check_kinds:
        depth = 4 if thorough else 3
        if kind in ("bool", "uint8", "float"):
            depth = 5 if thorough else 4
        if kind in ("uint8", "float") and not thorough:
            depth = 3
        check.add_histories(f"{kind}", lambda kind=kind: Observed(kind), depth)

    # Scaled assignment and array updates notify the same way.
    def scaled(chooser, stats):
        kind = chooser.pick(["uint8", "int16", "float"])
        prim = create(kind, scaling=[1.0, 2.0])
        got = []
        prim.register_callback(lambda a, b: got.append((a, b)))
        want = []
        cur = 0
        for _ in range(3):
            val = chooser.pick([1.0, 3.0, 11.0])
            new = int((val - 1) / 2)
            prim.scaled = val
            if new != cur:
                want.append((cur, new))
            cur = new
            stats.step()
        expect_eq(got, want, "scaled notifications")
        stats.outcome((kind, tuple(want)))
        return want

    check.add("scaled", scaled)

    def array(chooser, stats):
        kinds = [chooser.pick(list(ref.SIZES)) for _ in range(2)]
        clock = Clock()
        prims = [create(x, time_source=clock) for x in kinds]
        arr = PrimitiveArray(*prims)
        got: list = [[], []]
        for idx, prim in enumerate(prims):
            prim.register_callback(
                lambda a, b, idx=idx: got[idx].append((a, b))
            )
        cur = [x.value for x in prims]
        want: list = [[], []]
        for step in range(2):
            vals = [chooser.pick([0, 1]) for _ in range(2)]
            stamp = chooser.pick([None, 77 + step])
            clock.now += 5
            data = b"".join(
                ref.encode(k, v, "NETWORK") for k, v in zip(kinds, vals)
            )
            arr.update(data, timestamp_ns=stamp)
            for idx, val in enumerate(vals):
                if val != cur[idx]:
                    want[idx].append((cur[idx], val))
                cur[idx] = val
                expect_eq(prims[idx].value, val, "array value")
                expect_eq(
                    prims[idx].last_updated_ns,
                    clock.now if stamp is None else stamp,
                    "array timestamp",
                )
            expect_eq(got, want, "array notifications")
            stats.step()
        stats.outcome((tuple(kinds), repr(want)))
        return repr(want)

    check.add("array", array)

    def context(chooser, stats):
        """The managed observer is removed however its body ends."""
        how = chooser.pick(["normal", "raise", "nested"])
        prim = create("uint8")
        got = []

        class Boom(Exception):
            """Body failure."""

        try:
            with prim.callback(lambda a, b: got.append((a, b))):
                prim.value = 1
                if how == "raise":
                    raise Boom()
                if how == "nested":
                    with prim.callback(lambda a, b: got.append("n")):
                        prim.value = 2
        except Boom:
            pass
        before = list(got)
        prim.value = 9
        expect_eq(got, before, "notified after the context ended")
        expect_eq(
            before,
            [(0, 1)] if how != "nested" else [(0, 1), (1, 2), "n"],
            "notifications",
        )
        stats.outcome(how)
        return how

    check.add("context", context)

    def once_reassign(chooser, stats):
        """A one-shot observer that assigns is still called once."""
        kind = chooser.pick(["uint8", "bool", "double"])
        prim = create(kind)
        got = []

        def callback(old, new):
            got.append((old, new))
            if len(got) > 5:
                raise Violation("one-shot observer called repeatedly")
            prim.value = 0

        prim.register_callback(callback, once=True)
        prim.value = 1
        expect_eq(got, [(0, 1)], "one-shot notifications")
        prim.value = 1
        expect_eq(got, [(0, 1)], "one-shot notifications")
        stats.outcome(kind)
        return kind

    check.add("once_reassign", once_reassign)
    return check
