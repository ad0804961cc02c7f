"""C04: bit-fields: isolation, allocation, export and copies."""

import copy
import json

from mc.core import Check, System, Violation, expect, expect_eq

BITS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.enum.registry import EnumRegistry
    from runtimepy.primitives import create
    from runtimepy.primitives.field import BitField, BitFlag
    from runtimepy.primitives.field.fields import BitFields
    from runtimepy.primitives.field.manager import BitFieldsManager
    from runtimepy.registry.name import NameRegistry

    thorough = tier == "thorough"
    check = Check(
        "C04",
        tier,
        kind="model_checking",
        rule=(
            "every field position x every (raw, assigned) value for 8-bit "
            "storage and boundary patterns for wider storage; every history "
            "of allocations, assignments, exports and reloads up to the "
            "depth, against a model of claimed bits"
        ),
        bounds={
            "exhaustive": "uint8 raw x value",
            "history_depth": "4 full, 6 merged" if thorough else "3/5",
        },
    )

    def isolation(kind: str, index: int):
        bits = BITS[kind]

        def run(_, stats):
            prim = create(kind)
            seen = []
            prim.register_callback(lambda a, b: seen.append((a, b)))
            for width in range(1, bits - index + 1):
                if width == 1:
                    field = BitFlag("f", prim, index)
                else:
                    field = BitField("f", prim, index, width)
                mask = (1 << width) - 1
                if kind == "uint8":
                    raws = range(256)
                    vals = list(range(0, min(256, mask + 3))) + [-1, 300]
                    if not thorough:
                        vals = [x for x in vals if x < 4 or x > mask - 3]
                else:
                    full = (1 << bits) - 1
                    raws = [
                        0,
                        full,
                        full // 3,
                        full - full // 3,
                        1 << index,
                        full ^ (1 << index),
                        mask << index,
                        full ^ (mask << index),
                        1,
                        1 << (bits - 1),
                    ]
                    vals = [0, 1, mask, mask - 1, mask // 3, mask + 1, -1]
                expect_eq(
                    field.where_str(),
                    "".join(
                        "^" if index <= i < index + width else "-"
                        for i in range(bits)
                    ),
                    "where",
                )
                for raw in raws:
                    prim.value = raw
                    expect_eq(field(), (raw >> index) & mask, "read", raw)
                    expect_eq(prim.value, raw, "reading changed the value")
                    flip = field.invert()
                    expect_eq(
                        flip, ~(raw >> index) & mask, "inverted", raw
                    )
                    expect_eq(
                        prim.value, raw ^ (mask << index), "after invert"
                    )
                    for val in vals:
                        prim.value = raw
                        seen.clear()
                        got = field(val)
                        want = (raw & ~(mask << index)) | (
                            (val & mask) << index
                        )
                        if (got, prim.value, field()) != (
                            val & mask,
                            want,
                            val & mask,
                        ):
                            raise Violation(
                                f"{kind}[{index}:{width}] raw={raw} "
                                f"val={val}: {got} {prim.value} {field()}"
                            )
                        if seen != ([(raw, want)] if raw != want else []):
                            raise Violation(f"notifications {seen}")
                        stats.step()
                    if width == 1:
                        for state in (True, False):
                            prim.value = raw
                            field.set(state)
                            expect_eq(field.get(), state, "flag", raw)
                            expect_eq(
                                prim.value,
                                raw & ~(1 << index) | (state << index),
                                "flag set",
                            )
                        field.set()
                        expect_eq(field.get(), True, "flag set")
                        field.clear()
                        expect_eq(field.get(), False, "flag cleared")
                        expect_eq(
                            prim.value, raw & ~(1 << index), "flag clear"
                        )
                stats.outcome((kind, index, width))

        return run

    for kind, bits in BITS.items():
        for index in range(bits):
            check.add(
                f"isolation/{kind}/{index}",
                isolation(kind, index),
                replay_every=0,
                limit_s=300.0,
            )

    def limits(_, stats):
        """Fields can't reach past their storage."""
        for kind, bits in BITS.items():
            for index in range(0, bits + 2):
                for width in range(1, bits + 3):
                    ok = True
                    try:
                        BitField("f", create(kind), index, width)
                    except AssertionError:
                        ok = False
                    expect_eq(
                        ok, index + width <= bits, "accepted", index, width
                    )
                    stats.step()
        stats.outcome("limits")

    check.add("limits", limits, replay_every=0)

    class Alloc(System):
        """Allocation in one storage element."""

        def __init__(self, kind: str, widths, indices) -> None:
            self.kind = kind
            self.bits = BITS[kind]
            self.impl = BitFields.new(kind)
            self.names: dict[str, tuple] = {}
            self.pads: list = []
            self.used = 0
            self.cursor = 0
            self.final = False
            self.raw = 0
            self.widths = widths
            self.indices = indices

        def ops(self):
            out = []
            for width in self.widths:
                for index in self.indices:
                    if width == 1:
                        out.append(("flag", len(self.names), index))
                    else:
                        out.append(("field", len(self.names), width, index))
                    if index != 3:
                        out.append(("pad", width, index))
            out += [
                ("flag", 0, None),
                ("field", 0, 2, None),
                ("badname", "flag"),
                ("badname", "field"),
                ("reload",),
                ("copy",),
            ]
            if not self.final:
                out.append(("finalize",))
            for name in self.names:
                out.append(("write", name, 1))
                out.append(("write", name, -1))
            if self.names:
                out.append(("raw", 0xA5))
            return out

        def _claim(self, width, index):
            """Model: where bits are claimed or None."""
            if self.final:
                return None
            if index is None:
                index = self.cursor
            mask = ((1 << width) - 1) << index
            if index + width > self.bits or mask & self.used:
                return None
            self.used |= mask
            self.cursor = max(self.cursor, index + width)
            return index

        def _attempt(self, func, claimed):
            try:
                result = func()
            except (AssertionError, KeyError, ValueError) as exc:
                expect(claimed is None, "valid allocation rejected", exc)
                return None
            expect(claimed is not None, "invalid allocation accepted")
            return result

        def apply(self, op):
            impl = self.impl
            what = op[0]
            if what in ("flag", "field"):
                name = f"n{op[1]}"
                width = 1 if what == "flag" else op[2]
                index = op[-1]
                at = None
                if name not in self.names:
                    at = self._claim(width, index)
                if what == "flag":
                    got = self._attempt(
                        lambda: impl.flag(name, index=index), at
                    )
                else:
                    got = self._attempt(
                        lambda: impl.field(name, width, index=index), at
                    )
                if got is not None:
                    expect_eq((got.index, got.width), (at, width), "place")
                    self.names[name] = (at, width)
            elif what == "pad":
                at = self._claim(op[1], op[2])
                got = self._attempt(
                    lambda: impl.pad(width=op[1], index=op[2]), at
                )
                if got is not None:
                    expect_eq(got, at, "padding index")
                    self.pads.append((at, op[1]))
                    self.raw &= ~(((1 << op[1]) - 1) << at)
            elif what == "badname":
                self._attempt(
                    lambda: (
                        impl.flag("no good")
                        if op[1] == "flag"
                        else impl.field("no good", 2)
                    ),
                    None,
                )
            elif what == "finalize":
                impl.finalize()
                self.final = True
            elif what == "write":
                at, width = self.names[op[1]]
                mask = (1 << width) - 1
                impl[op[1]](op[2])
                self.raw = (self.raw & ~(mask << at)) | (
                    (op[2] & mask) << at
                )
            elif what == "raw":
                impl.raw.value = op[1]
                self.raw = op[1] & ((1 << self.bits) - 1)
            elif what == "reload":
                data = json.loads(json.dumps(impl.asdict()))
                self.impl = BitFields.create(data)
                self._unclaimed()
            else:
                self.impl = copy.copy(impl)
                # Writing the copy leaves the original alone.
                before = impl.raw.value
                self.impl.raw.value = ~before
                expect_eq(impl.raw.value, before, "copy shares storage")
                self.impl.raw.value = before
                self._unclaimed()

        def _unclaimed(self):
            """Bits that aren't part of any field aren't exported."""
            mask = 0
            for at, width in self.names.values():
                mask |= ((1 << width) - 1) << at
            expect_eq(
                self.impl.raw.value & mask, self.raw & mask, "reloaded value"
            )
            self.raw &= ~self.used | mask
            self.impl.raw.value = self.raw

        def check(self):
            impl = self.impl
            expect_eq(impl.raw.value, self.raw, "storage")
            expect_eq(sorted(impl.names), sorted(self.names), "names")
            for name, (at, width) in self.names.items():
                want = (self.raw >> at) & ((1 << width) - 1)
                field = impl[name]
                expect_eq(
                    (field.name, field.index, field.width, field()),
                    (name, at, width, want),
                    "field",
                )
                expect(impl[at] is field, "lookup by index")
                expect(impl.get_field(name) is field, "get_field")
            expect(impl.get_field("missing") is None, "missing field")

        def key(self):
            return (
                self.kind,
                tuple(sorted(self.names.items())),
                tuple(sorted(self.pads)),
                self.used,
                self.cursor,
                self.final,
                self.raw,
            )

    full, merged = (4, 6) if thorough else (3, 5)
    check.add_histories(
        "alloc/uint8",
        lambda: Alloc("uint8", [1, 2, 3], [None, 0, 3, 6]),
        full,
        merged,
    )
    check.add_histories(
        "alloc/uint16",
        lambda: Alloc("uint16", [1, 5, 16], [None, 1, 11]),
        full,
        merged,
    )
    check.add_histories(
        "alloc/uint32", lambda: Alloc("uint32", [1, 31], [None, 31]), 3, 4
    )
    check.add_histories(
        "alloc/uint64", lambda: Alloc("uint64", [1, 63, 64], [None, 0]), 3, 4
    )

    class Manager(System):
        """Several storage elements behind one manager."""

        LAYOUTS = [
            ("uint8", [("a", 1, None), ("b", 3, "e")]),
            ("uint16", [("c", 9, None), ("d", 1, "o"), ("g", 2, None)]),
        ]

        def __init__(self) -> None:
            names = NameRegistry()
            enums = EnumRegistry()
            enum = enums.enum(
                "E", "int", {f"m{x}": x for x in range(8)}
            )
            state = enums.enum("O", "bool", {"on": True, "off": False})
            assert enum and state
            self.model: dict[str, int] = {}
            self.spec: dict[str, tuple] = {}
            self.mgr = BitFieldsManager(names, enums)
            for kind, fields in self.LAYOUTS:
                store = BitFields.new(kind)
                for name, width, enum_kind in fields:
                    ref_ = {"e": "E", "o": "O"}.get(enum_kind)
                    if width == 1:
                        store.flag(name, enum=ref_)
                    else:
                        store.field(name, width, enum=ref_)
                    self.model[name] = 0
                    self.spec[name] = (width, enum_kind)
                self.mgr.add(store)
            self.ids = {x: names.identifier(x) for x in self.model}
            self.old: list = []

        def ops(self):
            out = []
            for name, (width, enum) in self.spec.items():
                out.append(("set", name, (1 << width) - 1, "name"))
                out.append(("set", name, 1, "id"))
                out.append(("set", name, 0, "name"))
                if enum == "e":
                    out.append(("set", name, "m5", "name"))
                elif enum == "o":
                    out.append(("set", name, "on", "id"))
                elif width == 1:
                    out.append(("set", name, "true", "name"))
            out += [("json",), ("copy",)]
            return out

        def apply(self, op):
            if op[0] == "set":
                _, name, val, how = op
                key = name if how == "name" else self.ids[name]
                self.mgr.set(key, val)
                if isinstance(val, str):
                    val = {"m5": 5, "on": 1, "true": 1}[val]
                self.model[name] = val
            elif op[0] == "json":
                data = json.loads(json.dumps(self.mgr.export_json()))
                data2 = json.loads(
                    json.dumps(self.mgr.export_json(resolve_enum=False))
                )
                other = BitFieldsManager.import_json(data2)
                expect_eq(
                    other.values(), self.mgr.values(), "imported values"
                )
                self.mgr = BitFieldsManager.import_json(data)
            else:
                old = self.mgr
                self.mgr = copy.copy(old)
                self.old.append((old, old.values()))
            for old, vals in self.old:
                expect_eq(old.values(), vals, "copy changed the original")

        def check(self):
            expect_eq(sorted(self.mgr.lookup), sorted(self.model), "names")
            named = self.mgr.values()
            raw = self.mgr.values(resolve_enum=False)
            for name, val in self.model.items():
                width, enum = self.spec[name]
                want: object = val
                if enum == "e":
                    want = f"m{val}"
                elif enum == "o":
                    want = "on" if val else "off"
                elif width == 1:
                    want = bool(val)
                expect_eq(self.mgr.get(name), want, "get", name)
                expect_eq(self.mgr.get(self.ids[name]), want, "get by id")
                expect_eq(named[name], want, "values", name)
                expect_eq(raw[name], val, "raw values", name)
                expect_eq(self.mgr[name](), val, "field")
                expect(self.mgr.has_field(name), "has_field")
                if width == 1:
                    expect_eq(self.mgr.get_flag(name).get(), bool(val), "x")
                else:
                    try:
                        self.mgr.get_flag(name)
                        raise Violation("field treated as flag")
                    except KeyError:
                        pass

        def key(self):
            return (tuple(sorted(self.model.items())), len(self.old))

    def attributes(chooser, stats):
        """Everything that describes a field survives an export."""
        store = BitFields.new(chooser.pick(list(BITS)))
        expected = []
        for idx in range(2):
            what = chooser.pick(["flag", "field", "pad"])
            index = chooser.pick([None, idx * 4 + 1])
            if what == "pad":
                val = chooser.pick([0, 1, 3])
                at = store.pad(width=2, index=index, val=val)
                expected.append((at, 2, val))
                continue
            kwargs = {
                "enum": chooser.pick([None, 3, "E"]),
                "commandable": chooser.pick([False, True]),
                "description": chooser.pick([None, "words"]),
            }
            val = chooser.pick([0, 1])
            if what == "flag":
                made = store.flag(f"n{idx}", index=index, **kwargs)
            else:
                made = store.field(f"n{idx}", 2, index=index, **kwargs)
            made(val)
            expected.append((f"n{idx}", made.index, made.width, val, kwargs))
        if chooser.pick([False, True]):
            store.finalize()
        for step in range(2):
            data = json.loads(json.dumps(store.asdict()))
            store = BitFields.create(data)
            expect_eq(
                json.loads(json.dumps(store.asdict())), data, "exported again"
            )
            for item in expected:
                if len(item) == 3:
                    at, width, val = item
                    expect_eq(
                        (store.raw.value >> at) & ((1 << width) - 1),
                        val,
                        "padding value",
                    )
                    continue
                name, at, width, val, kwargs = item
                field = store[name]
                expect_eq(
                    (field.index, field.width, field()),
                    (at, width, val),
                    "field",
                )
                expect_eq(field.is_enum, kwargs["enum"] is not None, "enum")
                if field.is_enum:
                    expect_eq(field.enum, kwargs["enum"], "enum key")
                expect_eq(
                    (field.commandable, field.description),
                    (kwargs["commandable"], kwargs["description"]),
                    "attributes",
                )
            stats.step()
        stats.outcome(repr(expected))
        return repr(expected)

    check.add("attributes", attributes, split=2)
    check.add_histories("manager", Manager, 3, 5 if thorough else 4)
    return check
