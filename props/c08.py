"""C08: protocols: layout, copies and JSON descriptions are equivalent."""

from copy import copy
from io import BytesIO
import json

from mc import refcodec as ref
from mc.core import Check, expect, expect_eq

ITEMS = [
    "u8",
    "i16",
    "dbl",
    "bool",
    "enum",
    "enum16",
    "benum",
    "array",
    "bits",
    "bits16",
    "prefixed",
    "fixed2",
]
MEMBERS = {"zero": 0, "one": 1, "big": 200}
STATES = {"off": False, "on": True}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.codec.protocol import Protocol, ProtocolFactory
    from runtimepy.enum.registry import EnumRegistry
    from runtimepy.primitives import create
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk

    thorough = tier == "thorough"
    check = Check(
        "C08",
        tier,
        kind="model_checking",
        rule=(
            "every declaration sequence up to the length, every byte order, "
            "every chain of derivations (copy, JSON import/export) up to the "
            "length; each derived protocol must serialize, parse, resolve "
            "and describe itself like the model, without sharing state"
        ),
        bounds={
            "items": ITEMS,
            "declarations": 3 if thorough else 2,
            "derivations": 3 if thorough else 2,
        },
    )

    class Model:
        """Expected layout and values of a protocol."""

        def __init__(self, order: str) -> None:
            self.order = order
            # (name, what, payload)
            self.items: list = []
            self.names: list[str] = []

        def data(self, values: dict) -> bytes:
            """Expected bytes."""
            out = b""
            for name, what in self.items:
                out += self.item(name, what, values)
            return out

        def item(self, name, what, values) -> bytes:
            """Bytes of an item."""
            order = self.order

            def enc(kind, val):
                return ref.encode(kind, val, order)

            if what == "u8":
                return enc("uint8", values[name])
            if what == "i16":
                return enc("int16", values[name])
            if what == "dbl":
                return enc("double", values[name])
            if what == "bool":
                return enc("bool", values[name])
            if what in ("enum", "benum"):
                return enc("uint8", int(values[name]))
            if what == "enum16":
                return enc("uint16", int(values[name]))
            if what == "array":
                return enc("uint32", values[name]) + values[name + "#rest"]
            if what == "bits":
                return enc(
                    "uint8",
                    values[name + ".f"]
                    | values[name + ".w"] << 1
                    | values[name + ".e"] << 6,
                )
            if what == "bits16":
                return enc(
                    "uint16",
                    values[name + ".w"] << 3 | values[name + ".f"] << 15,
                )
            if what == "prefixed":
                text = values[name].encode()
                return enc("uint16", len(text)) + text
            return values[name].encode() + values[name + "#rest"]

        def fields(self) -> list:
            """Names and types that can be accessed."""
            out = []
            for name, what in self.items:
                if what == "bits":
                    out += [
                        (name + ".f", "flag"),
                        (name + ".w", "w5"),
                        (name + ".e", "eflag"),
                    ]
                elif what == "bits16":
                    out += [(name + ".w", "w12"), (name + ".f", "flag")]
                else:
                    out.append((name, what))
            return out

    VALS = {
        "u8": (0, 200, 7),
        "i16": (0, -300, 9),
        "dbl": (0.0, -1.25, 1e9),
        "bool": (False, True, False),
        "enum": (0, 200, 1),
        "enum16": (0, 1, 200),
        "benum": (0, 1, 0),
        "array": (0, 0x01020304, 5),
        "flag": (0, 1, 0),
        "eflag": (0, 1, 0),
        "w5": (0, 21, 31),
        "w12": (0, 0xABC, 1),
        "prefixed": ("", "hello", "é"),
        "fixed2": ("abc", "xyz", "qrs"),
    }

    def declare(proto, model: Model, what: str, num: int) -> None:
        """Add an item to both."""
        name = f"n{num}"
        before = proto.size
        if what == "u8":
            proto.add_field(name, "uint8")
        elif what == "i16":
            proto.add_field(name, "int16")
        elif what == "dbl":
            proto.add_field(name, "double")
        elif what == "bool":
            proto.add_field(name, "bool")
        elif what == "enum":
            proto.add_field(name, enum="Members")
        elif what == "enum16":
            proto.add_field(name, "uint16", enum="Members")
        elif what == "benum":
            proto.add_field(name, enum="States")
        elif what == "array":
            proto.add_field(name, "uint32", array_length=3)
        elif what == "bits":
            with proto.add_bit_fields() as fields:
                fields.flag(name + ".f")
                fields.field(name + ".w", 5)
                fields.flag(name + ".e", enum="States")
        elif what == "bits16":
            with proto.add_bit_fields("uint16") as fields:
                fields.pad(width=3)
                fields.field(name + ".w", 12)
                fields.flag(name + ".f")
        elif what == "prefixed":
            proto.add_field(
                name,
                serializable=PrefixedChunk(
                    create("uint16"), byte_order=proto.array.byte_order
                ),
            )
        else:
            proto.add_field(
                name, serializable=FixedChunk(b"abc"), array_length=2
            )
        model.items.append((name, what))
        sizes = {
            "u8": 1,
            "i16": 2,
            "dbl": 8,
            "bool": 1,
            "enum": 1,
            "enum16": 2,
            "benum": 1,
            "array": 12,
            "bits": 1,
            "bits16": 2,
            "prefixed": 2,
            "fixed2": 6,
        }
        expect_eq(proto.size - before, sizes[what], "size of", what)

    def values_of(model: Model, pick: int) -> dict:
        """A value assignment."""
        out: dict = {}
        for name, kind in model.fields():
            out[name] = VALS[kind][pick]
            if kind == "array":
                out[name + "#rest"] = bytes(8)
            elif kind == "fixed2":
                out[name + "#rest"] = b"abc"
        return out

    def assign(proto, model: Model, values: dict, names: bool) -> None:
        """Set all fields."""
        for name, kind in model.fields():
            val = values[name]
            if names and kind in ("enum", "enum16"):
                val = {y: x for x, y in MEMBERS.items()}[val]
            elif names and kind in ("benum", "eflag"):
                val = "on" if val else "off"
            proto[name] = val

    def expect_values(proto, model: Model, values: dict) -> None:
        """Compare every field."""
        for name, kind in model.fields():
            val = values[name]
            resolved: object = val
            if kind in ("enum", "enum16"):
                resolved = {y: x for x, y in MEMBERS.items()}[val]
            elif kind in ("benum", "eflag"):
                resolved = "on" if val else "off"
            elif kind == "flag":
                resolved = bool(val)
            expect_eq(proto[name], resolved, "value of", name, kind)
            if kind not in ("prefixed", "fixed2"):
                expect_eq(
                    proto.value(name, resolve_enum=False), val, "raw", name
                )
                expect_eq(proto.value(name), resolved, "resolved", name)

    def expect_bytes(proto, model: Model, values: dict) -> bytes:
        """Compare the wire format."""
        want = model.data(values)
        with BytesIO() as stream:
            expect_eq(proto.array.to_stream(stream), len(want), "size")
            expect_eq(stream.getvalue(), want, "wire format", model.items)
        expect_eq(proto.size, len(want), "protocol size")
        return want

    def scenario(chooser, stats):
        order = chooser.pick(list(ref.ORDERS))
        count = 3 if thorough else 2
        picks = [chooser.pick(ITEMS, "item") for _ in range(count)]
        model = Model(order)
        enums = EnumRegistry.create({})
        enums.enum("Members", "int", items=dict(MEMBERS))
        enums.enum("States", "bool", items=dict(STATES))
        ident = chooser.pick([1, 9])
        given = chooser.pick(["enum", "name"])
        proto = Protocol(
            enums,
            identifier=ident,
            byte_order=(
                ByteOrder[order] if given == "enum" else order.lower()
            ),
        )
        for num, what in enumerate(picks):
            declare(proto, model, what, num)
        jsonable = not set(picks) & {"prefixed", "fixed2"}
        zero = values_of(model, 0)
        expect_values(proto, model, zero)
        expect_bytes(proto, model, zero)
        one = values_of(model, 1)
        assign(proto, model, one, chooser.pick([True, False]))
        expect_values(proto, model, one)
        data = expect_bytes(proto, model, one)

        protos = [(proto, one)]
        routes = []
        for _ in range(3 if thorough else 2):
            options = ["copy", "grow"]
            if jsonable:
                options += ["json", "rawjson"]
            route = chooser.pick(options, "derive")
            routes.append(route)
            parent, pvals = protos[-1]
            if route == "copy":
                child = copy(parent)
            elif route == "grow":
                # Growing a copy doesn't affect what it was copied from.
                grown = copy(parent)
                grown.add_field(f"extra{len(protos)}", "uint8")
                expect_bytes(parent, model, pvals)
                expect(str(parent), "string")
                child = copy(parent)
            else:
                resolve = route == "json"
                text = json.dumps(parent.export_json(resolve_enum=resolve))
                with BytesIO() as stream:
                    expect_eq(
                        parent.write_meta(stream, resolve_enum=resolve),
                        len(text),
                        "metadata size",
                    )
                    expect_eq(
                        stream.getvalue().decode(), text, "metadata"
                    )
                blob = json.loads(text)
                child = Protocol.import_json(blob)
                expect_eq(
                    blob, json.loads(text), "imported data was modified"
                )
                # The description carries the values.
                expect_values(child, model, pvals)
                again = json.loads(
                    json.dumps(child.export_json(resolve_enum=resolve))
                )
                expect_eq(
                    again["build"], blob["build"], "exported build again"
                )
                expect_eq(
                    again.get("values"), blob.get("values"), "values again"
                )
                expect_eq(again["names"], blob["names"], "names again")
            if route in ("copy", "grow"):
                expect_values(child, model, pvals)
                expect_bytes(child, model, pvals)
            expect_eq(child.id, ident, "identifier")
            expect_eq(
                child.array.byte_order.fmt,
                ByteOrder[order].fmt,
                "byte order",
            )
            # Parses what the original wrote.
            with BytesIO(data + b"tail") as stream:
                if "prefixed" not in picks:
                    expect_eq(child.size, len(data), "size of derived")
                expect_eq(
                    child.array.from_stream(stream), len(data), "read size"
                )
                expect_eq(stream.read(), b"tail", "left over")
            expect_values(child, model, one)
            expect_bytes(child, model, one)
            # And doesn't share anything with earlier ones.
            two = values_of(model, 2)
            assign(child, model, two, True)
            expect_values(child, model, two)
            expect_bytes(child, model, two)
            for other, vals in protos:
                expect_values(other, model, vals)
                expect_bytes(other, model, vals)
            expect(str(child), "string")
            protos.append((child, two))
            stats.step()
        stats.state((order, tuple(picks), tuple(routes)))
        stats.outcome((order, tuple(picks), tuple(routes), data))
        return data

    check.add("derive", scenario, split=3, limit_s=60)

    def factory(chooser, stats):
        """Factory instances are independent, the singleton is shared."""
        picks = [chooser.pick(ITEMS) for _ in range(2)]
        model = Model("NETWORK")
        calls = []

        enums = EnumRegistry.create({})
        enums.enum("Members", "int", items=dict(MEMBERS))
        enums.enum("States", "bool", items=dict(STATES))

        class Sample(ProtocolFactory):
            """A sample factory."""

            protocol = Protocol(enums)

            @classmethod
            def initialize(cls, protocol) -> None:
                calls.append(1)
                for num, what in enumerate(picks):
                    declare(protocol, model, what, num)

        insts = [Sample.instance() for _ in range(3)]
        expect(Sample.singleton() is Sample.singleton(), "singleton")
        expect(Sample.singleton() not in insts, "singleton is an instance")
        expect_eq(len(calls), 1, "initialized")
        for num, inst in enumerate(insts):
            assign(inst, model, values_of(model, num), False)
        for num, inst in enumerate(insts):
            expect_values(inst, model, values_of(model, num))
            expect_bytes(inst, model, values_of(model, num))
        expect_values(Sample.singleton(), model, values_of(model, 0))
        later = Sample.instance()
        expect_values(later, model, values_of(model, 0))
        stats.outcome(tuple(picks))
        return tuple(picks)

    check.add("factory", factory, split=1)

    def decoded(chooser, stats):
        """Copies keep everything that was decoded."""
        picks = [chooser.pick(ITEMS) for _ in range(2)]
        order = chooser.pick(list(ref.ORDERS))
        enums = EnumRegistry.create({})
        enums.enum("Members", "int", items=dict(MEMBERS))
        enums.enum("States", "bool", items=dict(STATES))
        model = Model(order)
        proto = Protocol(enums, byte_order=ByteOrder[order])
        for num, what in enumerate(picks):
            declare(proto, model, what, num)
        one = values_of(model, 1)
        for name, what in model.items:
            if what == "array":
                one[name + "#rest"] = bytes(range(1, 9))
            elif what == "fixed2":
                one[name + "#rest"] = b"rst"
        zero = values_of(model, 2)
        data = model.data(one)

        def read(inst, blob):
            with BytesIO(blob + b"!") as stream:
                expect_eq(inst.array.from_stream(stream), len(blob), "read")

        read(proto, data)
        child = copy(proto)
        grand = copy(child)
        for inst in (proto, child, grand):
            expect_values(inst, model, one)
            expect_bytes(inst, model, one)
        read(child, model.data(zero))
        for inst in (proto, grand, copy(grand)):
            expect_values(inst, model, one)
            expect_bytes(inst, model, one)
        expect_bytes(child, model, zero)
        stats.outcome((tuple(picks), order))
        stats.step()
        return data

    check.add("decoded", decoded, split=1)

    def collisions(chooser, stats):
        """Fields can't have the name of another field."""
        picks = [chooser.pick(ITEMS) for _ in range(2)]
        again = chooser.pick(["field", "serializable", "bits"])
        route = chooser.pick(["same", "copy", "json"])
        enums = EnumRegistry.create({})
        enums.enum("Members", "int", items=dict(MEMBERS))
        enums.enum("States", "bool", items=dict(STATES))
        model = Model("NETWORK")
        proto = Protocol(enums)
        for num, what in enumerate(picks):
            declare(proto, model, what, num)
        one = values_of(model, 1)
        assign(proto, model, one, False)
        if route == "copy":
            proto = copy(proto)
        elif route == "json":
            if set(picks) & {"prefixed", "fixed2"}:
                return None
            proto = Protocol.import_json(
                json.loads(json.dumps(proto.export_json()))
            )
        for name, _ in model.fields():
            raised = None
            try:
                if again == "field":
                    proto.add_field(name, "uint16")
                elif again == "serializable":
                    proto.add_field(name, serializable=FixedChunk(b"abc"))
                else:
                    with proto.add_bit_fields() as fields:
                        fields.flag("other")
                        fields.flag(name)
            except Exception as exc:  # pylint: disable=broad-except
                raised = exc
            expect(raised is not None, "name used twice", name, again)
            expect_values(proto, model, one)
            expect_bytes(proto, model, one)
        # Others can be added.
        declare(proto, model, "bits", 5)
        declare(proto, model, "u8", 6)
        one.update({"n5.f": 0, "n5.w": 0, "n5.e": 0, "n6": 0})
        expect_values(proto, model, one)
        expect_bytes(proto, model, one)
        stats.outcome((tuple(picks), again, route))
        stats.step()
        return tuple(picks)

    check.add("collisions", collisions, split=1)
    return check
