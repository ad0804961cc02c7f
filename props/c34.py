"""C34: type systems resolve names and lay out custom types exactly."""

from io import BytesIO

from mc.core import Check, System, expect, expect_eq

SIZES = {
    "uint8": 1,
    "int8": 1,
    "uint16": 2,
    "uint32": 4,
    "uint64": 8,
    "int16": 2,
    "int32": 4,
    "int64": 8,
    "half": 2,
    "float": 4,
    "double": 8,
    "bool": 1,
}
ITEMS = {"a": 1, "b": 2}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.codec.system import TypeSystem, resolve_name

    thorough = tier == "thorough"
    check = Check(
        "C34",
        tier,
        kind="model_checking",
        rule=(
            "every history of registrations of types and enumerations (in "
            "and outside of nested namespaces, repeated or invalid) and of "
            "added fields up to the depth; all names are looked up and the "
            "layout of all types is compared with a model after every step"
        ),
        bounds={"depth": "4 full, 5 merged" if thorough else "3 full, 4 merged"},
    )

    class Types(System):
        """A type system and its model."""

        def __init__(self, *root: str) -> None:
            self.root = root
            self.real = TypeSystem(*root)
            # Full names.
            self.types: dict = {}
            self.enums: dict = {}
            self.protocols: dict = {}
            self.rejected = None

        def full(self, name, *space) -> str:
            return "::".join([*self.root, *space, name])

        def ops(self):
            return [
                ("register", "A", ()),
                ("register", "A", ("sub",)),
                ("register", "B", ()),
                ("register", "E", ("sub",)),
                ("enum", "E", (), "uint8", "good"),
                ("enum", "E", ("sub",), "uint16", "good"),
                ("enum", "B", (), "uint8", "good"),
                ("enum", "E", (), "nothing", "good"),
                ("enum", "E", ("sub",), "uint8", "bad"),
                ("add", "A", "uint8", None),
                ("add", "A", "int32", 2),
                ("add", "A", "E", None),
                ("add", "A", "sub::E", 3),
                ("add", "A", "B", None),
                ("add", "A", "B", 2),
                ("add", "A", "sub::A", None),
                ("add", "A", "nothing", None),
                ("add", "A", "uint16", "taken"),
                ("add", "B", "uint16", None),
                ("add", "B", "A", None),
                ("add", "sub::A", "E", None),
                ("add", "sub::A", "runtimepy::ByteOrder", None),
                ("add", "E", "uint8", None),
                ("lookup", "nothing", ("sub",)),
            ]

        def taken(self, full) -> bool:
            return full in self.types or full in self.enums

        def kinds(self, field_type):
            """Elements of a type (None when it doesn't exist)."""
            if field_type in SIZES:
                return [field_type]
            if field_type == "runtimepy::ByteOrder":
                return ["uint8"]
            full = self.full(field_type)
            if full in self.enums:
                return [self.enums[full][0]]
            if full in self.types:
                return [
                    y for _, kinds, _ in self.types[full] for y in kinds
                ]
            return None

        def apply(self, op) -> None:
            real = self.real
            raised = None
            good = True
            commit = None
            if op[0] == "register":
                _, name, space = op
                full = self.full(name, *space)
                good = not self.taken(full)

                def run():
                    self.protocols[full] = real.register(name, *space)

                def commit():
                    self.types[full] = []

            elif op[0] == "enum":
                _, name, space, prim, items = op
                full = self.full(name, *space)
                good = (
                    not self.taken(full)
                    and prim in SIZES
                    and items == "good"
                )
                data = dict(ITEMS) if items == "good" else {"a": 1, "b": 1}

                def run():
                    real.enum(name, data, *space, primitive=prim)

                def commit():
                    self.enums[full] = (prim, dict(ITEMS))

            elif op[0] == "add":
                _, name, kind, length = op
                full = self.full(name)
                fields = self.types.get(full)
                kinds = self.kinds(kind)
                field = f"f{len(fields or [])}"
                if length == "taken":
                    length = None
                    field = "f0"
                good = (
                    fields is not None
                    and kinds is not None
                    and field not in [x[0] for x in fields]
                )
                if good and kind not in SIZES and not kinds:
                    # (Nothing to add.)
                    good = None

                def run():
                    real.add(name, field, kind, array_length=length)

                def commit():
                    fields.append((field, kinds * (length or 1), kind))

                if good is None:
                    return
            else:
                good = False

                def run():
                    real.size(op[1], *op[2])

            try:
                run()
            except Exception as exc:  # pylint: disable=broad-except
                raised = exc
            if good:
                expect(raised is None, "rejected", op, repr(raised))
                assert commit is not None
                commit()
            else:
                expect(raised is not None, "accepted", op)

        def check(self) -> None:
            real = self.real
            for kind, size in SIZES.items():
                expect_eq(real.size(kind), size, "primitive size", kind)
            expect_eq(real.size("runtimepy::ByteOrder"), 1, "global type")
            for space in ((), ("sub",)):
                for name in ("A", "B", "E"):
                    full = self.full(name, *space)
                    if space and name in self.enums:
                        # (Global names are found first.)
                        continue
                    if full in self.types:
                        kinds = [
                            y for _, x, _ in self.types[full] for y in x
                        ]
                        want = sum(SIZES[x] for x in kinds)
                        expect_eq(
                            real.size(name, *space), want, "size", full
                        )
                        expect(
                            real.get_protocol(name, *space)
                            is self.protocols[full],
                            "another type",
                            full,
                        )
                        self.layout(full, kinds)
                    elif full in self.enums:
                        prim, items = self.enums[full]
                        expect_eq(
                            real.size(name, *space), SIZES[prim], "enum size"
                        )
                        enum = real.get_enum(name, *space)
                        expect_eq(
                            {x: enum.get_int(x) for x in items},
                            items,
                            "enumeration",
                        )
                        expect_eq(enum.primitive, prim, "enum primitive")
                    else:
                        for func in (
                            real.size,
                            real.get_protocol,
                            real.get_enum,
                        ):
                            try:
                                func(name, *space)
                            except (AssertionError, KeyError):
                                continue
                            expect(False, "found", full)
            self.partial()

        def partial(self) -> None:
            """Names don't have to be exact."""
            own = [*self.types, *self.enums]
            everything = [*SIZES, "runtimepy::ByteOrder"]
            prefix = self.full("")
            for name in ("A", "sub::E", "E", "teOrder", "nothing"):
                full = self.full(name)
                if name in self.enums:
                    continue
                if full in self.types:
                    found = [full]
                else:
                    found = [
                        x for x in everything if name in x
                    ] + [
                        x
                        for x in own
                        if x.startswith(prefix) and name in x[len(prefix) :]
                    ]
                found = [
                    x
                    for x in found
                    if len(x) == min(len(y) for y in found)
                ]
                want = None
                if len(found) == 1:
                    want = (
                        sum(
                            SIZES[y]
                            for _, x, _ in self.types[found[0]]
                            for y in x
                        )
                        if found[0] in self.types
                        else (
                            SIZES[self.enums[found[0]][0]]
                            if found[0] in self.enums
                            else SIZES.get(found[0], 1)
                        )
                    )
                try:
                    got = self.real.size(name, exact=False)
                except AssertionError:
                    got = None
                expect_eq(got, want, "partial name", name)

        def layout(self, full, kinds) -> None:
            """Decode something and encode it again."""
            inst = self.protocols[full]
            total = sum(SIZES[x] for x in kinds)
            data = bytes((7 * x + 1) % 100 for x in range(total))
            # (Booleans don't keep their raw value.)
            expect_eq(
                inst.array.from_stream(BytesIO(data)), total, "decoded"
            )
            stream = BytesIO()
            expect_eq(inst.array.to_stream(stream), total, "encoded")
            expect_eq(stream.getvalue(), data, "layout", full)
            offset = 0
            for field, parts, kind in self.types[full]:
                if kind in SIZES:
                    size = SIZES[parts[0]]
                    expect_eq(
                        inst.value(field),
                        int.from_bytes(
                            data[offset : offset + size],
                            "big",
                            signed=parts[0].startswith("int"),
                        ),
                        "value of field",
                        full,
                        field,
                    )
                offset += sum(SIZES[x] for x in parts)

        def key(self):
            return (
                tuple(
                    (x, tuple((f, tuple(k)) for f, k, _ in y))
                    for x, y in self.types.items()
                ),
                tuple((x, y[0]) for x, y in self.enums.items()),
            )

    for root in ((), ("test",), ("x", "y")):
        check.add_histories(
            f"types {'::'.join(root)}",
            lambda root=root: Types(*root),
            4 if thorough else 3,
            5 if thorough else 4,
        )

    def resolving(chooser, stats):
        names = [
            chooser.pick(["", "a", "b", "aa", "ab", "abc", "b::abc"])
            for _ in range(1 + chooser.choose(4))
        ]
        unique = list(dict.fromkeys(names))
        shortest = [
            x for x in unique if len(x) == min(len(y) for y in unique)
        ]
        try:
            got = resolve_name(unique)
        except AssertionError:
            got = None
        expect_eq(
            got, shortest[0] if len(shortest) == 1 else None, "resolved"
        )
        stats.step()

    check.add("resolving", resolving)
    return check
