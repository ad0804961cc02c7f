"""C01: primitive codec, bounds, scaling."""

from fractions import Fraction
from io import BytesIO

from mc import refcodec as ref
from mc.core import Check, System, Violation, expect, expect_eq

SCALES = [
    [0.0, 2.0],
    [10.0, -0.5],
    [1.0, 0.25],
    [-3, 100.0],
    [-7, 3],
    [0.1, 0.3],
]


def values(kind: str) -> list:
    """Values of a kind."""
    if kind == "bool":
        return [False, True]
    if kind in ref.INTS:
        return ref.int_values(kind)
    return ref.float_values(kind)


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.primitives import create, normalize
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.types import normalize as normalize_type

    check = Check(
        "C01",
        tier,
        kind="exploration",
        rule=(
            "every (type, byte order, value) of the value sets below through "
            "every encoding route, every raw value of 8/16-bit types through "
            "every scaling, and every operation history up to the depth; a "
            "case is non-trivial when its (type, order, bytes) or its model "
            "state is new"
        ),
        bounds={
            "values": "all 8/16-bit integers and halves, every exponent x 5 "
            "mantissas for float/double, all power-of-two boundaries +-1 "
            "for 32/64-bit",
            "orders": list(ref.ORDERS),
            "scalings": SCALES,
            "history_depth": 4 if tier == "thorough" else 3,
        },
        assumptions=["struct.pack of the running Python is IEEE-754 correct"],
    )
    orders = {x: ByteOrder[x] for x in ref.ORDERS}

    def codec(kind: str, order: str):
        def run(_, stats):
            cls = normalize(kind)
            byte_order = orders[order]
            size = ref.SIZES[kind]
            inst = create(kind)
            other = create(kind)
            expect_eq(inst.size, size, f"{kind} size")
            expect_eq(inst.kind.size, size, f"{kind} type size")
            expect_eq(inst.kind.bits, size * 8, f"{kind} type bits")
            expect(
                normalize_type(kind) == inst.kind, f"{kind} type by name"
            )
            expect_eq(str(inst.kind), kind, "type name")
            expect_eq(inst.kind.is_integer, kind in ref.INTS, "is_integer")
            expect_eq(inst.kind.is_float, kind in ref.FLOATS, "is_float")
            expect_eq(inst.kind.is_boolean, kind == "bool", "is_boolean")
            zero = other.value
            for val in values(kind):
                want = ref.encode(kind, val, order)
                stats.outcome((kind, order, want))
                stats.step()
                inst.value = val
                expect_eq(inst.value, val, f"{kind} holds value")
                for got in (
                    inst.binary(byte_order=byte_order),
                    cls.encode(val, byte_order=byte_order),
                    inst.kind.encode(val, byte_order=byte_order),
                ):
                    expect_eq(got, want, f"{kind} {order} encode", val)
                stream = BytesIO()
                expect_eq(
                    inst.to_stream(stream, byte_order=byte_order),
                    size,
                    "to_stream count",
                )
                expect_eq(
                    cls.write(val, stream, byte_order=byte_order),
                    size,
                    "write count",
                )
                stream.write(b"\xaa")
                expect_eq(stream.getvalue(), want * 2 + b"\xaa", "stream")
                stream.seek(0)
                inst.value = zero
                got = inst.from_stream(stream, byte_order=byte_order)
                expect_eq(got, val, f"{kind} {order} from_stream")
                expect_eq(inst.value, val, f"{kind} {order} from_stream")
                expect_eq(
                    cls.read(stream, byte_order=byte_order),
                    val,
                    f"{kind} {order} read",
                )
                expect_eq(stream.read(), b"\xaa", "stream position")
                inst.value = zero
                expect_eq(
                    inst.update(want, byte_order=byte_order), val, "update"
                )
                expect_eq(inst.value, val, "update")
                expect_eq(
                    cls.decode(want, byte_order=byte_order), val, "decode"
                )
                expect_eq(
                    inst.kind.decode(want, byte_order=byte_order),
                    val,
                    "type decode",
                )
                expect_eq(type(got), type(val), "value type")
            expect_eq(other.value, zero, "another instance changed")
            # The default order is network order.
            for val in values(kind)[:300]:
                want = ref.encode(kind, val, "NETWORK")
                inst.value = val
                expect_eq(bytes(inst), want, "default order")
                expect_eq(inst.binary(), want, "default order")
                expect_eq(cls.encode(val), want, "default order")
                expect_eq(cls.decode(want), val, "default order")

        return run

    for kind in ref.SIZES:
        for order in ref.ORDERS:
            check.add(f"codec/{kind}/{order}", codec(kind, order))

    def bounds(kind: str):
        def run(_, stats):
            low, high = ref.bounds(kind)
            limits = create(kind).kind.int_bounds
            expect_eq((limits.min, limits.max), (low, high), "bounds")
            for val in (low - 2, low - 1, low, 0, high, high + 1, high * 3):
                stats.step()
                expect_eq(limits.validate(val), low <= val <= high, "valid")
                expect_eq(
                    limits.clamp(val), max(low, min(high, val)), "clamp", val
                )
                stats.outcome((kind, val))

        return run

    for kind in ref.INTS:
        check.add(f"bounds/{kind}", bounds(kind))

    def scaling(kind: str, scale: list):
        def run(_, stats):
            inst = create(kind, scaling=scale)
            low, high = ref.bounds(kind)
            vals = ref.int_values(kind)
            if len(vals) > 300:
                vals = vals[:80] + vals[-80:] + [
                    x for x in vals if -80 <= x <= 80
                ]
            tol = Fraction(1, 10**9)
            for raw in vals:
                stats.step()
                inst.value = raw
                want = ref.poly(raw, scale)
                got = Fraction(inst.scaled)
                expect(
                    abs(got - want) <= tol * max(1, abs(want)),
                    f"{kind} scaled read",
                    raw,
                    inst.scaled,
                    float(want),
                )
                expect_eq(inst.value, raw, "reading must not change it")
                stats.outcome((kind, tuple(scale), raw))
                if len(scale) < 2 or ref.INTS[kind][0] <= 4:
                    # Assigning the scaled value gives the raw value back.
                    inst.value = 0
                    inst.scaled = float(want)
                    if abs(want) < 2**52:
                        expect_eq(
                            inst.value, raw, f"{kind} scaled round trip"
                        )
            if len(scale) == 2 and ref.INTS[kind][0] <= 2:
                # Nearest and clamped.
                span = [ref.poly(x, scale) for x in (low, high)]
                lo, hi = min(span), max(span)
                step = abs(Fraction(scale[1]))
                targets = [
                    lo - 1,
                    lo - step * 5,
                    lo - 10**6,
                    hi + 1,
                    hi + step * 5,
                    hi + 10**6,
                    lo + step * Fraction(13, 10),
                    hi - step * Fraction(7, 10),
                    Fraction(0),
                ]
                for raw in range(-100, 101):
                    targets.append(
                        ref.poly(raw, scale) + step * Fraction(3, 8)
                    )
                for target in targets:
                    stats.step()
                    inst.scaled = float(target)
                    exact = (
                        Fraction(float(target)) - Fraction(scale[0])
                    ) / Fraction(scale[1])
                    ideal = max(
                        Fraction(low), min(Fraction(high), exact)
                    )
                    expect(
                        abs(Fraction(inst.value) - ideal)
                        <= Fraction(1, 2) + Fraction(1, 10**6),
                        f"{kind} scaled write not nearest in-range value",
                        scale,
                        float(target),
                        inst.value,
                        float(ideal),
                    )
                    expect(low <= inst.value <= high, "out of range")
                    stats.outcome((kind, tuple(scale), float(target)))

        return run

    for kind in ref.INTS:
        for idx, scale in enumerate(SCALES):
            check.add(f"scaling/{kind}/{idx}", scaling(kind, scale))

    def unscaled(kind: str):
        def run(_, stats):
            inst = create(kind)
            for val in values(kind)[:2000]:
                inst.value = val
                expect_eq(inst.scaled, val, "unscaled read")
                inst.value = 0
                inst.scaled = val
                expect_eq(inst.value, val, "unscaled write")
                stats.step()
                stats.outcome((kind, val))

        return run

    for kind in ref.SIZES:
        if kind != "bool":
            check.add(f"unscaled/{kind}", unscaled(kind))

    def float_scaling(kind: str, scale: list):
        def run(_, stats):
            inst = create(kind, scaling=scale)
            for raw in (0.0, 1.0, -1.0, 0.5, 1024.0, -3.25, 100.0):
                stats.step()
                inst.value = raw
                want = float(ref.poly(raw, scale))
                expect(
                    abs(inst.scaled - want) <= 1e-6 * max(1.0, abs(want)),
                    "scaled read",
                    raw,
                )
                inst.value = 7.0
                inst.scaled = want
                expect(
                    abs(inst.value - raw) <= 1e-3 * max(1.0, abs(raw)),
                    "scaled write",
                    raw,
                    inst.value,
                )
                stats.outcome((kind, tuple(scale), raw))
            # A third-order polynomial reads (but can't be inverted).
            inst = create(kind, scaling=[1.0, 2.0, 3.0, 0.5])
            for raw in (0.0, 1.0, 2.0, -2.0):
                inst.value = raw
                want = float(ref.poly(raw, [1.0, 2.0, 3.0, 0.5]))
                expect_eq(inst.scaled, want, "polynomial", raw)
                before = inst.value
                try:
                    inst.scaled = 4.0
                except AssertionError:
                    expect_eq(inst.value, before, "failed write changed it")
                else:
                    raise Violation("polynomial inverted silently")

        return run

    for kind in ref.FLOATS:
        for idx, scale in enumerate(SCALES):
            check.add(f"fscale/{kind}/{idx}", float_scaling(kind, scale))

    class Pair(System):
        """Two instances of one type against two model values."""

        def __init__(self, kind: str, scale) -> None:
            self.kind = kind
            self.scale = scale
            self.insts = [
                create(kind, scaling=scale),
                create(kind, scaling=scale),
            ]
            self.model = [self.insts[0].value, self.insts[1].value]
            if kind == "bool":
                expect_eq(self.model, [False, False], "initial")
            else:
                expect_eq(self.model, [0, 0], "initial")

        def ops(self):
            out = []
            for idx in range(2):
                if self.kind == "bool":
                    out += [
                        (idx, "toggle", 0),
                        (idx, "set", 0),
                        (idx, "clear", 0),
                        (idx, "call", True),
                        (idx, "call", False),
                    ]
                else:
                    big = (
                        ref.bounds(self.kind)[1]
                        if self.kind in ref.INTS
                        else 2.5
                    )
                    out += [
                        (idx, "call", 3),
                        (idx, "value", big),
                        (idx, "scaled", 12),
                        (idx, "bytes", 1),
                    ]
                    if self.kind in ref.INTS:
                        out += [(idx, "inc", 1), (idx, "inc", -2)]
                out.append((idx, "copy", 0))
            return out

        def apply(self, op):
            idx, what, arg = op
            inst = self.insts[idx]
            old = self.model[idx]
            if what == "toggle":
                inst.toggle()
                new = not old
            elif what == "set":
                inst.set()
                new = True
            elif what == "clear":
                inst.clear()
                new = False
            elif what == "call":
                new = ref.stored(self.kind, arg)
                expect_eq(inst(arg), new, "call returns the value")
            elif what == "value":
                inst.value = arg
                new = ref.stored(self.kind, arg)
            elif what == "scaled":
                inst.scaled = arg
                exact = Fraction(arg)
                if self.scale:
                    exact = (exact - Fraction(self.scale[0])) / Fraction(
                        self.scale[1]
                    )
                if self.kind in ref.INTS:
                    low, high = ref.bounds(self.kind)
                    new = max(low, min(high, round(exact)))
                else:
                    new = ref.stored(self.kind, float(exact))
            elif what == "bytes":
                new = ref.stored(self.kind, arg)
                inst.update(ref.encode(self.kind, arg, "NETWORK"))
            elif what == "inc":
                new = ref.stored(self.kind, old + arg)
                inst.increment(arg)
            else:
                # Replace the other one with a copy of this one.
                copied = inst.copy()
                expect(copied is not inst, "copy is the same object")
                expect_eq(copied.value, old, "copy value")
                expect_eq(type(copied), type(inst), "copy type")
                self.insts[1 - idx] = copied
                self.model[1 - idx] = old
                new = old
            self.model[idx] = new

        def check(self):
            for inst, want in zip(self.insts, self.model):
                expect_eq(inst.value, want, f"{self.kind} value")
                expect_eq(
                    bytes(inst),
                    ref.encode(self.kind, want, "NETWORK"),
                    f"{self.kind} encoding of held value",
                )
                expect_eq(bool(inst), bool(want), "truth value")
                expect(inst == want, "equality with its value")
                if self.scale:
                    got = inst.scaled
                    exact = float(ref.poly(want, self.scale))
                    expect(
                        abs(got - exact) <= 1e-6 * max(1.0, abs(exact)),
                        "scaled view",
                        got,
                        exact,
                    )

        def key(self):
            return (self.kind, bool(self.scale), tuple(self.model))

    depth = 4 if tier == "thorough" else 3
    for kind in ref.SIZES:
        for scale in (None, [4.0, 2.0]):
            if kind == "bool" and scale:
                continue
            check.add_histories(
                f"history/{kind}/{'scaled' if scale else 'plain'}",
                lambda kind=kind, scale=scale: Pair(kind, scale),
                depth,
                by_first=tier == "thorough",
            )
    return check
