"""C07: arrays, chunks, strings and chains of them: layout and independence."""

from io import BytesIO
import itertools

from mc import refcodec as ref
from mc.core import Check, System, Violation, expect, expect_eq

SAMPLE = {
    "bool": True,
    "int8": -2,
    "int16": -300,
    "int32": -70000,
    "int64": -(2**40) - 5,
    "uint8": 0xF1,
    "uint16": 0xF1E2,
    "uint32": 0xF1E2D3C4,
    "uint64": 0xF1E2D3C4B5A69788,
    "half": 1.5,
    "float": -2.25,
    "double": 1e100,
}
OTHER = {
    "bool": False,
    "int8": 77,
    "int16": 1234,
    "int32": 5,
    "int64": 2**50 + 9,
    "uint8": 1,
    "uint16": 2,
    "uint32": 3,
    "uint64": 4,
    "half": -0.5,
    "float": 8.0,
    "double": 0.1,
}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.primitives import create, normalize
    from runtimepy.primitives.array import PrimitiveArray
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.serializable import FixedChunk, PrefixedChunk
    from runtimepy.primitives.string import StringPrimitive

    thorough = tier == "thorough"
    orders = {x: ByteOrder[x] for x in ref.ORDERS}
    check = Check(
        "C07",
        tier,
        kind="model_checking",
        rule=(
            "every element sequence (types x repeat counts x byte orders) up "
            "to the length, every fragment range of arrays, every history of "
            "extensions / updates / stream round trips / copies of chains up "
            "to the depth, against byte strings computed independently"
        ),
        bounds={
            "elements": 3,
            "repeats": [None, 2, 3],
            "chain_depth": "4 full" if thorough else "3 full, 4 merged",
        },
    )

    def raises(func):
        """Whether something is rejected."""
        try:
            func()
        except (AssertionError, KeyError, IndexError, ValueError, OverflowError):
            return True
        except Exception as exc:  # pylint: disable=broad-except
            return type(exc).__name__ in ("error", "struct.error")
        return False

    def compare(arr, kinds, vals, order) -> None:
        """Compare an array with expectations."""
        want = b"".join(ref.encode(k, v, order) for k, v in zip(kinds, vals))
        expect_eq(bytes(arr), want, "bytes", kinds, order)
        expect_eq(arr.size, len(want), "size")
        expect_eq(arr.length(), len(want), "length")
        with BytesIO() as stream:
            expect_eq(arr.to_stream(stream), len(want), "written size")
            expect_eq(stream.getvalue(), want, "stream bytes")
        pos = 0
        for idx, kind in enumerate(kinds):
            expect_eq(arr[idx].value, vals[idx], "element", idx)
            expect_eq(arr[idx].kind.name, kind, "element type")
            expect_eq(arr.byte_at_index(idx), pos, "byte position", idx)
            expect_eq(arr.index_at_byte(pos), idx, "index", pos)
            for mid in range(1, ref.SIZES[kind]):
                expect(
                    raises(lambda: arr.index_at_byte(pos + mid)),
                    "index inside of an element",
                )
            pos += ref.SIZES[kind]
        expect_eq(arr.byte_at_index(len(kinds)), pos, "end position")
        expect_eq(arr.index_at_byte(pos), len(kinds), "end index")

    def layout(order: str, length: int, pool: list, repeats: list):
        def run(_, stats):
            for specs in itertools.product(
                itertools.product(pool, repeats), repeat=length
            ):
                arr = PrimitiveArray(byte_order=orders[order])
                kinds = []
                for num, (kind, repeat) in enumerate(specs):
                    if num % 2:
                        arr.add(create(kind), array_length=repeat)
                    else:
                        arr.add_primitive(kind, array_length=repeat)
                    kinds += [kind] * (1 if repeat is None else repeat)
                zero = [
                    type(SAMPLE[x])(0) for x in kinds  # type: ignore
                ]
                compare(arr, kinds, zero, order)
                vals = [
                    (SAMPLE if i % 3 else OTHER)[k]
                    for i, k in enumerate(kinds)
                ]
                want = b"".join(
                    ref.encode(k, v, order) for k, v in zip(kinds, vals)
                )
                expect_eq(arr.update(want), len(want), "update size")
                vals = [
                    ref.stored(k, ref.decode(k, ref.encode(k, v, order), order))
                    for k, v in zip(kinds, vals)
                ]
                compare(arr, kinds, vals, order)
                # Wrong amounts of data don't change anything.
                for bad in (want[:-1], want + b"\x00"):
                    expect(raises(lambda: arr.update(bad)), "bad size")
                compare(arr, kinds, vals, order)
                # Independent copy.
                other = arr.copy()
                compare(other, kinds, vals, order)
                for idx, kind in enumerate(kinds):
                    other[idx].value = OTHER[kind]
                compare(arr, kinds, vals, order)
                # Stream round trip.
                with BytesIO(want + b"rest") as stream:
                    expect_eq(
                        other.from_stream(stream), len(want), "read size"
                    )
                    expect_eq(stream.read(), b"rest", "consumed")
                compare(other, kinds, vals, order)
                # One element at a time.
                for idx, kind in enumerate(kinds):
                    arr[idx].value = OTHER[kind]
                    vals[idx] = ref.stored(kind, OTHER[kind])
                    compare(arr, kinds, vals, order)
                stats.step(6 + len(kinds))
                stats.outcome((order, specs))

        return run

    kinds_all = list(ref.SIZES)
    for order in ref.ORDERS:
        check.add(
            f"layout1/{order}",
            layout(order, 1, kinds_all, [None, 1, 2, 3, 5]),
            replay_every=0,
        )
        for kind in kinds_all:

            def pairs(c, stats, o=order, k=kind):
                layout(o, 2, [k], [None, 2])(c, stats)
                for other in kinds_all:
                    layout(o, 2, [k, other], [None, 2])(c, stats)

            check.add(
                f"layout2/{order}/{kind}",
                pairs,
                replay_every=0,
                limit_s=200,
            )
        check.add(
            f"layout3/{order}",
            layout(
                order,
                3,
                ["uint8", "int16", "uint32", "double", "bool"],
                [None, 2],
            ),
            replay_every=0,
            limit_s=200,
        )

    def resets(chooser, stats):
        """Arrays can be emptied and used again."""
        order = chooser.pick(list(ref.ORDERS))
        pool = ["uint8", "int16", "uint32", "double", "bool"]
        first = [chooser.pick(pool) for _ in range(chooser.choose(3))]
        second = [chooser.pick(pool) for _ in range(chooser.choose(3))]
        fragment = bool(first) and chooser.pick([False, True])
        arr = PrimitiveArray(byte_order=orders[order])
        for kind in first:
            arr.add_primitive(kind)
        if fragment:
            arr.fragment_from_indices(0)
        other = arr.copy()
        arr.reset()
        compare(arr, [], [], order)
        expect_eq(arr.num_fragments, 0, "fragments")
        zero = [type(SAMPLE[x])(0) for x in first]
        compare(other, first, zero, order)
        for kind in second:
            arr.add(create(kind))
        compare(
            arr, second, [type(SAMPLE[x])(0) for x in second], order
        )
        vals = [ref.stored(x, SAMPLE[x]) for x in second]
        want = b"".join(
            ref.encode(k, v, order) for k, v in zip(second, vals)
        )
        expect_eq(arr.update(want), len(want), "update size")
        compare(arr, second, vals, order)
        if second:
            expect_eq(arr.fragment_from_indices(0), 0, "fragment number")
            expect_eq(arr.fragment_bytes(0), want, "fragment")
        compare(other, first, zero, order)
        stats.outcome((tuple(first), tuple(second)))
        stats.step(4)

    check.add("resets", resets, split=1)

    def fragments(chooser, stats):
        order = chooser.pick(list(ref.ORDERS))
        kinds = chooser.pick(
            [
                ["uint8", "int16", "uint32"],
                ["double", "bool", "uint16", "int8"],
                ["uint64", "half", "float", "int32", "uint8"],
            ]
        )
        how = chooser.pick(["index", "bytes"])
        count = len(kinds)
        offs = [0]
        for kind in kinds:
            offs.append(offs[-1] + ref.SIZES[kind])
        ranges = [
            (a, b)
            for a in range(count)
            for b in list(range(a + 1, count + 1)) + [-1]
        ]
        first = chooser.pick(ranges)
        second = chooser.pick(ranges)
        arr = PrimitiveArray(
            *[normalize(x)(SAMPLE[x]) for x in kinds],
            byte_order=orders[order],
        )
        vals = [SAMPLE[x] for x in kinds]
        made = []
        for num, (start, end) in enumerate((first, second)):
            real = count if end == -1 else end
            if how == "index":
                got = arr.fragment_from_indices(start, end)
            else:
                got = arr.fragment_from_byte_indices(
                    offs[start], -1 if end == -1 else offs[real]
                )
            expect_eq(got, num, "fragment number")
            made.append((start, real))
        copied = arr.copy()
        for inst in (arr, copied):
            expect_eq(inst.num_fragments, 2, "fragments")
            vals = [SAMPLE[x] for x in kinds]
            for num, (start, real) in enumerate(made):
                want = b"".join(
                    ref.encode(k, v, order)
                    for k, v in zip(kinds[start:real], vals[start:real])
                )
                expect_eq(inst.fragment_bytes(num), want, "fragment bytes")
                new = [OTHER[x] for x in kinds[start:real]]
                data = b"".join(
                    ref.encode(k, v, order)
                    for k, v in zip(kinds[start:real], new)
                )
                inst.update_fragment(num, data, timestamp_ns=55)
                for idx in range(count):
                    inside = start <= idx < real
                    if inside:
                        vals[idx] = ref.stored(
                            kinds[idx],
                            ref.decode(
                                kinds[idx],
                                ref.encode(
                                    kinds[idx], OTHER[kinds[idx]], order
                                ),
                                order,
                            ),
                        )
                        expect_eq(
                            inst[idx].last_updated_ns, 55, "timestamp"
                        )
                compare(inst, kinds, vals, order)
                expect_eq(
                    inst.fragment_bytes(num), data, "updated fragment"
                )
                expect_eq(bytes(inst.fragment(num)), data, "fragment")
                expect(
                    raises(lambda: inst.update_fragment(num, data + b"\x00")),
                    "bad fragment size",
                )
                compare(inst, kinds, vals, order)
                stats.step()
        stats.outcome((order, tuple(kinds), how, first, second))
        return None

    check.add("fragments", fragments, split=2)

    class Chain(System):
        """A chain of serializables."""

        def __init__(self, order: str, head: str) -> None:
            self.order = order
            self.bo = orders[order]
            self.head_kind = head
            # Model: segments.
            self.segs: list = []
            if head == "array":
                self.head = PrimitiveArray(byte_order=self.bo)
                self.segs.append(["array", []])
            elif head == "prefixed":
                self.head = PrefixedChunk(create("uint8"), byte_order=self.bo)
                self.segs.append(["prefixed", "uint8", b""])
            else:
                self.head = FixedChunk(b"xy")
                self.segs.append(["fixed", b"xy"])
            # Elements, in order.
            self.objs: list = [self.head]
            self.others: list = []
            self.count = 0

        def ops(self):
            out = []
            if len(self.segs) < 5:
                out += [
                    ("fixed", None),
                    ("fixed", 2),
                    ("prefixed", "uint16", None),
                    ("prefixed", "uint8", 3),
                ]
                if self.head_kind == "array":
                    out += [("prim", "uint32", None), ("prim", "int16", 2)]
            out += [("copy",), ("stream",), ("reread", 3)]
            for idx, seg in enumerate(self.segs[:4]):
                if seg[0] == "array":
                    if seg[1]:
                        out.append(("value", idx))
                elif seg[0] == "prefixed":
                    out.append(("update", idx, b"hello"))
                    out.append(("update", idx, b""))
                    if seg[1] == "uint8":
                        out.append(("update", idx, bytes(256)))
                else:
                    out.append(("update", idx, b"AB"))
            return out

        def _collect(self):
            """Elements of the chain."""
            self.objs = []
            curr = self.head
            while curr is not None:
                self.objs.append(curr)
                curr = curr.chain

        def _seg_bytes(self, seg):
            if seg[0] == "array":
                return b"".join(
                    ref.encode(k, v, self.order) for k, v in seg[1]
                )
            if seg[0] == "fixed":
                return seg[1]
            return ref.encode(seg[1], len(seg[2]), self.order) + seg[2]

        def _bytes(self):
            return b"".join(self._seg_bytes(x) for x in self.segs)

        def apply(self, op):
            what = op[0]
            if what == "fixed":
                self.count += 1
                data = b"f%d" % self.count
                self.head.add_to_end(FixedChunk(data), array_length=op[1])
                for _ in range(op[1] or 1):
                    self.segs.append(["fixed", data])
            elif what == "prefixed":
                chunk = PrefixedChunk(create(op[1]), byte_order=self.bo)
                self.head.add_to_end(chunk, array_length=op[2])
                for _ in range(op[2] or 1):
                    self.segs.append(["prefixed", op[1], b""])
            elif what == "prim":
                self.head.add(
                    normalize(op[1])(SAMPLE[op[1]]), array_length=op[2]
                )
                if self.segs[-1][0] != "array":
                    self.segs.append(["array", []])
                for _ in range(op[2] or 1):
                    self.segs[-1][1].append((op[1], SAMPLE[op[1]]))
            elif what == "copy":
                old = self.head
                self.others.append((old, self._bytes()))
                self.head = old.copy()
            elif what == "stream":
                # Into an equal but independent instance.
                with BytesIO() as stream:
                    size = self.head.to_stream(stream)
                    expect_eq(size, len(self._bytes()), "written size")
                    expect_eq(stream.getvalue(), self._bytes(), "written")
                    new = self.head.copy()
                    self._scramble(new)
                    stream.seek(0)
                    expect_eq(new.from_stream(stream), size, "read size")
                    expect_eq(stream.read(), b"", "everything consumed")
                self.others.append((self.head, self._bytes()))
                self.head = new
            elif what == "reread":
                # Read other data of a matching shape.
                segs = []
                for seg in self.segs:
                    if seg[0] == "array":
                        segs.append(
                            ["array", [(k, OTHER[k]) for k, _ in seg[1]]]
                        )
                    elif seg[0] == "fixed":
                        segs.append(["fixed", seg[1][::-1]])
                    else:
                        segs.append(["prefixed", seg[1], b"z" * op[1]])
                self.segs = segs
                with BytesIO(self._bytes() + b"tail") as stream:
                    expect_eq(
                        self.head.from_stream(stream),
                        len(self._bytes()),
                        "read size",
                    )
                    expect_eq(stream.read(), b"tail", "left over")
            elif what == "value":
                self._collect()
                seg = self.segs[op[1]]
                for idx, (kind, _) in enumerate(seg[1]):
                    self.objs[op[1]][idx].value = OTHER[kind]
                    seg[1][idx] = (kind, OTHER[kind])
            else:
                self._collect()
                seg = self.segs[op[1]]
                if seg[0] == "prefixed" and len(op[2]) > 255:
                    expect(
                        raises(lambda: self.objs[op[1]].update(op[2])),
                        "oversized chunk accepted",
                    )
                else:
                    seg[-1] = op[2]
                    size = self.objs[op[1]].update(op[2])
                    expect_eq(size, len(self._seg_bytes(seg)), "new size")

        def _scramble(self, head):
            curr = head
            while curr is not None:
                if isinstance(curr, PrefixedChunk):
                    curr.update(b"scramble")
                elif isinstance(curr, PrimitiveArray):
                    if curr.size:
                        curr.update(bytes(curr.size))
                curr = curr.chain

        def check(self):
            self._collect()
            expect_eq(len(self.objs), len(self.segs), "chain length")
            for obj, seg in zip(self.objs, self.segs):
                expect_eq(bytes(obj), self._seg_bytes(seg), "segment")
                expect_eq(obj.size, len(self._seg_bytes(seg)), "seg. size")
            want = self._bytes()
            expect_eq(self.head.length(), len(want), "length")
            with BytesIO() as stream:
                expect_eq(self.head.to_stream(stream), len(want), "size")
                expect_eq(stream.getvalue(), want, "bytes of the chain")
            expect(self.head.end is self.objs[-1], "end of the chain")
            for other, data in self.others:
                with BytesIO() as stream:
                    other.to_stream(stream)
                    if stream.getvalue() != data:
                        raise Violation(
                            "a copy changed the original: "
                            f"{stream.getvalue()!r} != {data!r}"
                        )

        def key(self):
            return (
                self.order,
                self.head_kind,
                repr(self.segs),
                len(self.others),
            )

    for order in ref.ORDERS:
        for head in ("array", "prefixed", "fixed"):
            check.add_histories(
                f"chain/{order}/{head}",
                lambda order=order, head=head: Chain(order, head),
                4 if thorough else 3,
                4,
                by_first=thorough,
            )

    # Strings.
    alphabet = ["a", "\x00", "é", "€", "😀", "\n"]

    def strings(chooser, stats):
        order = chooser.pick(list(ref.ORDERS))
        kind = chooser.pick(["uint8", "uint16", "uint32", "int16"])
        for length in range(0, 5 if thorough else 4):
            for chars in itertools.product(alphabet, repeat=length):
                text = "".join(chars)
                want = (
                    ref.encode(kind, len(text.encode()), order)
                    + text.encode()
                )
                for how in ("init", "set"):
                    if how == "init":
                        inst = StringPrimitive(
                            text,
                            kind=normalize(kind),
                            byte_order=orders[order],
                        )
                    else:
                        inst = StringPrimitive(
                            "before",
                            kind=normalize(kind),
                            byte_order=orders[order],
                        )
                        inst.set(text)
                    with BytesIO() as stream:
                        expect_eq(inst.write(stream), len(want), "written")
                        expect_eq(stream.getvalue(), want, "bytes", text)
                    expect_eq(inst.size, len(want), "size", text)
                    expect_eq(inst.value, text, "value")
                    expect_eq(str(inst), text, "string")
                with BytesIO(want + b"rest") as stream:
                    got = StringPrimitive.from_stream(
                        stream,
                        kind=normalize(kind),
                        byte_order=orders[order],
                    )
                    expect_eq(got.value, text, "read")
                    expect_eq(got.size, len(want), "size after reading")
                    expect_eq(stream.read(), b"rest", "consumed")
                    expect(got == inst and got == text, "equality")
                stats.step()
                stats.outcome((order, kind, text))
        # Limits of the prefix.
        if kind == "uint8":
            for count in (254, 255, 256, 300):
                inst = StringPrimitive(
                    "ok", kind=normalize(kind), byte_order=orders[order]
                )
                expect_eq(
                    raises(lambda: inst.set("x" * count)),
                    count > 255,
                    "oversized",
                )
                want_len = 2 if count > 255 else count
                with BytesIO() as stream:
                    inst.write(stream)
                    expect_eq(
                        stream.getvalue()[0], want_len, "prefix", count
                    )
                    expect_eq(len(stream.getvalue()), want_len + 1, "size")
        return None

    check.add("strings", strings, split=2, limit_s=120)
    return check
