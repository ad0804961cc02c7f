"""Reference (boring, independent) encodings used as oracles."""

from __future__ import annotations

import struct
import sys
from fractions import Fraction

INTS = {
    "int8": (1, True),
    "int16": (2, True),
    "int32": (4, True),
    "int64": (8, True),
    "uint8": (1, False),
    "uint16": (2, False),
    "uint32": (4, False),
    "uint64": (8, False),
}
FLOATS = {"half": (2, ">e"), "float": (4, ">f"), "double": (8, ">d")}
SIZES = {
    **{k: v[0] for k, v in INTS.items()},
    **{k: v[0] for k, v in FLOATS.items()},
    "bool": 1,
}
ORDERS = ("NATIVE", "LITTLE_ENDIAN", "BIG_ENDIAN", "NETWORK")


def little(order: str) -> bool:
    """Whether a byte order is little-endian here."""
    return order == "LITTLE_ENDIAN" or (
        order == "NATIVE" and sys.byteorder == "little"
    )


def encode(kind: str, value, order: str) -> bytes:
    """Encode a value."""
    if kind == "bool":
        return b"\x01" if value else b"\x00"
    if kind in INTS:
        size, signed = INTS[kind]
        return int(value).to_bytes(
            size, "little" if little(order) else "big", signed=signed
        )
    big = struct.pack(FLOATS[kind][1], value)
    return big[::-1] if little(order) else big


def decode(kind: str, data: bytes, order: str):
    """Decode a value."""
    if kind == "bool":
        return data != b"\x00"
    if kind in INTS:
        return int.from_bytes(
            data, "little" if little(order) else "big", signed=INTS[kind][1]
        )
    big = data[::-1] if little(order) else data
    return struct.unpack(FLOATS[kind][1], big)[0]


def bounds(kind: str) -> tuple[int, int]:
    """Integer bounds."""
    size, signed = INTS[kind]
    bits = size * 8
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def wrap(kind: str, value: int) -> int:
    """Two's complement wrap-around."""
    size, signed = INTS[kind]
    value &= (1 << (size * 8)) - 1
    if signed and value >> (size * 8 - 1):
        value -= 1 << (size * 8)
    return value


def stored(kind: str, value):
    """What a primitive of this kind holds after assigning a value."""
    if kind == "bool":
        return bool(value)
    if kind in INTS:
        return wrap(kind, int(value))
    if kind in ("half", "float"):
        # There's no half storage type, halves are held as singles.
        if value != value or value in (float("inf"), float("-inf")):
            return value
        try:
            return struct.unpack(">f", struct.pack(">f", value))[0]
        except OverflowError:
            return float("inf") if value > 0 else float("-inf")
    return float(value)


def int_values(kind: str) -> list[int]:
    """All values (8/16 bit) or all power-of-two boundaries (32/64 bit)."""
    lo, hi = bounds(kind)
    size = INTS[kind][0]
    if size <= 2:
        return list(range(lo, hi + 1))
    out = {lo, lo + 1, hi, hi - 1, 0, 1}
    for bit in range(size * 8 + 1):
        for delta in (-1, 0, 1):
            for sign in (1, -1):
                out.add(sign * (1 << bit) + delta)
    pat = 0
    for byte in range(size):
        pat = (pat << 8) | (byte * 17 + 1)
        out.add(pat)
        out.add(-pat)
        for val in range(256):
            out.add(val << (8 * byte))
    return sorted(x for x in out if lo <= x <= hi)


def float_values(kind: str) -> list[float]:
    """All half patterns, or every exponent with boundary mantissas."""
    size, fmt = FLOATS[kind]
    ibits = size * 8
    mant = {"half": 10, "float": 23, "double": 52}[kind]
    ebits = ibits - 1 - mant
    out = []
    if kind == "half":
        patterns = range(1 << 16)
    else:
        patterns = []
        mants = [0, 1, (1 << mant) - 1, 1 << (mant - 1), (1 << mant) // 3]
        for sign in (0, 1):
            for exp in range(1 << ebits):
                for man in mants:
                    patterns.append(
                        (sign << (ibits - 1)) | (exp << mant) | man
                    )
    for pat in patterns:
        val = struct.unpack(fmt, pat.to_bytes(size, "big"))[0]
        if val == val:
            out.append(val)
    return out


def poly(value, scaling) -> Fraction:
    """Exact scaling polynomial."""
    result = Fraction(0)
    for idx, coeff in enumerate(scaling):
        result += Fraction(coeff) * Fraction(value) ** idx
    return result
