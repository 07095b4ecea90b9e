"""Documented execution times (T states) of Z80 instructions, derived from the
opcode bytes: times(template) -> (not taken / last, taken / repeating)."""

BASE = [int(x) for x in """
4 10 7 6 4 4 7 4 4 11 7 6 4 4 7 4
-8 10 7 6 4 4 7 4 12 11 7 6 4 4 7 4
-7 10 16 6 4 4 7 4 -7 11 16 6 4 4 7 4
-7 10 13 6 11 11 10 4 -7 11 13 6 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
7 7 7 7 7 7 4 7 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
4 4 4 4 4 4 7 4 4 4 4 4 4 4 7 4
-5 10 10 10 -10 11 7 11 -5 10 10 0 -10 17 7 11
-5 10 10 11 -10 11 7 11 -5 4 10 11 -10 0 7 11
-5 10 10 19 -10 11 7 11 -5 4 10 4 -10 0 7 11
-5 10 10 4 -10 11 7 11 -5 6 10 4 -10 0 7 11""".split()]
TAKEN = {0x10: (8, 13), 0x20: (7, 12), 0x28: (7, 12), 0x30: (7, 12), 0x38: (7, 12)}


def _base(op):
    t = BASE[op]
    if t >= 0:
        return t, t
    if op in TAKEN:
        return TAKEN[op]
    return (5, 11) if op & 7 == 0 else (10, 17)  # conditional ret and call


def _ed(op):
    x, y, z = op >> 6, (op >> 3) & 7, op & 7
    if x == 1:
        if z in (0, 1):
            t = 12
        elif z == 2:
            t = 15
        elif z == 3:
            t = 20
        elif z == 4:
            t = 8
        elif z == 5:
            t = 14
        elif z == 6:
            t = 8
        else:
            t = 9 if y < 4 else 18
        return t, t
    return (16, 16) if y < 6 else (16, 21)


def times(b):
    """b: template bytes (ints, or letters for operands)."""
    if b[0] == 0xED:
        return _ed(b[1])
    if b[0] == 0xCB:
        m = b[1] & 7 == 6
        t = (12 if b[1] >> 6 == 1 else 15) if m else 8
        return t, t
    if b[0] in (0xDD, 0xFD):
        if b[1] == 0xCB:
            t = 20 if b[3] >> 6 == 1 else 23
            return t, t
        op = b[1]
        lo, hi = _base(op)
        if "d" in b:
            t = 23 if op in (0x34, 0x35) else 19
            return t, t
        return lo + 4, hi + 4
    return _base(b[0])
