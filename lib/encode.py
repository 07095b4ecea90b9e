"""Random instances of instruction forms, and the batch/isolate runner shared by
the checks that compare output bytes statement by statement."""
import re
import expr


class Names:
    """Equates usable in operands: half defined before the code, half after."""

    def __init__(self, rng):
        self.before, self.after = {}, {}
        for i, v in enumerate([0, 1, 2, 3, 4, 5, 6, 7, -1, -128, 127, 255, 256, 0x1234, 0xFFFF, 0x8000, 8, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38]):
            (self.before if rng.random() < .5 else self.after)["%s%d" % (rng.choice(["Nm", "v_", "lab.x", "Q"]), i)] = v

    def all(self):
        d = dict(self.before)
        d.update(self.after)
        return d

    def head(self):
        return ["%s .equ %d" % kv for kv in sorted(self.before.items())]

    def tail(self):
        return ["%s = %d" % kv for kv in sorted(self.after.items())]


def number(rng, lo, hi, names, edges=()):
    """(text, value) for an operand in lo..hi; text never starts with '('."""
    k = rng.random()
    if k < .25 and names:
        cand = sorted((n, v) for n, v in names.all().items() if lo <= v <= hi)
        if cand:
            n, v = rng.choice(cand)
            if rng.random() < .3:
                n = n.swapcase()
            return n, v
    if k < .45:
        v = rng.choice([x for x in [lo, lo + 1, hi - 1, hi, 0, 1] + list(edges) if lo <= x <= hi])
    else:
        v = rng.randint(lo, hi)
    if v < 0:
        return "-" + expr.literal(rng, -v)[0], v
    if rng.random() < .15:
        a = rng.randint(0, v)
        return expr.literal(rng, v - a)[0] + rng.choice(["+", " + "]) + expr.literal(rng, a)[0], v
    t, _ = expr.literal(rng, v)
    return t, v


def spell(rng, text, sfx=""):
    """Case and whitespace variants of a template that assemble to the same thing."""
    m, _, rest = text.partition(" ")
    m += sfx
    parts = re.split(r"(\{\w+\})", rest)
    c = rng.randrange(4)
    f = [str.lower, str.upper, str.lower, lambda s: "".join(x.upper() if rng.random() < .5 else x for x in s)][c]
    m = f(m)
    out = ""
    for p in parts:
        if p.startswith("{"):
            out += p
            continue
        p = f(p)
        if rng.random() < .3:
            p = re.sub(",", lambda _: rng.choice([" ,", ", ", "  ,\t", ","]), p)
        if rng.random() < .1:
            p = p.replace("(", "( ").replace(")", " )")
        out += p
    return m + (rng.choice([" ", "  ", "\t", " \t "]) + out if out else "")


def instance(rng, form, pc, names, wide=False, prefix=None, sfx=""):
    """-> (statement text, bytes). pc = address of the first byte."""
    text, code = form
    ops = {}
    m = re.match(r"(bit|res|set|rst)(\s+)(\$?\d\w*)(.*)$", text, re.I)
    if m and names and rng.random() < .5:  # the bit number or target as a name or expression
        v = expr.evaluate(m.group(3), {})
        cand = sorted(n for n, x in names.all().items() if x == v)
        if cand:
            text = m.group(1) + m.group(2) + "{b}" + m.group(4)
            k = rng.random()
            n = rng.choice(cand)
            ops["b"] = n if k < .6 else n.swapcase() if k < .7 else "%s+0" % n if k < .85 else "%d-%s" % (2 * v, n)
    t = spell(rng, text, sfx)
    n = len(code) + (1 if prefix is not None else 0) + (1 if wide and "h" in code else 0)
    vals = {}
    if "{nn}" in t:
        lo, hi = (-32768, 0xFFFF) if not wide else (-(1 << 23), 0xFFFFFF)
        ops["nn"], vals["nn"] = number(rng, lo, hi, names, (0x4000, 0x8000, 255, 256))
    if "{n}" in t:
        ops["n"], vals["n"] = number(rng, -128, 255, names, (127, 128))
    if "{d}" in t:
        k = rng.random()
        if k < .1:
            ops["d"], vals["d"] = "", 0
        elif k < .6:
            s, v = number(rng, 0, 127, names)
            ops["d"], vals["d"] = "+" + s, v
        else:
            s, v = number(rng, 0, 128, None)
            s, v = expr.literal(rng, rng.choice([0, 1, 127, 128, rng.randrange(129)]))
            ops["d"], vals["d"] = "-" + s, -v
    if "{e}" in t:
        off = rng.choice([-128, -127, -2, -1, 0, 1, 126, 127, rng.randint(-128, 127)])
        tgt = pc + n + off
        if rng.random() < .5 or tgt < 0:
            k = n + off
            ops["e"] = "$%s%s" % ("+" if k >= 0 else "-", expr.literal(rng, abs(k))[0])
        else:
            ops["e"] = expr.literal(rng, tgt)[0]
        vals["e"] = off
    s = t.format(**ops)
    out = [] if prefix is None else [prefix]
    for c in code:
        if c == "n":
            out.append(vals["n"] & 255)
        elif c == "l":
            out.append(vals["nn"] & 255)
        elif c == "h":
            out.append(vals["nn"] >> 8 & 255)
            if wide:
                out.append(vals["nn"] >> 16 & 255)
        elif c in ("d", "e"):
            out.append(vals[c] & 255)
        else:
            out.append(c)
    return s, bytes(out)


def run_batch(wk, stmts, head, tail, org, args=(), key="bytes", decorate=None):
    """stmts: list of (text, bytes, label-for-key). Compare the whole file's output, then isolate."""
    o = wk.obs
    o.evals += len(stmts)

    def one(sel, pc):
        body = head + [" .org %d" % pc]
        if decorate and len(sel) > 1:
            body += decorate([s[0] for s in sel])
        else:
            body += [" " + (s[3] if len(s) > 3 and len(sel) == 1 else s[0]) for s in sel]
        files = {"t.asm": "\n".join(body + tail) + "\n"}
        av = list(args) + ["t.asm", "t.bin"]
        r = wk.run(files, av)
        exp = b"".join(s[1] for s in sel)
        if r.sanitizer or r.timed_out:
            return files, av, r, "crash"
        if r.rc not in (0, 1) or "error" in r.out:
            return files, av, r, "exit %s: %s" % (r.rc, r.out[-500:])
        got = r.file("t.bin")
        if got != exp:
            return files, av, r, "assembled to %s, expected %s" % (got.hex() if got is not None else None, exp.hex())
        return files, av, r, None
    f, av, r, bad = one(stmts, org)
    if not bad:
        return True
    pc, found = org, 0
    for s in stmts:
        f1, av1, r1, b1 = one([s], pc)
        pc += len(s[1])
        if b1:
            found += 1
            if b1 == "crash":
                wk.crashed(r1, f1, av1)
            else:
                o.violation("%s:%s" % (key, s[2]), "%r at %#x: %s" % (s[0], pc - len(s[1]), b1), f1, av1)
            if found >= 3:
                break
    if not found:
        if bad == "crash":
            wk.crashed(r, f, av)
        else:
            o.violation(key + ":batch", bad[:2000], f, av)
    return False
