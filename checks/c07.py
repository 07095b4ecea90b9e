"""C07: operand ranges - out-of-range operands are diagnosed, in-range ones are not."""
import random
import re
from vlib import *
import meta
import expr

N8 = [("ld a,%s", b"\x3e"), ("ld (hl),%s", b"\x36"), ("cp %s", b"\xfe"), ("add a,%s", b"\xc6"), ("and %s", b"\xe6"), ("in a,(%s)", b"\xdb"),
      ("out (%s),a", b"\xd3"), ("ld (ix+3),%s", b"\xdd\x36\x03"), (".db %s", b""), (".byte 1,%s", b"\x01"), ("ld l,%s", b"\x2e"), ("sub %s", b"\xd6"), ("ld ixh,%s", b"\xdd\x26")]
N16 = [("ld hl,%s", b"\x21"), ("ld bc,%s", b"\x01"), ("call %s", b"\xcd"), ("ld a,(%s)", b"\x3a"), (".dw %s", b""), (".word 7,%s", b"\x07\x00"), ("ld iy,%s", b"\xfd\x21")]
S16 = [("ld.sis hl,%s", b"\x40\x21"), ("ld.lis bc,%s", b"\x49\x01"), ("call.sis %s", b"\x40\xcd"), ("ld.sis ix,%s", b"\x40\xdd\x21"), ("jp.lis nz,%s", b"\x49\xc2")]
L24 = [("ld.lil hl,%s", b"\x5b\x21"), ("ld.sil de,%s", b"\x52\x11"), ("call.lil %s", b"\x5b\xcd"), (".dl %s", b""), (".long 1,%s", b"\x01\0\0")]
IDX = ["ld a,(%s)", "inc (%s)", "ld (%s),b", "add a,(%s)", "bit 3,(%s)", "res 0,(%s)", "rl (%s)", "ld (%s),9"]
BIT = ["bit %s,a", "set %s,(hl)", "res %s,b", "bit %s,(ix+1)", "set %s,(iy-2)"]
RSTV = [0, 8, 16, 24, 32, 40, 48, 56]


def val(rng, edges, lo, hi):
    return rng.choice(edges) if rng.random() < .7 else rng.randint(lo, hi)


def wide(rng, lo):
    """a value above lo, of any size"""
    return min(lo + rng.choice([rng.randrange(8), rng.randrange(300), rng.randrange(1 << rng.randrange(8, 31)), 1 << rng.randrange(9, 31), (1 << rng.randrange(17, 31)) - lo]), (1 << 31) - 2000)


def sweep(item, wk):
    """every value of a range, in one program, decided one by one by the messages"""
    _, kind, lo, hi = item
    o = wk.obs
    t, code, good = {"rst": ("rst V%d", "SE127", RSTV), "bit": ("bit V%d,(hl)", "", range(8)), "idx": ("ld a,(ix+V%d)", "SE121", range(-128, 128))}[kind]
    vs = list(range(lo, hi))
    files = {"r.asm": "".join(" %s\n" % (t % i) for i in range(len(vs))) + "".join("V%d .equ %d\n" % iv for iv in enumerate(vs))}
    args = ["-N", "r.asm", "r.bin"]
    r = wk.run(files, args)
    o.evals += len(vs)
    if wk.crashed(r, files, args):
        return
    got = {int(l): c or "" for l, c in re.findall(r"^r\.asm:(\d+): error(?: (S[EW]\d+))?:", r.out, re.M)}
    want = {i + 1: code for i, v in enumerate(vs) if v not in good}
    for i, v in enumerate(vs):
        o.nontrivial((kind, v, v in good))
        o.count("%s %s" % (kind, "good" if v in good else "bad"))
    if got != want:
        d = sorted((vs[l - 1], got.get(l), want.get(l)) for l in set(got) | set(want) if got.get(l) != want.get(l))
        o.violation("sweep:" + kind, "values with other diagnostics than expected (value, got, expected): %s" % d[:20], files, args)
    elif r.rc not in ((2, 3) if want else (0,)):
        o.violation("status", "exit %s" % r.rc, files, args)


def case(item, wk):
    if isinstance(item, tuple):
        return sweep(item, wk)
    rng = random.Random(item)
    ez = rng.random() < .35
    lines, exp, diag, post = [], b"", {}, []
    names = 0
    errkind = rng.choice([None, None, "idx", "bit", "rst", "sign"])
    early = rng.random() < .5  # where erroneous operands are resolved
    adl = ez and rng.random() < .5
    if ez and (not adl or rng.random() < .3):
        lines.append(" .assume adl=%d" % adl)
    o = wk.obs
    n = rng.randrange(4, 25)
    bads = 0

    def operand(v, fwd):
        nonlocal names
        k = rng.random()
        if fwd or k < .3:
            names += 1
            nm = "V%d" % names
            (post if fwd else lines).append("%s .equ %d" % (nm, v))
            return nm
        if k < .6:
            return str(v)
        if k < .8 and v >= 0:
            return "$%X" % v
        a = rng.randrange(1000)
        return "%d%+d" % (a, v - a) if v - a >= 0 else "%d-%d" % (a, a - v)
    for i in range(n):
        fwd = rng.random() < .4
        k = rng.random()
        if errkind and k < .25:
            want = rng.random() < .5
            if want:
                fwd = not early
            if errkind == "idx":
                t = rng.choice(IDX)
                v = rng.choice([127, -128, 0, 5, -1, 126, -127, rng.randint(-128, 127)]) if not want else rng.choice([128, -129, 129, 255, 256, -130, 1000, -256, 383, wide(rng, 128), -wide(rng, 129)])
                op = operand(abs(v), fwd)
                if not (op.isdigit() or op[0] in "$V"):
                    op = str(abs(v))
                s = t % (rng.choice(["ix", "iy"]) + ("+" if v >= 0 else "-") + op)
                code = "SE121"
            elif errkind == "bit":
                t = rng.choice(BIT)
                v = rng.randrange(8) if not want else rng.choice([8, 9, -1, 16, 255, 256, wide(rng, 8), -wide(rng, 1)])
                s, code = t % operand(v, fwd), ""
            elif errkind == "rst":
                v = rng.choice(RSTV) if not want else rng.choice([1, 4, 7, 9, 57, 64, 0x80, -8, 256, 0x3F, wide(rng, 57), rng.choice([x for x in range(256) if x not in RSTV]), -wide(rng, 1)])
                s, code = "rst " + operand(v, fwd), "SE127"
            else:
                want = True
                s, code = rng.choice(IDX) % (rng.choice(["ix", "iy"]) + rng.choice(["*2", "/1", "&3"])), "SE131"
            lines.append(" " + s)
            if want:
                diag[len(lines)] = ("error", code)
                bads += 1
            o.nontrivial((s, want))
            o.count("%s %s" % (errkind, "bad" if want else "good"))
            exp = None
            continue
        if ez and rng.random() < .15:
            # (24 bits are never out of range)
            t, pre = rng.choice(L24 + [(t, p) for t, p in N16 if adl and t[0] != "."])
            v = rng.choice([0, -1, 0x800000, -0x800000, -0x800001, 0xFFFFFF, 0x1000000, wide(rng, 65536), -wide(rng, 32768)])
            w = False
            code, bits = "", 24
        elif ez and k < .6 or k < .35:
            t, pre = rng.choice([x for x in N16 if not adl or x[0][0] == "."] + (S16 if ez else []))
            v = val(rng, [-32769, -32768, 65535, 65536, 0, -1, 32767, 32768, -40000, 0x12345, 65537, 0xFFFFFF, 0x1000000, wide(rng, 65536), -wide(rng, 32769)], -100000, 200000)
            w = ez and not -32768 <= v <= 65535
            code, bits = "SW801", 16
        else:
            t, pre = rng.choice(N8)
            v = val(rng, [-129, -128, 255, 256, 0, -1, 127, 128, -130, 257, 511, 512, -256, 65536, wide(rng, 256), -wide(rng, 129)], -400, 600)
            w = not -128 <= v <= 255
            code, bits = "SW800", 8
        lines.append(None)
        at = len(lines) - 1
        s = t % operand(v, fwd)
        if len(lines) - 1 > at:  # the equate goes first
            lines[at] = lines.pop()
            lines.append(" " + s)
        else:
            lines[at] = " " + s
        ln = len(lines)
        if w:
            diag[ln] = ("warning", code)
        if exp is not None:
            exp += pre + (v & ((1 << bits) - 1)).to_bytes(bits // 8, "little")
        o.nontrivial((t, v, ez))
        o.count("%d bit %s" % (bits, "out" if w else "in"))
    files = {"r.asm": "\n".join(lines + post) + "\n"}
    args = (["-E"] if ez else []) + ["-N", "r.asm", "r.bin"]
    r = wk.run(files, args)
    o.evals += n
    if wk.crashed(r, files, args):
        return
    got = {}
    for l, kind, code in re.findall(r"^r\.asm:(\d+): (warning|error)(?: (S[EW]\d+))?:", r.out, re.M):
        got.setdefault(int(l), set()).add((kind, code))
    if not bads:
        want = {l: {d} for l, d in diag.items()}
        if got != want:
            o.violation("diagnostics", "expected exactly %s, got %s\n%s" % (want, got, r.out[-800:]), files, args)
        elif r.rc != (1 if diag else 0):
            o.violation("status", "exit %s with diagnostics %s" % (r.rc, diag), files, args)
        elif exp is not None and r.file("r.bin") != exp:
            g = r.file("r.bin")
            o.violation("truncation", "bytes %s, expected %s" % (g and g.hex(), exp.hex()), files, args)
        return
    # with errors: every wrong operand has its error, nothing else has one
    goterr = {l: {c for k, c in s if k == "error"} for l, s in got.items() if any(k == "error" for k, c in s)}
    wanterr = {l: {d[1]} for l, d in diag.items() if d[0] == "error"}
    if goterr != wanterr:
        o.violation("errors", "expected errors %s, got %s\n%s" % (wanterr, goterr, r.out[-800:]), files, args)
    elif r.rc not in (2, 3):
        o.violation("status", "exit %s although errors were reported" % r.rc, files, args)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "later")


def check(ctx):
    ctx.rule = "one evaluation = one statement with a boundary-heavy operand; the set of diagnostics (line, code) and the bytes are compared with the model"
    ctx.build("san")
    sweeps = [("sweep", k, lo, lo + 64) for k, a, b in (("rst", -64, 320), ("bit", -64, 320), ("idx", -320, 576)) for lo in range(a, b, 64)]
    ctx.pmap(case, sweeps + ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(20000, 150000))])
    ctx.pmap(others, ["C07/%s/l%d" % (ctx.seed, i) for i in range(ctx.n(6000, 40000))])
    ctx.finish(minimum=500, min_distinct=200)
