"""C13: data directives, .fill/.block, .org and .seek lay out the output file."""
import random
import re
from vlib import *
import meta
import expr

ESC = [("\\n", 10), ("\\r", 13), ("\\t", 9), ("\\\\", 92), ('\\"', 34), ("\\0", 0), ("\\'", 39), ("\\N", 10), ("\\R", 13), ("\\T", 9)]
ESC += ESC + [("\\" + c, ord(c)) for c in "AZKMqxaeHD;(),%*19/"]
PLAIN = "".join(chr(c) for c in range(32, 127) if chr(c) not in '"\\')


def string(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])
    t, b = "", b""
    for _ in range(n):
        k = rng.random()
        if k < .2:
            e, v = rng.choice(ESC)
            t += e
            b += bytes([v])
        elif k < .25:
            v = rng.randrange(128, 256)
            t += chr(v)
            b += bytes([v])
        else:
            c = rng.choice(PLAIN) if rng.random() < .7 else rng.choice(";,()'#$%*=:.\t <>&|+-/^")
            t += c
            b += c.encode()
    return '"' + t + '"', b


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    ez = rng.random() < .25
    pc = rng.choice([0, 0x100, 0x4000, 0x9D95, 0xFF00]) if not ez else rng.choice([0, 0x4000, 0xD1A881])
    env = {"EA": rng.randrange(100), "EB": -rng.randrange(1, 100), "EC": rng.randrange(1 << 16)}
    fwd = {"Fa": rng.randrange(200), "Fb": rng.randrange(1 << 16)}
    out = ["%s = %d" % kv for kv in env.items()] + [" .org %d" % pc]
    buf = bytearray()
    pos = 0
    late = []

    def put(b):
        nonlocal pos, pc
        if pos > len(buf):
            buf.extend(bytes(pos - len(buf)))
        buf[pos:pos + len(b)] = b
        pos += len(b)
        pc += len(b)

    def value(w):
        """-> (text, value) in range for w bytes, no warning"""
        k = rng.random()
        lo, hi = {1: (-128, 255), 2: (-32768, 65535), 3: (-(1 << 23), (1 << 24) - 1)}[w]
        allv = dict(env)
        allv.update(fwd)
        if k < .2:
            return None, None  # '$'
        if k < .4:
            n = rng.choice(sorted(allv))
            t, v = n, allv[n]
            if not lo <= v <= hi:
                t, v = "%s&%d" % (n, hi), v & hi
            return t, v
        if k < .55:
            c = rng.choice(expr.CHARS)
            return c
        if k < .65:
            e = expr.simple(rng, sorted(allv), 1)
            return "(%s)&%d" % (e, hi), expr.evaluate(e, {a.upper(): b for a, b in allv.items()}) & hi
        v = rng.choice([lo, hi, 0, -1, 1, 127, 128, hi // 2]) if rng.random() < .4 else rng.randint(lo, hi)
        if v < 0:
            return "-" + expr.literal(rng, -v)[0], v
        return expr.literal(rng, v)[0], v
    high = pos
    for _ in range(rng.choice([3, 10, 30, 80])):
        if not ez and pc > 0xFFFF - 600:
            pc = rng.choice([0, 0x4000])
            out.append(" .org %d" % pc)
        k = rng.random()
        cm = rng.choice(["", "", " ; c", "\t;\"x", " "])
        lead = rng.choice([" ", "\t", "  ", "lb%d: " % len(out)])
        if k < .6:
            d, w = rng.choice([("db", 1), ("byte", 1), ("dw", 2), ("word", 2), ("dl", 3), ("long", 3), ("DB", 1), ("Dw", 2)])
            items, b = [], []
            p = pc
            for _ in range(rng.choice([1, 1, 2, 3, 6, 15])):
                if rng.random() < .3:
                    t, bb = string(rng)
                else:
                    t, v = value(w)
                    if t is None:
                        m = {1: 255, 2: 65535, 3: 0xFFFFFF}[w]
                        t, v = ("$&%d" % m if w == 1 or ez else "$"), p & m if w == 1 or ez else p
                    bb = (v & (1 << 8 * w) - 1).to_bytes(w, "little")
                items.append(t)
                b.append(bb)
                p += len(bb)
            s = lead + "." + d + rng.choice([" ", "  ", "\t"])
            # the whole statement and each value have to stay short
            s += "".join(t + (rng.choice([",", ", ", " , ", ",\t"]) if i + 1 < len(items) else "") for i, t in enumerate(items))
            out.append(s + cm)
            put(b"".join(b))
            o.evals += len(items)
            o.count(d.lower(), len(items))
            for x, y in zip(items, b):
                o.nontrivial((w, x, y))
        elif k < .72:
            n = rng.choice([0, 1, 2, 7, 100, 255, 256, 257, rng.randrange(500)])
            tn = rng.choice(["%d" % n, "$%X" % n, "EA-EA+%d" % n, "%d*1" % n])
            d = rng.choice(["fill", "block", "FILL"])
            if rng.random() < .5:
                v = rng.choice([0, 1, 255, -1, -128, 128, rng.randrange(256)])
                out.append("%s.%s %s%s%d%s" % (lead, d, tn, rng.choice([",", ", ", " ,"]), v, cm))
            else:
                v = 0
                out.append("%s.%s %s%s" % (lead, d, tn, cm))
            put(bytes([v & 255]) * n)
            o.evals += 1
            o.count("fill")
            o.nontrivial(("fill", n, v))
        elif k < .80:
            pc = rng.choice([0, 0x100, 0x4000, 0x8000, 0xFE00, pc, pc + 1, rng.randrange(0xFB00)])
            if ez and rng.random() < .4:
                pc += 0xD00000
            out.append("%s.%s %s%s" % (lead, rng.choice(["org", "ORG"]), expr.literal(rng, pc)[0], cm))
            if lead.startswith("lb"):
                out.pop()
                out.append(" .org %d" % pc)
            o.count("org")
        elif k < .86:
            d = rng.choice([0, 1, -1, 5, 100, -min(pos, 30), -rng.randrange(pos + 1)])
            if pos + d < 0 or pc + d < 0:
                continue
            pos += d
            pc += d
            out.append(" .%s %s%s" % (rng.choice(["seek", "SEEK"]), expr.literal(rng, pc)[0] if rng.random() < .5 else "$%+d" % d, cm))
            o.count("seek")
            o.evals += 1
        elif k < .93:
            a, b = string(rng)
            v = rng.randrange(256)
            out.append("%s.db %s\\ .db %d \\ .dw $" % (rng.choice([" ", "\t"]), a, v))
            q = b + bytes([v])
            put(q + ((pc + len(q)) & 0xFFFF).to_bytes(2, "little"))
            if "\\ .dw $" in out[-1] and ez and pc > 0xFFFF:
                out[-1] = out[-1][:-1] + "$&$FFFF"
            o.count("joined")
        else:
            out.append(" nop" + cm)
            put(b"\0")
    for k, v in fwd.items():
        out.append("%s .equ %d" % (k, v))
    # a forward reference is stored when it is resolved, which is after any .seek back over it: keep them apart
    if any(".seek" in l.lower() for l in out):
        out = [re.sub(r"(?<![\w$'\"])F([ab])(?![\w'\"])", lambda m: m.group(0), l) for l in out]
        head = ["%s .equ %d" % kv for kv in fwd.items()]
        out = head + [l for l in out if l not in head]
    want = bytes(buf[:pos]) if pos <= len(buf) else bytes(buf) + bytes(pos - len(buf))
    files = {"d.asm": "\n".join(out) + "\n"}
    av = ["-N"] + (["-E"] if ez else []) + rng.choice([[], [], ["-T"]]) + ["d.asm", "d.bin"]
    r = wk.run(files, av)
    o.sample({"source": "\n".join(out[3:8]), "size": len(want)})
    if wk.crashed(r, files, av):
        return
    g = r.file("d.bin")
    if want == b"" and g is None:
        g = b""
    if r.rc != 0 or g != want:
        at = next((i for i in range(min(len(g or b""), len(want))) if g[i] != want[i]), -1)
        o.violation("data", "exit %s, %s bytes, expected %d; first difference at %d: %s, expected %s\n%s" % (
            r.rc, g is not None and len(g), len(want), at, (g or b"")[max(0, at - 4):at + 12].hex(), want[max(0, at - 4):at + 12].hex(), r.out[-500:]), files, av)


BAD = [(".db", "SE104"), (".dw ;x", "SE104"), (".db 1,,2", "SE104"), (".db 1,", "SE104"), (".dl ,1", "SE104"), ('.db "a"+1', "SE119"), ('.dw "a" 5', "SE119"),
       ('.db 1 2', "SE103"), (".byte 5 $6", "SE103"), (".org", ""), (".org -1", ""), (".fill -1", ""), (".fill Later", ""), (".block 5,Later", ""), (".org Later", ""),
       (".seek Later", ""), (".dw undefinedname", "SE106"), (".db 'ab'", ""), (".db 12A", ""), (".db $", None), (".seek -5", ""), (".dz 5", "SE113")]


def bad(item, wk):
    rng = random.Random(item)
    o = wk.obs
    s, code = rng.choice(BAD)
    n = rng.randrange(0, 20)
    lines = [rng.choice([" nop", " .db 1,2", "", "; x"]) for _ in range(n)] + [" " + s] + ["Later .equ 5"]
    files = {"e.asm": "\n".join(lines) + "\n"}
    av = ["-N", "e.asm", "e.bin"]
    r = wk.run(files, av)
    o.evals += 1
    o.count("malformed")
    o.nontrivial((s, n))
    if wk.crashed(r, files, av):
        return
    if code is None:
        if r.rc != 0:
            o.violation("malformed:" + s, "rejected: %s" % r.out[-300:], files, av)
    elif r.rc not in (2, 3) or not re.search(r"^e\.asm:%d: error%s" % (n + 1, " " + code if code else ""), r.out, re.M):
        o.violation("malformed:" + s, "%r on line %d: exit %s\n%s" % (s, n + 1, r.rc, r.out[-400:]), files, av)


def big(item, wk):
    """megabytes of output: sizes, addresses and moves beyond 16 and 20 bits"""
    rng = random.Random(item)
    o = wk.obs
    out, buf, pos, pc = [], bytearray(), 0, rng.choice([0, 0x4000, 0xD1A881])
    ez = rng.random() < .6
    start = pc
    out.append(" .org $%X" % pc)
    labels = {}

    def put(b):
        nonlocal pos, pc
        if pos > len(buf):
            buf.extend(bytes(pos - len(buf)))
        buf[pos:pos + len(b)] = b
        pos += len(b)
        pc += len(b)
    for i in range(rng.randrange(3, 9)):
        k = rng.random()
        if k < .5:
            n = rng.choice([0x10000, 0xFFFF, 70000, 0xFFFFF, 0x100000, 0x100001, 0x180000, 0x1FFFFF, 0x200003, rng.randrange(1 << rng.randrange(10, 22))])
            if pos + n > 7900000:
                continue
            v = rng.randrange(256)
            out.append(" .%s %s,%d" % (rng.choice(["fill", "block"]), rng.choice(["%d", "$%X"]) % n, v))
            put(bytes([v]) * n)
            o.nontrivial(("big", n, v))
            o.count("large fill")
        elif k < .7 and buf:
            to = rng.choice([0, len(buf), rng.randrange(len(buf)), len(buf) + rng.randrange(100000)])
            if to > 7900000:
                continue
            pc, pos = pc + to - pos, to
            out.append(" .seek %s" % (rng.choice(["%d", "$%X"]) % pc))
            o.count("large seek")
        if rng.random() < .7:
            n = "big%d" % i
            out.append(n)
            labels[n] = pc
        out.append(" .dl %s" % (lambda a: "$," + a if a else "$")(rng.choice(sorted(labels)) if labels else ""))
        t = out[-1].split(",")[1] if "," in out[-1] else None
        put((pc & 0xFFFFFF).to_bytes(3, "little") + ((labels[t] & 0xFFFFFF).to_bytes(3, "little") if t else b""))
        o.evals += 1
    want = bytes(buf[:pos]) if pos <= len(buf) else bytes(buf) + bytes(pos - len(buf))
    files = {"d.asm": "\n".join(out) + "\n"}
    av = ["-N"] + (["-E"] if ez else []) + ["d.asm", "d.bin"]
    r = wk.run(files, av, timeout=60)
    if wk.crashed(r, files, av):
        return
    g = r.file("d.bin")
    if r.rc != 0 or g != want:
        at = next((i for i in range(min(len(g or b""), len(want))) if g[i] != want[i]), -1)
        o.violation("large", "exit %s, %s bytes, expected %d; first difference at %d: %s, expected %s\n%s" % (
            r.rc, g is not None and len(g), len(want), at, (g or b"")[max(0, at - 4):at + 12].hex(), want[max(0, at - 4):at + 12].hex(), r.out[-500:]), files, av)


def one(item, wk):
    if item[0] == "l":
        return big(item[1], wk)
    (case if item[0] == "c" else bad)(item[1], wk)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "data")


def check(ctx):
    ctx.rule = "one evaluation = one value, string, fill or seek whose bytes in the output file were compared with the model (or one malformed directive); distinct = distinct (width, text, bytes)"
    ctx.build("san")
    ctx.pmap(one, [("c", "%s/%d" % (ctx.seed, i)) for i in range(ctx.n(15000, 150000))] + [("l", "%s/l%d" % (ctx.seed, i)) for i in range(ctx.n(80, 600))] + [("b", "%s/b%d" % (ctx.seed, i)) for i in range(ctx.n(800, 4000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(minimum=2000, min_distinct=1000)
