"""C27: .addinstr - instructions a program defines itself."""
import random
import re
import struct
from vlib import *
import expr

BUILTIN = {"ld": [("a,*", b"\x3e", 1), ("(hl),a", b"\x77", 0), ("bc,*", b"\x01", 2), ("h,l", b"\x65", 0), ("(*),hl", b"\x22", 2)], "inc": [("hl", b"\x23", 0), ("(hl)", b"\x34", 0)],
           "add": [("a,b", b"\x80", 0), ("hl,de", b"\x19", 0), ("a,*", b"\xc6", 1)], "nop": [("", b"\0", 0)], "push": [("bc", b"\xc5", 0)], "ret": [("", b"\xc9", 0), ("nz", b"\xc0", 0)],
           "call": [("*", b"\xcd", 2)], "ex": [("de,hl", b"\xeb", 0)]}
NEW = ["foo", "mvw", "x2", "ldx", "addw", "push2", "nopp", "inca", "swap_hl", "zz"]
LITERAL = ["(hl+)", "a,(hl+)", "(hl-),b", "hl,a,(hl)", "(bc+),a", "a", "a,b", "hl", "(de)", "sp+", "c,d,e", "(ix),(iy)", "bc,hl", "[hl]", "nz", "hl,de,bc", "(hl)", "(hl),a", "de,hl", "h,l"]
WILD = ["*", "(*)", "a,*", "b,*", "(hl+),*", "*,a", "hl,*,de", "(*),hl", "c,(*)", "bc,*"]


def rx(p):
    return re.compile("".join("[^,]+?" if c == "*" else re.escape(c) for c in p) + r"\Z")


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    ez = r.random() < .25
    adl = ez
    env, later = {}, {}
    for i in range(r.randrange(3)):
        later["fw%d" % i] = r.choice([0, 1, 100, 255, r.randrange(128)])
        later["fx%d" % i] = r.randrange(65536)
    table = {n: [(a, d, k, b"", True) for a, d, k in v] for n, v in BUILTIN.items()}
    lines, out, bad = [], b"", []
    pc = 0
    faulty = r.random() < .25

    def say(n):
        return r.choice([n, n.upper(), n.capitalize(), n])

    def spaced(t):
        # white space around commas
        return re.sub(",", lambda m: r.choice([",", ", ", " , ", ","]), t)

    def use(n):
        """-> text, bytes or None"""
        defs = table[n]
        i = r.randrange(len(defs))
        a, data, k, end, built = defs[i]
        text, val = a, None
        if "*" in a:
            names = {**{x: v for x, v in env.items()}, **later}
            if k == 1:
                small = [x for x in names if 0 <= names[x] < 256]
                v = r.choice([0, 1, 255, 128, -1, -128, r.randrange(256)])
                t = "%d" % v
                if small and r.random() < .5:
                    t = r.choice(small)
                    v = names[t]
            else:
                v = r.choice([0, 65535, 256, r.randrange(65536), 1])
                t = r.choice(["$%X", "%d"]) % v
                if names and r.random() < .5:
                    t = r.choice(sorted(names))
                    v = names[t]
                    j = r.randrange(3)
                    t, v = (t + "+%d" % j, v + j) if v + j < 65536 else (t, v)
            text = a.replace("*", t)
            val = v
        # (the newest one that fits is taken)
        for b in defs[:i]:
            if rx(b[0]).match(text):
                return None
        if built and a.startswith(("(*", "*")) is False and "*" in a and r.random() < 0:
            return None
        width = k if not (ez and adl and k == 2) else 3
        by = data + (b"" if val is None else (val & 0xFFFFFF).to_bytes(3, "little")[:width]) + end
        if r.random() < .3:
            text = text.upper() if not any(c in text for c in "fw") else text
        return say(n) + (" " + spaced(text) if text else ""), by
    for _ in range(r.choice([4, 10, 25])):
        k = r.random()
        if k < .35:
            n = r.choice(NEW) if r.random() < .6 else r.choice(sorted(BUILTIN))
            if n in BUILTIN:
                a = r.choice(LITERAL + ["(hl+),*"])
            else:
                a = r.choice(LITERAL + WILD + WILD + [""])
            kind = 0
            if "*" in a:
                kind = r.choice([1, 2])
            dn = r.randrange(1, 5)
            data = bytes(r.randrange(256) for _ in range(dn))
            end = bytes((r.randrange(256),)) if r.random() < .2 else b""
            if a and any(rx(a).match(x[0]) and x[0] != a for x in table.get(n, [])) and "*" in a:
                continue
            arg = a if a else '""'
            h = data[::-1].hex()
            h = r.choice([h, h.upper()])
            w = lambda: r.choice([" ", "  ", "\t"])
            size = dn + kind + len(end)
            s = r.choice([".addinstr", ".ADDINSTR"]) + w() + say(n) + w() + (arg if r.random() < .6 else arg.upper()) + w() + h + w() + r.choice(["%d", "%d", "$%x"]) % size
            if end:
                s += w() + "NOP" + w() + "1" + w() + end.hex()
            elif r.random() < .4:
                s += w() + "NOP" + r.choice(["", w() + "1"])
            lines.append(r.choice(["", " "]) + s)
            table.setdefault(n, []).insert(0, (a, data, kind, end, False))
            o.count("defined")
        elif k < .42:
            # no effect
            n = r.choice(NEW)
            lines += ["#if 0", ".addinstr %s A 123456 3" % n, "#endif"]
        elif k < .46 and faulty:
            n = r.choice(NEW)
            t = r.choice([".addinstr", ".addinstr %s", ".addinstr %s A", ".addinstr %s A 12", ".addinstr %s A 5G 1", ".addinstr %s A 1234 1", ".addinstr %s A 1122334455 5", ".addinstr %s A 12 300", ".addinstr %s A 12 0",
                          ".addinstr %s A 12 -1"])
            lines.append(" " + (t % n if "%s" in t else t))
            bad.append((len(lines), "SE126"))
        elif k < .5:
            n = "lab%d" % len(lines)
            env[n] = pc
            lines.append(n + ":")
        elif k < .54:
            n = "eq%d" % len(lines)
            env[n] = r.choice([0, 7, 255, 300, 65000])
            lines.append("%s = %d" % (n, env[n]))
        elif k < .58 and table:
            # inside a macro, with the meaning at the call
            n = r.choice(sorted(table))
            u = use(n)
            if u:
                m = "mac%d" % len(lines)
                lines += ["#macro %s()" % m, " " + u[0], "#endmacro", " %s()" % m]
                out += u[1]
                pc += len(u[1])
        elif ez and k < .6:
            adl = not adl
            lines.append(" .assume adl=%d" % adl)
        else:
            n = r.choice(sorted(table))
            if faulty and r.random() < .05:
                free = [x for x in NEW if x not in table]
                if free:
                    n = r.choice(free)
                    lines.append(" %s a" % n)
                    bad.append((len(lines), "SE113"))
                continue
            u = use(n)
            if u:
                pre = r.choice(["", "", "", "l%d:" % len(lines), " nop \\"])
                post = r.choice(["", "", " ; x", " \\ nop"])
                if ("nop" in pre or "nop" in post) and any(not d[4] and d[0] == "" for d in table["nop"]):
                    continue
                lines.append(pre + " " + u[0] + post)
                b = (b"\0" if "nop" in pre else b"") + u[1] + (b"\0" if "nop" in post else b"")
                out += b
                pc += len(b)
                o.count("used")
    # (the forward names)
    lines += ["%s = %d" % kv for kv in later.items()]
    files = {"t.asm": "\n".join(lines) + "\n"}
    args = ["-N"] + (["-E"] if ez else []) + ["t.asm", "t.bin"]
    x = wk.run(files, args)
    if wk.crashed(x, files, args):
        return
    o.evals += 1
    if bad:
        o.count("refused", len(bad))
        errs = sorted((int(l), c) for l, c in re.findall(r"(?m)^t\.asm:(\d+): error (S\w+)", x.out))
        errs = [e for e in errs if not e[1].startswith("SE2") or (e[0], "SE126") not in errs]     # (says why)
        if errs != sorted(bad) or x.rc != 3:
            o.violation("errors", "errors %s, expected %s; status %s\n%s" % (errs, sorted(bad), x.rc, x.out[-900:]), files, args)
        return
    o.nontrivial(out)
    o.sample({"text": files["t.asm"][:300], "bytes": out.hex()[:80]})
    if x.rc != 0:
        o.violation("status", "exit status %s\n%s" % (x.rc, x.out[-900:]), files, args)
        return
    got = x.file("t.bin") or b""
    if got != out:
        i = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
        o.violation("bytes", "%d bytes, expected %d; first difference at %d: %s, expected %s" % (len(got), len(out), i, got[max(0, i - 4):i + 8].hex(), out[max(0, i - 4):i + 8].hex()), files, args)


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program of .addinstr definitions and uses whose bytes (or errors) were compared with the model; distinct = distinct outputs"
    ctx.assumptions = ["at most one * in the operands, and a size that is the number of bytes that make up the instruction"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(20000, 150000))])
    ctx.finish(minimum=3000, min_distinct=1000)
