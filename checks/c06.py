"""C06: relative jumps - displacement is target minus the following address, and
anything outside -128..127 is an error on that line."""
import random
import re
from vlib import *
import ez80

JUMPS = [("jr %s", 0x18), ("jr nz,%s", 0x20), ("jr z,%s", 0x28), ("jr nc,%s", 0x30), ("jr c,%s", 0x38), ("djnz %s", 0x10)]


def case(item, wk):
    rng = random.Random(item)
    ez = rng.random() < .4
    org = rng.choice([0, 0x100, 0x4000, 0x9D95, 0x14000, 0x3F8000] if not ez else [0x100, 0x4000, 0xD1A881, 0x00FF00])
    adl = True
    badpass = rng.choice([None, None, None, "back", "fwd", "one"])
    lines = [" .org $%X" % org]
    pc = org
    exp = b""
    bad = {}
    seen = []
    n = rng.randrange(1, 12)
    onebad = rng.randrange(n)
    room = (0xFFFF - (org & 0xFFFF)) if not ez else 1 << 20
    for i in range(n):
        if pc - org > room - 1200:
            break
        if ez and rng.random() < .3:
            adl = rng.random() < .5
            lines.append(" .assume adl=%d" % adl)
        t, op = rng.choice(JUMPS)
        pre = b""
        sfx = ""
        if ez and rng.random() < .25:
            sfx = rng.choice(list(ez80.SUFFIX))
            pre = bytes([ez80.suffix_byte(sfx, adl)[0]])
            m, _, rest = t.partition(" ")
            t = m + sfx + " " + rest
        if rng.random() < .3:
            t = t.upper().replace("%S", "%s")
        size = len(pre) + 2
        direction = rng.choice(["fwd", "back"])
        wantbad = badpass == direction or (badpass == "one" and i == onebad)
        if wantbad:
            off = rng.choice([128, 129, 130, 255, 256, 257, 384, 500, rng.randint(128, 600)]) if direction == "fwd" else \
                rng.choice([-129, -130, -256, -257, -255, -384, -rng.randint(129, 600)])
        elif direction == "fwd":
            off = rng.choice([0, 1, 2, 126, 127, 127, rng.randint(0, 127)])
        else:
            off = rng.choice([-128, -128, -127, -size, -size - 1, -rng.randint(size, 128)])
        lab = "T%d" % i
        style = rng.randrange(4)
        if direction == "back" and -off < size:
            off = -size
        if style == 0:  # through the location counter
            k = off + size
            txt = "$%+d" % k
            if off + size + pc < 0:
                txt, off = "$", -size
            lines.append(" " + t % txt)
            jl = len(lines)
            exp += pre + bytes([op, off & 255])
            pc += size
            seen.append(("pc", off))
        elif direction == "back":
            gap = -off - size
            lines.append(lab + ":")
            lines.append(" .fill %d,%d" % (gap, i))
            lines.append(" " + t % lab)
            jl = len(lines)
            exp += bytes([i]) * gap + pre + bytes([op, off & 255])
            pc += gap + size
            seen.append(("back", off))
        else:
            lines.append(" " + t % lab)
            jl = len(lines)
            lines.append(" .block %d,%d" % (off, i))
            lines.append(lab)
            exp += pre + bytes([op, off & 255]) + bytes([i]) * off
            pc += size + off
            seen.append(("fwd", off))
        if not -128 <= off <= 127:
            early = direction == "back" or style == 0
            bad[jl] = early
    files = {"j.asm": "\n".join(lines) + "\n"}
    args = (["-E"] if ez else []) + ["-N", "j.asm", "j.bin"]
    r = wk.run(files, args)
    o = wk.obs
    o.evals += len(seen)
    for s in seen:
        o.nontrivial((s, ez, adl))
        o.count("in range" if -128 <= s[1] <= 127 else "out of range")
    if wk.crashed(r, files, args):
        return
    if not bad:
        if r.rc != 0 or r.file("j.bin") != exp:
            g = r.file("j.bin")
            i = next((i for i in range(len(exp)) if not g or i >= len(g) or g[i] != exp[i]), -1)
            o.violation("displacement", "exit %s, first difference at offset %d\nexpected %s\ngot      %s\n%s" % (r.rc, i, exp[max(0, i - 4):i + 8].hex(), (g or b"")[max(0, i - 4):i + 8].hex(), r.out[-600:]), files, args)
        return
    got = {int(x) for x in re.findall(r"^j\.asm:(\d+): error SE120:", r.out, re.M)}
    anyerr = {int(x) for x in re.findall(r"^j\.asm:(\d+): error", r.out, re.M)}
    early = {l for l in bad if bad[l]}
    want = early or set(bad)  # errors found in the first pass end the assembly there
    if r.rc not in (2, 3) or got - set(bad) or anyerr - set(bad) or not want <= got:
        o.violation("range-error", "jumps out of range on lines %s, SE120 reported on %s, exit %s\n%s" % (sorted(bad), sorted(got), r.rc, r.out[-600:]), files, args)


def check(ctx):
    ctx.rule = "one evaluation = one relative jump; distinct = distinct (reference style, displacement, mode); boundary displacements are over-sampled"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(12000, 100000))])
    ctx.finish(minimum=500, min_distinct=200)
