"""C05: every reference to a label gets the label's address, wherever label and
reference stand. Random programs, laid out independently of the assembler."""
import random
from vlib import *
import expr

# forms with one operand that takes a label: (template, size, kind)
REF = [("ld hl,%s", 3, "w", b"\x21"), ("call %s", 3, "w", b"\xcd"), ("jp %s", 3, "w", b"\xc3"), ("jp nz,%s", 3, "w", b"\xc2"),
       ("ld a,(%s)", 3, "w", b"\x3a"), ("ld (%s),a", 3, "w", b"\x32"), ("ld bc,(%s)", 4, "w", b"\xed\x4b"), ("ld ix,%s", 4, "w", b"\xdd\x21"),
       ("ld (%s),iy", 4, "w", b"\xfd\x22"), (".dw %s", 2, "w", b""), (".word %s", 2, "w", b""), (".dl %s", 3, "t", b""), (".long %s", 3, "t", b"")]
REL = [("jr %s", b"\x18"), ("jr nc,%s", b"\x30"), ("djnz %s", b"\x10"), ("jr z,%s", b"\x28")]
STEMS = ["a1", "Loop", "_x", "main.sub", "Data", "k9_", "Q?", "zz", "L!", "hl_", "ld_", "nz1", "ix0", "Very_long_label_name_used_by_nobody_else_"]


class Prog:
    """Statements as (list of lines, bytes or closure(labels)->bytes, size)."""

    def __init__(self, rng, ez):
        self.rng, self.ez = rng, ez
        self.pc = self.org = rng.choice([0, 0x4000, 0x9D95, 0x8000]) if not ez else rng.choice([0xD1A881, 0x4000, 0])
        self.files = {}
        self.labels = {}
        self.chunks = []  # closures
        self.main = [" .org $%X" % self.org]
        self.used = set()
        self.stats = {}
        self.data = 0

    def newname(self):
        r = self.rng
        while True:
            n = r.choice(STEMS) + ("%d" % r.randrange(400) if r.random() < .9 else "".join(r.choice("abcXYZ_09") for _ in range(3)))
            if n.upper() not in self.used:
                self.used.add(n.upper())
                return n


def generate(rng, nst, nlab):
    ez = rng.random() < .25
    p = Prog(rng, ez)
    names = [p.newname() for _ in range(nlab)]
    place = sorted((rng.randrange(nst), n) for n in names)
    out = p.main
    stack = []
    pi = 0
    refs = []
    W = 3 if ez else 2
    incs = 0
    for i in range(nst):
        while pi < len(place) and place[pi][0] == i:
            n = place[pi][1]
            p.labels[n] = p.pc
            out.append(n + rng.choice([":", "", ":", " "]))
            if out[-1].endswith(" "):
                out[-1] = n
            if rng.random() < .15:
                out[-1] += " " * (rng.random() < .5) + (" = $" if rng.random() < .5 else " .equ $")
                p.stats["eq$"] = p.stats.get("eq$", 0) + 1
            pi += 1
        k = rng.random()
        n = rng.choice(names)
        nm = n if rng.random() < .8 else rng.choice([n.upper(), n.lower(), n.swapcase()])
        off = rng.choice([0, 0, 0, 1, -1, 3, 255, -255]) if rng.random() < .5 else 0
        et = nm + ("%+d" % off if off else "")
        if rng.random() < .1:
            m = rng.choice(names)
            et, fn = "%s-%s" % (nm, m), (lambda L, n=n, m=m: L[n] - L[m])
        elif rng.random() < .1:
            sh = rng.choice([1, 4, 8])
            et, fn = "%s>>%d" % (nm, sh), (lambda L, n=n, sh=sh: L[n] >> sh)
        else:
            fn = lambda L, n=n, off=off: L[n] + off
        if k < .55:
            t, size, kind, pre = rng.choice(REF)
            w = 3 if kind == "t" or (ez and pre) else 2
            if ez and not pre and w == 2:
                et, fn = et.split("-")[0].split(">")[0].split("+")[0] + "&$FFFF", (lambda L, n=n: L[n] & 0xFFFF)
            # an operand expression may be split over name and parentheses
            out.append(" " + t % et)
            p.chunks.append((len(pre) + w, lambda L, pre=pre, fn=fn, w=w: pre + (fn(L) & ((1 << 8 * w) - 1)).to_bytes(w, "little"), out[-1], p.pc))
            p.pc += len(pre) + w
        elif k < .65:
            t, pre = rng.choice(REL)
            # decided after layout: keep only in-range targets, by referring to $-relative labels later
            refs.append(None)
            ln = len(out)
            out.append(None)
            p.chunks.append((2, ("rel", ln, t, pre, p.pc, out), None, p.pc))
            p.pc += 2
        elif k < .75:
            v = rng.choice([n, m]) if False else n
            sh = rng.choice([0, 8, 16])
            out.append(" .db %s>>%d&$FF, \"%s\", 7" % (nm, sh, "ab"))
            p.chunks.append((4, lambda L, n=n, sh=sh: bytes([L[n] >> sh & 255]) + b"ab\x07", out[-1], p.pc))
            p.pc += 4
        elif k < .85:
            c = rng.randrange(60)
            b = rng.randrange(256)
            out.append(" .%s %d,%d" % (rng.choice(["fill", "block"]), c, b))
            p.chunks.append((c, lambda L, c=c, b=b: bytes([b]) * c, out[-1], p.pc))
            p.pc += c
        elif k < .9 and len(stack) < 3:
            fnm = "inc%d.inc" % incs
            incs += 1
            out.append('#include "%s"' % fnm)
            stack.append((out, fnm))
            out = []
            p.files[fnm] = out
        elif k < .95 and stack:
            out = stack.pop()[0]
        else:
            out.append(" nop")
            p.chunks.append((1, lambda L: b"\0", out[-1], p.pc))
            p.pc += 1
    while pi < len(place):
        p.labels[place[pi][1]] = p.pc
        out.append(place[pi][1] + ":")
        pi += 1
    # resolve relative jumps
    exp = b""
    rels = 0
    for size, ch, text, pc in p.chunks:
        if isinstance(ch, tuple):
            _, ln, t, pre, pc, o = ch
            cand = [n for n, v in p.labels.items() if -128 <= v - pc - 2 <= 127]
            if cand and rng.random() < .9:
                n = rng.choice(cand)
                o[ln] = " " + t % n
                exp += pre + bytes([(p.labels[n] - pc - 2) & 255])
                rels += 1
            else:
                o[ln] = " " + t % "$"
                exp += pre + b"\xfe"
        else:
            exp += ch(p.labels)
    files = {"main.asm": "\n".join(p.main) + "\n"}
    for f, l in p.files.items():
        files[f] = "\n".join(l) + ("\n" if rng.random() < .8 else "")
    p.stats["relative"] = rels
    p.stats["includes"] = incs
    return p, files, exp


def case(item, wk):
    rng = random.Random(item)
    nst = rng.choice([5, 20, 60, 200, 600])
    nlab = rng.choice([1, 3, 10, 40, nst])
    p, files, exp = generate(rng, nst, nlab)
    args = (["-E"] if p.ez else []) + rng.choice([[], [], ["-L"], ["-T"], ["-S"]]) + ["main.asm", "o.bin"]
    r = wk.run(files, args)
    o = wk.obs
    o.evals += 1
    o.count("references", len(p.chunks))
    for k, v in p.stats.items():
        o.count(k, v)
    o.nontrivial(exp)
    if wk.crashed(r, files, args):
        return
    if r.rc != 0:
        o.violation("status", "exit %s on a correct program: %s" % (r.rc, r.out[-800:]), files, args)
        return
    got = r.file("o.bin")
    if got != exp:
        if got is None or len(got) != len(exp):
            o.violation("size", "output has %s bytes, expected %d" % (got and len(got), len(exp)), files, args)
            return
        i = next(i for i in range(len(exp)) if got[i] != exp[i])
        pos = 0
        for size, ch, text, pc in p.chunks:
            if pos <= i < pos + size:
                o.violation("address", "bytes of %r at %#x: got %s, expected %s" % (text, pc, got[pos:pos + size].hex(), exp[pos:pos + size].hex()), files, args)
                return
            pos += size


def others(item, wk):
    """The programs of all generators"""
    import watch
    watch.addresses(item, wk)


def check(ctx):
    ctx.rule = "one evaluation = one random multi-file program whose whole output was compared with an independent layout; distinct = distinct outputs"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(5000, 50000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(minimum=100, min_distinct=50)
