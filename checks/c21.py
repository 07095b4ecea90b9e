"""C21: code counter (-C) and statistics (-S) against sums over the statements assembled."""
import random
import re
from vlib import *
import encode
import expr
import ez80
import z80
import ztime

Z = z80.table()
EZ = ez80.table()
TIMES = [(len(b),) + ztime.times(b) for s, b in Z]
REP = re.compile(r"Size: (\d+)\r?\nMin\. execution time: (\d+)\r?\nMax\. execution time: (\d+)")
STAT = re.compile(r"Number of labels: (\d+)\r?\nNumber of defines: (\d+)\r?\nCode size: (\d+)\r?\nData size: (\d+)\r?\nTotal size: (\d+)")


class Prog:
    def __init__(self, rng, ez):
        self.rng, self.ez = rng, ez
        self.names = encode.Names(rng)
        self.code = [0, 0, 0]
        self.data = 0
        self.labels = 0
        self.defines = 0
        self.files = {}
        self.macros = []     # (name, code triple, data)
        self.k = 0
        self.defd = []
        self.adl = True
        self.alone = []      # eZ80: (adl, statement), counted from single-statement runs

    def uid(self):
        self.k += 1
        return "u%d" % self.k

    def op(self, acc):
        r = self.rng
        if not self.ez:
            i = r.randrange(len(Z))
            s, b = encode.instance(r, Z[i], 0x5000, self.names if acc is self.top else None)
            if "{e}" in Z[i][0]:  # the address is not known here
                s = Z[i][0].replace("{e}", r.choice(["$+2", "$", "$-9", "$+100"]))
            for j in range(3):
                acc[0][j] += TIMES[i][j]
            return s
        i = r.randrange(len(EZ))
        sfx = r.choice([""] * 4 + list(ez80.SUFFIX))
        s, b = encode.instance(r, EZ[i], 0x5000, None, sfx=sfx)
        if "{e}" in EZ[i][0]:
            m, _, rest = EZ[i][0].partition(" ")
            s = m + sfx + " " + rest.replace("{e}", r.choice(["$+3", "$", "$-9", "$+100"]))
        acc[0][3].append((self.adl, s))
        return s

    def dat(self, acc):
        r = self.rng
        k = r.random()
        if k < .25:
            n = r.choice([0, 1, 5, 100])
            acc[1] += n
            return " %s %d%s" % (r.choice([".fill", ".block", ".FILL"]), n, r.choice(["", ",$FF"]))
        if k < .4:
            s = "".join(r.choice("abcXYZ 09;,") for _ in range(r.randrange(12)))
            acc[1] += len(s)
            return ' .db "%s"' % s
        d, w = r.choice([(".db", 1), (".byte", 1), (".dw", 2), (".word", 2), (".dl", 3), (".long", 3)])
        n = r.randrange(1, 5)
        acc[1] += n * w
        return " %s %s" % (d, ",".join(r.choice(["5", "$", "%d" % r.randrange(128), "Later", "Later-Later"] if w > 1 else ["5", "1+1", "Later&15", "'a'"]) for _ in range(n)))

    def stmts(self, acc, n, depth=0, infile=True):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.random()
            if k < .45:
                s = self.op(acc)
                if r.random() < .1:
                    s += " \\ " + self.op(acc)
                out.append(" " + s)
            elif k < .6:
                out.append(self.dat(acc))
            elif k < .66:
                junk = [" " + r.choice(["nop", "ld hl,5", ".dw 5", ".fill 10"]) for _ in range(3)]
                out += ["#if %d" % (5 - 5), *junk, "#endif"]
            elif k < .7:
                out += ["#if 1"] + self.stmts(acc, 2, depth + 1, False) + ["#else", " nop", " .db 1", "#endif"]
            elif not infile:
                out.append(" " + self.op(acc))
            elif k < .76:
                out.append(self.uid() + r.choice([":", ""]))
                self.labels += 1
            elif k < .8:
                out.append("%s %s 5" % (self.uid(), r.choice(["=", ".equ", ".EQU"])))
                self.labels += 1
            elif k < .84:
                u = self.uid()
                out.append("#define %s%s" % (u, r.choice(["", " 5", " \"s\"", "(x) x*2", " nop"])))
                self.defines += 1
                self.defd.append(u)
            elif k < .87 and self.defd:
                u = self.defd.pop(r.randrange(len(self.defd)))
                out.append("%s %s" % (r.choice(["#undef", "#undefine"]), u))
                self.defines -= 1
            elif k < .9:
                m = self.uid()
                a = self.new()
                body = self.stmts(a, r.randrange(1, 4), depth + 1, False)
                out += ["#macro %s" % m] + body + ["#endmacro"]
                self.macros.append((m, a))
                self.defines += 1
            elif k < .96 and self.macros:
                m, a = r.choice(self.macros)
                if self.ez:   # the suffix rules depend on the mode in force at the call
                    acc[0][3].extend((self.adl, s) for _, s in a[0][3])
                for j in range(3):
                    acc[0][j] += a[0][j]
                acc[1] += a[1]
                out.append(" %s()" % m if r.random() < .5 else " " + m)
            elif k < .98 and depth < 2:
                f = "i%d.inc" % len(self.files)
                self.files[f] = ""
                sub = self.stmts(acc, r.randrange(1, 5), depth + 1, True)
                self.files[f] = "\n".join(sub) + "\n"
                out.append('#include "%s"' % f)
            elif self.ez and acc is self.top:
                self.adl = not self.adl
                out.append(" .assume adl=%d" % self.adl)
            else:
                out.append(r.choice([" .org $%x" % r.choice([0x200, 0x4000, 0x9D95]), " ; nop", "_", " .list", "#comment\n nop\n .db 5\n#endcomment", " .echo 5", ""]))
        return out

    def new(self):
        return [[0, 0, 0, []], 0]


def observe(wk, files, args, what):
    r = wk.run(files, args)
    if wk.crashed(r, files, args):
        return None
    m, s = REP.search(r.out), STAT.search(r.out)
    if r.rc not in (0, 1) or not m or not s:
        wk.obs.violation("no-report", "status %s, -C/-S report missing for %s\n%s" % (r.rc, what, r.out[-700:]), files, args)
        return None
    return [int(x) for x in m.groups()], [int(x) for x in s.groups()], r.file(args[-1])


def case(item, wk):
    rng = random.Random(item)
    ez = rng.random() < .25
    p = Prog(rng, ez)
    p.top = p.new()
    n = rng.choice([1, 3, 10, 25]) if not ez else rng.choice([1, 3, 8])
    body = p.stmts(p.top, n)
    used = not ez
    head, tail = (p.names.head(), p.names.tail()) if used else ([], [])
    text = "\n".join(head + [" .org $1000"] + body + ["Later = 5"] + tail) + "\n"
    files = dict(p.files)
    files["t.asm"] = text
    args = ["-N", "-C", "-S"] + (["-E"] if ez else []) + rng.choice([[], [], ["-O"], ["-T"], ["-L"]])
    nd = rng.choice([0, 0, 1, 2])
    args += ["-Dcmd%d" % i for i in range(nd)] + ["t.asm", "t.bin"]
    o = wk.obs
    # -C keeps messages quiet, so that the program is sound is made sure of without it
    pa = [a for a in args if a not in ("-C", "-S")]
    r0 = wk.run(files, pa)
    if wk.crashed(r0, files, pa):
        return
    if " error" in r0.out:
        o.violation("unexpected-error", r0.out[-800:], files, pa)
        return
    got = observe(wk, files, args, "the program")
    if got is None:
        return
    base = observe(wk, {"t.asm": ""}, ["-N", "-C", "-S"] + (["-E"] if ez else []) + ["t.asm", "t.bin"], "an empty program")
    if base is None:
        return
    want = list(p.top[0][:3])
    if ez:
        for adl, s in p.top[0][3]:
            one = observe(wk, {"t.asm": " .assume adl=%d\n .org $1000\n %s\n" % (adl, s)}, ["-N", "-C", "-S", "-E", "t.asm", "t.bin"], s)
            if one is None:
                return
            want = [a + b for a, b in zip(want, one[0])]
            if one[2] is None or len(one[2]) != one[0][0] or one[1][2:] != [one[0][0], 0, one[0][0]]:
                o.violation("one-ez80", "adl=%d %s: %s bytes assembled, -C says %d, -S %s" % (adl, s, one[2] and len(one[2]), one[0][0], one[1][2:]), {"t.asm": " .assume adl=%d\n %s\n" % (adl, s)}, args)
            if one[0][1] == 0 or one[0][2] < one[0][1] or one[0][0] == 0:
                o.violation("no-time", "%s: %s" % (s, one[0]), {"t.asm": s}, args)
    o.evals += 1
    o.nontrivial((tuple(want), p.top[1]))
    o.count("ez80" if ez else "z80")
    o.count("instructions_cycles", want[1])
    o.sample({"size": want[0], "min": want[1], "max": want[2], "data": p.top[1]})
    if got[0] != want:
        o.violation("counter" + ("-ez80" if ez else ""), "size/min/max reported %s, expected %s" % (got[0], want), files, args)
    lab = p.labels + 1 + (len(head) + len(tail))
    defs = p.defines + nd
    exp = [base[1][0] + lab, base[1][1] + defs, want[0], p.top[1], want[0] + p.top[1]]
    if got[1] != exp:
        o.violation("stats", "labels/defines/code/data/total reported %s, expected %s" % (got[1], exp), files, args)


def each(item, wk):
    """Every Z80 form on its own."""
    for i in item:
        s = encode.spell(random.Random(i), Z[i][0]).format(n="5", nn="1234", d="+5", e="$+2")
        files = {"t.asm": " .org $1000\n %s\n" % s}
        got = observe(wk, files, ["-N", "-C", "-S", "t.asm", "t.bin"], s)
        wk.obs.evals += 1
        wk.obs.nontrivial((i, TIMES[i]))
        if got and (tuple(got[0]) != TIMES[i] or got[1][2:] != [TIMES[i][0], 0, TIMES[i][0]]):
            wk.obs.violation("form:" + Z[i][0], "%s: reported %s %s, documented %s" % (s, got[0], got[1][2:], TIMES[i]), files, ["-N", "-C", "-S", "t.asm", "t.bin"])


def each_ez(item, wk):
    """Every eZ80 form on its own: a suffix adds one byte and one cycle to the instruction of that mode."""
    for i in item:
        rng = random.Random(i)
        m, _, ops = EZ[i][0].partition(" ")
        rep = {}
        for adl in (0, 1):
            for sfx in ("", ".sis" if not adl else ".lil"):
                s = (m + sfx + " " + ops).format(n="5", nn="1234", d="+5", e="$+20")
                files = {"t.asm": " .assume adl=%d\n .org $1000\n %s\n" % (rng.randrange(2) if sfx else adl, s)}
                args = ["-N", "-C", "-S", "-E", "t.asm", "t.bin"]
                got = observe(wk, files, args, s)
                if got is None:
                    return
                wk.obs.evals += 1
                wk.obs.nontrivial((i, adl, sfx, tuple(got[0])))
                rep[adl, sfx] = got[0]
                if got[2] is None or len(got[2]) != got[0][0]:
                    wk.obs.violation("size-ez80:" + EZ[i][0], "%s: %s bytes, reported %s" % (s, got[2] and len(got[2]), got[0]), files, args)
                if sfx and got[0] != [x + 1 for x in rep[adl, ""]]:
                    wk.obs.violation("suffix:" + EZ[i][0], "%s: reported %s, without suffix in ADL mode %d %s" % (s, got[0], adl, rep[adl, ""]), files, args)


def others(item, wk):
    """The programs of all generators"""
    import watch
    watch.stats(item, wk)


def check(ctx):
    ctx.build("san")
    ctx.rule = ("one evaluation = one program whose reported size, times and counts were compared with sums over its statements, or one instruction form alone; "
                "distinct = distinct (size, times, data)")
    ctx.assumptions = ["eZ80 cycles are only checked to add up: no independent table of them is available"]
    ctx.pmap(each, [range(k, min(k + 20, len(Z))) for k in range(0, len(Z), 20)])
    ctx.pmap(each_ez, [range(k, min(k + 20, len(EZ))) for k in range(0, len(EZ), 20)])
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(5000, 40000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(minimum=800, min_distinct=500)
