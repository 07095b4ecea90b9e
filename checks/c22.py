"""C22: buf/clr/wr/run - the buffers are kept by a model, and the program must assemble
like the same program with the text of the buffers in place of the run() calls."""
import random
import re
from vlib import *
import meta


class Model:
    def __init__(self, rng):
        self.rng = rng
        self.bufs = {}       # number -> list of lines
        self.cur = 0
        self.n = 0
        self.vals = {}       # names usable in wr()
        self.macros = {}
        self.diag = []       # (file, line, code) expected from the program with buffers
        self.labels = []
        self.faults = 0
        self.runs = 0

    def uid(self, p="k"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def content(self):
        """One line of assembly for a buffer -> list of items for wr(), and its text."""
        r = self.rng
        k = r.random()
        num = lambda: r.randrange(0, 128)
        if k < .3:
            its = [(" .db ", None)]
            for i in range(r.randrange(1, 4)):
                if i:
                    its.append((r.choice([",", ", "]), None))
                its.append((None, self.value()))
            return its
        if k < .4:
            l = self.uid("lb")
            self.labels.append(l)
            return [(l + r.choice([":", " nop", ": .db 7"]), None)]
        if k < .43:
            return [(' .db "a', None), (None, self.value()), (r.choice(['"', 'b"', ' "', ',"']), None)]
        if k < .5:
            return [(' .db "%s"' % "".join(r.choice("abc ;,()") for _ in range(r.randrange(6))), None)]
        if k < .6:
            return [(r.choice([" nop", " ld a,5 ; five", " ld (ix+4),a", "; only text", "", " inc hl \\ dec hl", " .dw $", " .dw $+1"]), None)]
        if k < .7:
            return [("#if ", None), (None, self.value()), ("\n .db 1\n#else\n .db 2\n#endif", None)]
        if k < .8 and self.labels:
            return [(" .dw %s" % r.choice(self.labels), None)]
        if k < .87:
            return [(" .fill ", None), (None, ("%d" % r.randrange(9), None)), (",", None), (None, ("%d" % num(), None))]
        if k < .89:
            v = r.choice([0, 1, -1, 255, 256, -256, 32767, 65535, 65536, -65536, 2**24 - 1, 2**24, 2**31 - 1, -2**31 + 1, r.randrange(-2**31 + 1, 2**31)])
            w = r.choice([(".dl ", v), ("#if 5 > ", v), (".dl 5+", abs(v))])
            return [((" " if w[0][0] == "." else "") + w[0], None), (None, ("%d" % w[1] if r.random() < .6 or w[1] < 0 else "$%X" % w[1], w[1]))] + ([("\n .db 1\n#endif", None)] if w[0][0] == "#" else [])
        if k < .94 and self.macros:
            return [(" %s(" % r.choice(sorted(self.macros)), None), (None, self.value()), (")", None)]
        return [("a", None), (None, ("%d" % self.n, None)), (" = ", None), (None, self.value())] if 0 else [(" ld hl,", None), (None, self.value())]

    def value(self):
        """(text, value)"""
        r = self.rng
        k = r.random()
        if k < .3:
            v = r.randrange(100)
            return "%d" % v, v
        if k < .5 and self.vals:
            n = r.choice(sorted(self.vals))
            return r.choice([n, n.swapcase()]), self.vals[n]
        if k < .7:
            a, b = r.randrange(60), r.randrange(60)
            return r.choice([("%d+%d" % (a, b), a + b), ("(%d+%d)" % (a, b), a + b), ("%d*2-%d" % (a + b, a), (a + b) * 2 - a)])
        if k < .8:
            c = r.choice("abcXYZ059")
            return "'%s'" % c, ord(c)
        if k < .9:
            a, b = r.randrange(120), r.randrange(120)
            return r.choice([("0-1+%d" % 3, 2), ("%d-%d" % (a, b), a - b), ("-%d" % a, -a), ("~%d" % a, ~a), ("(-%d)" % b, -b)])
        v = r.randrange(128)
        return "$%X" % v, v


def quote(r, s):
    out = ""
    for c in s:
        if c == '"':
            out += '\\"'
        elif c == "\\":
            out += "\\\\"
        elif c == "\n":
            out += r.choice(["\\n", "\\n", "\\N"])
        elif c == "\t":
            out += "\\t"
        else:
            out += c
    return '"' + out + '"'


def wr(r, items):
    args = []
    for s, v in items:
        if s is not None:
            if len(s) > 3 and r.random() < .3:
                k = r.randrange(1, len(s))
                args += [quote(r, s[:k]), quote(r, s[k:])]
            else:
                args.append(quote(r, s))
        else:
            args.append(v[0])
    return r.choice(["wr(%s)", "wr(%s)", "WR(%s)", "wr( %s )", "wr(%s )"]) % r.choice([",", ", "]).join(args)


def text(items):
    return "".join(s if s is not None else "%d" % (v[1] if v[1] is not None else int(v[0])) for s, v in items)


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    m = Model(r)
    prog, flat = [" .org $8000"], [" .org $8000"]
    fault_at = r.random() < .3
    for _ in range(r.randrange(3)):
        n = m.uid("mac")
        m.macros[n] = 1
        t = ["#macro %s(p)" % n, " .db p,%d" % r.randrange(99), "#endmacro"]
        prog += t
        flat += t
    mods = 0
    diags = []

    def buf():
        b = r.choice([0, 1, 2, 3, 9, 9, r.randrange(10)])
        m.cur = b
        return r.choice(["buf(%d)", "BUF(%d)", "buf( %d )", "buf(%d-1+1)", "buf(%d*1)"]) % b

    def step(allow_run=True):
        k = r.random()
        if k < .2:
            return buf(), None
        if k < .27:
            m.bufs[m.cur] = []
            return r.choice(["clr()", "CLR()", "clr( )"]), None
        if k < .75 or not allow_run or m.bufs.get(m.cur) is None:
            it = m.content()
            ls = text(it).split("\n")
            m.bufs.setdefault(m.cur, [])
            m.bufs[m.cur] += ls
            return wr(r, it), None
        m.runs += 1
        t = m.bufs.pop(m.cur)
        return r.choice(["run()", "run()", "RUN()", "run( )"]), t
    for _ in range(r.choice([4, 8, 15, 30])):
        k = r.random()
        if k < .12:
            n, v = m.uid("val"), r.randrange(100)
            d = r.choice(["%s = %d" % (n, v), "%s .equ %d" % (n, v), "#define %s %d" % (n, v)])
            m.vals[n] = v
            prog.append(d)
            flat.append(d)
        elif k < .24:
            s = r.choice([" .db 5", " nop", " .dw $", " .dw " + (r.choice(m.labels) if m.labels else "$"), " .fill 3", ";x", "_ nop"])
            prog.append(s)
            flat.append(s)
        elif k < .34 and m.bufs.get(m.cur) is None or k < .3:
            # a macro fills the buffer, one line a turn
            n, c = m.uid("loop"), r.randrange(1, 6)
            base = r.randrange(50)
            t = ["#macro %s(i)" % n, " wr(\" .db \",i,\",\",i*2)", "#if i > 1", " %s(i-1)" % n, "#endif", "#endmacro"]
            prog += t + [" %s(%d)" % (n, base + c if 0 else c)]
            m.bufs.setdefault(m.cur, [])
            m.bufs[m.cur] += [" .db %d,%d" % (i, 2 * i) for i in range(c, 0, -1)]
        else:
            q = r.choice([1, 1, 1, 2, 3])
            st = []
            for _ in range(q):
                s, t = step()
                if t is not None and fault_at and r.random() < .6:
                    pass
                st.append(s)
                if t is not None:
                    if st[:-1]:
                        prog.append(" " + " \\ ".join(st))
                        st = []
                    else:
                        prog.append(" " + s)
                        st = []
                    flat += t
                    mods += 1
                    if fault_at and r.random() < .5:
                        # run a faulty buffer of its own
                        fb = r.choice([x for x in range(10) if x != m.cur and x not in m.bufs] or [None])
                        if fb is not None:
                            pre = r.randrange(3)
                            fl = r.choice([(" foo%d", "SE113"), (" .db nosuch%d", "SE106"), (" .db 300 ; %d", "SW800"), (" ld b,5,%d", "SE110"), (" .dw 1+nosuch%d", "SE106")])
                            prog.append(" buf(%d) \\ clr()" % fb)
                            for _ in range(pre):
                                prog.append(' wr(" nop")')
                            prog.append(' wr("%s")' % (fl[0] % m.n))
                            prog.append(" run()")
                            diags.append((pre + 1, fl[1], len(prog)))
                            prog.append(" buf(%d)" % m.cur)
                            break
            if st:
                prog.append(" " + " \\ ".join(st))
    # run what is left, in random order
    left = [b for b in m.bufs if r.random() < .7]
    r.shuffle(left)
    for b in left:
        prog += [" buf(%d)" % b, " run()"]
        flat += m.bufs.pop(b)
        mods += 1
    undefined = [l for l in m.labels if not any(re.match(re.escape(l) + r"\b", x) for x in flat)]
    end = ["%s = 1" % l for l in undefined] + [" .db 99"]
    prog += end
    flat += end
    files, args = {"t.asm": "\n".join(prog) + "\n"}, ["-N", "t.asm", "t.bin"]
    a = wk.run(files, args)
    if wk.crashed(a, files, args):
        return
    got = a.file("t.bin")
    out = a.out
    if diags:
        seen = sorted((int(l), c) for l, c in re.findall(r"(?m)^Built-in fcreate:(\d+): \w+ (S[EW]\d+)", out))
        nothers = len(re.findall(r"(?m)^(?!Built-in fcreate:)\S+:\d+: (?:error|warning)", out))
        want = sorted((l, c) for l, c, _ in diags)
        fatal = any(c in ("SE113", "SE110") for _, c, _ in diags)
        if fatal:  # only what the first pass finds
            want = sorted((l, c) for l, c in want if c in ("SE113", "SE110"))
            seen2 = [x for x in seen if x[1] in ("SE113", "SE110")]
        else:
            seen2 = seen
        o.evals += 1
        o.count("faults", len(want))
        if seen2 != want or nothers:
            o.violation("faults", "reports in buffers %s, expected %s (others: %d)\n%s" % (seen2, want, nothers, out[-1200:]), files, args)
            return
        for l, c, line in diags:
            if c in ("SE113", "SE110") and ("t.asm:%d: Error during invocation of fcreate" % line) not in out:
                o.violation("fault-place", "no note for the run() on line %d\n%s" % (line, out[-1200:]), files, args)
                return
        rc = 3 if fatal else 2 if any(c == "SE106" for _, c in want) else 1
        if a.rc != rc:
            o.violation("fault-status", "exit status %s, expected %d\n%s" % (a.rc, rc, out[-800:]), files, args)
        return
    f2 = {"t.asm": "\n".join(flat) + "\n"}
    b = wk.run(f2, args)
    if wk.crashed(b, f2, args):
        return
    o.evals += 1
    o.count("runs_of_buffers", mods)
    o.nontrivial((b.file("t.bin"), mods))
    o.sample({"program": files["t.asm"][:500]})
    if b.rc != 0:
        o.violation("flat-failed", "the flat program has status %s\n%s" % (b.rc, b.out[-800:]), f2, args)
    elif a.rc != 0:
        o.violation("status", "exit status %s\n%s" % (a.rc, out[-1200:]), files, args, extra=f2["t.asm"])
    elif got != b.file("t.bin"):
        o.violation("bytes", "bytes %s, with the text in place %s" % ((got or b"").hex(), b.file("t.bin").hex()), files, args, extra=f2["t.asm"])


BADS = [(" buf(10)\n", "SE110", 1), (" buf(0-1)\n", "SE110", 1), (" run()\n", "SE301", 1), (" buf(3)\n wr(\" nop\")\n run()\n run()\n", "SE301", 4),
        (" buf(1)\n wr(\" nop\")\n buf(2)\n run()\n", "SE301", 4), (" buf(1)\n wr(\" nop\",later)\n run()\nlater = 5\n", "SE106", 2), (" nop\n buf(nosuch)\n", "SE106", 2)]


def bad(i, wk):
    t, code, line = BADS[i]
    files, args = {"t.asm": t}, ["-N", "t.asm", "t.bin"]
    r = wk.run(files, args)
    if wk.crashed(r, files, args):
        return
    wk.obs.evals += 1
    if not re.search(r"(?m)^t\.asm:%d: error(?: %s)?: " % (line, code), r.out) or r.rc < 2:
        wk.obs.violation("misuse:%d" % i, "no error %s on line %d\n%s" % (code, line, r.out), files, args)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "buffers")


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program with buffers compared with the same program with their text in place (or its faults with the planted ones); distinct = distinct (bytes, number of runs)"
    ctx.assumptions = ["text written into a buffer while that buffer is being run is not judged"]
    ctx.pmap(bad, range(len(BADS)))
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(15000, 100000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(minimum=1000, min_distinct=500)
