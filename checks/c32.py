"""C32: equates and names defined more than once: a model of the table of names predicts every value
and every report of a redefinition or a conflict, with its places."""
import random
import re
from vlib import *
import expr

MSG = re.compile(r"^(.*?):(\d+): (warning|error)(?: (S[EW]\d+))?: (.*)$")


class Gen:
    def __init__(self, r, cs):
        self.r = r
        self.cs = cs          # -A
        self.t = {}           # name -> ["label", value, file, line] or ["define"/"macro", value, file, line]
        self.pc = 0
        self.out = b""
        self.msgs = []        # (file, line, kind, code, text or None, line alternatives)
        self.files = {}
        self.n = 0
        self.late = {}
        self.pool = ["n%d" % i for i in range(r.choice([2, 4, 8]))] + r.choice([[], ["a?", "_x", "hl", "jp", "Long.Name_7", "x!"]])
        self.events = 0
        self.calm = r.random() < .4   # no conflicts and no undefined names

    def key(self, n):
        return n if self.cs else n.upper()

    def name(self):
        n = self.r.choice(self.pool)
        if self.cs:
            return n if self.r.random() < .7 else n.swapcase()
        return n if self.r.random() < .6 else self.r.choice([n.upper(), n.swapcase()])

    def value(self, k):
        e = self.t.get(k)
        return e and e[1]

    def term(self):
        """-> text, value (None if a name of it is not defined), the name"""
        r = self.r
        k = r.randrange(10)
        if k < 4:
            v = r.choice([0, 1, 2, 5, 255, 256, 40000, r.randrange(1 << 16), (1 << 31) - 1])
            return r.choice(["%d" % v, "$%X" % v, "0%XH" % v]), v
        if k == 4:
            return "$", self.pc
        n = self.name()
        e = self.t.get(self.key(n))
        if e and e[0] == "macro":
            return "7", 7
        return n, (e[1] if e else None)

    def expr(self, own=None):
        r = self.r
        s, v = self.term()
        if own and r.random() < .35:
            e = self.t.get(self.key(own))
            if not e or e[0] != "macro":
                s, v = (own if not self.cs and r.random() < .5 else own), (e[1] if e else None)
                if not self.cs and r.random() < .3:
                    s = s.swapcase()
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            op = r.choice(["+", "-", "*", "|", "^", "&"])
            s2, v2 = self.term()
            s += " %s " % op + s2
            v = None if v is None or v2 is None else expr.apply(op, v, v2)
        if r.random() < .2:
            s = "(%s)" % s
        return s, v

    def define_label(self, n, v, f, line):
        """an equate or label n with value v at this place"""
        k = self.key(n)
        e = self.t.get(k)
        if e and e[0] != "label":
            self.msgs += [(f, line, "error", None, "conflicting definition of '%s'" % k), (e[2], e[3], "error", None, "previous definition of '%s' was here" % k)]
            return
        if e:
            if e[1] != v:
                e[1] = v
                self.msgs += [(f, line, "warning", None, "redefinition of '%s'" % k), (e[2], e[3], "warning", None, "previous definition of '%s' was here" % k)]
                self.events += 1
        else:
            self.t[k] = ["label", v, f, line]

    def conflict(self, n, f, line):
        k = self.key(n)
        e = self.t.get(k)
        if e and e[0] == "label":
            self.msgs += [(f, line, "error", None, "conflicting definition of '%s'" % k), (e[2], e[3], "error", None, "previous definition of '%s' was here" % k)]
            self.events += 1
            return True
        return False

    def emit(self, b):
        self.out += b
        self.pc += len(b)

    def lines(self, f, n, depth):
        r = self.r
        ls = []
        for _ in range(n):
            k = r.randrange(20)
            line = len(ls) + 1
            if k < 7:
                nm = self.name()
                s, v = self.expr(nm)
                while self.calm and v is None:
                    s, v = self.expr()
                ls.append(r.choice(["%s = %s", "%s=%s", "%s .equ %s", "%s: .EQU %s", "%s: = %s", "%s\t=\t%s ; = 5", "%s .Equ\t%s"]) % (nm, s))
                if v is None:
                    self.msgs.append((f, line, "error", None, None))
                    k = self.key(nm)
                    # the name stays what it was, or is left undetermined
                    if k not in self.t:
                        self.t[k] = ["label", self.pc, f, line]
                    elif self.t[k][0] != "label":
                        ls[-1] = ls[-1].split("\n")[0]
                        self.define_label(nm, 0, f, line)
                else:
                    self.define_label(nm, v, f, line)
            elif k < 9:
                nm = self.name()
                b = r.choice([b"", b"\0", b"\x76"])
                ls.append("%s%s%s" % (nm, r.choice([":", ": ", " "]), {b"": "", b"\0": " nop", b"\x76": " halt"}[b]))
                self.define_label(nm, self.pc, f, line)
                self.emit(b)
            elif k < 11:
                nm = self.name() if not self.calm else "d%d" % r.randrange(3)
                v = r.randrange(1000)
                ls.append(r.choice(["#define %s %d", "#DEFINE %s\t%d ; c"]) % (nm, v))
                if not self.conflict(nm, f, line):
                    self.t[self.key(nm)] = ["define", v, f, line]
            elif k == 11:
                nm = self.name()
                ls.append("#undef %s" % nm)
                e = self.t.get(self.key(nm))
                if e and e[0] != "label":
                    del self.t[self.key(nm)]
            elif k == 12 and depth < 4:
                nm = "i%d.inc" % self.n
                self.n += 1
                ls.append('#include "%s"' % nm)
                self.files[nm] = "\n".join(self.lines(nm, r.randrange(1, 8), depth + 1)) + r.choice(["", "\n"])
            elif k == 13:
                a = r.choice([0, 5, 255, 256, r.randrange(60000)])
                ls.append(" .org %d" % a)
                self.pc = a
            elif k == 14:
                nm = self.name()
                e = self.t.get(self.key(nm))
                ls += ["#ifdef %s" % nm, " .db 1", "#else", " .db 2", "#endif"]
                if e and e[0] == "label":
                    # (labels do not count, or do)
                    del ls[-5:]
                    ls.append("")
                else:
                    self.emit(b"\1" if e else b"\2")
            elif k == 15:
                nm = self.name()
                v = r.randrange(9)
                s = "%s = %d" % (nm, v)
                ls.append(r.choice(["#if 0\n%s\n#endif", "#comment\n%s\n#endcomment", "; %s\n\n"]) % s)
                ls[-1:] = ls[-1].split("\n")
            else:
                # use what is known here
                known = [x for x in self.t.items() if x[1][0] != "macro"]
                if not known:
                    ls.append(" nop")
                    self.emit(b"\0")
                    continue
                k, e = r.choice(known)
                nm = k if self.cs else r.choice([k, k.lower()])
                w = r.choice([1, 2, 2, 3])
                c = r.randrange(5)
                v = e[1]
                if c == 0:
                    ls.append(" ld hl,%s&$FFFF" % nm)
                    self.emit(b"\x21" + (v & 0xFFFF).to_bytes(2, "little"))
                elif c == 1:
                    ls += ["#if %s == %s" % (nm, r.choice([str(v), str(v ^ 1)])), " .db 9", "#endif"]
                    if ls[-3].endswith("== %d" % v):
                        self.emit(b"\x09")
                elif c == 2:
                    ls.append(" .dl %s&$FFFFFF" % nm)
                    self.emit((v & 0xFFFFFF).to_bytes(3, "little"))
                else:
                    ls.append(" .dw %s&$FFFF, (%s>>16)&$FFFF" % (nm, nm))
                    self.emit((v & 0xFFFF).to_bytes(2, "little") + (v >> 16 & 0xFFFF).to_bytes(2, "little"))
                # several statements in the line
                if r.random() < .2 and c in (0, 2):
                    n2 = self.name()
                    s, v = self.expr(n2)
                    if v is not None:
                        ls[-1] += " \\%s = %s" % (n2, s)
                        self.define_label(n2, v, f, len(ls))
        return ls


def case(item, wk):
    r = random.Random(item)
    cs = r.random() < .2
    g = Gen(r, cs)
    main = r.choice(["t.asm", "t.asm", "m.z80"])
    args = ["-N"] + (["-A"] if cs else [])
    defs = []
    for i in range(r.choice([0, 0, 0, 1, 2])):
        nm = g.name() if not g.calm else "d%d" % i
        v = r.randrange(100)
        args += ["-D%s=%d" % (nm, v)]
        g.t[g.key(nm)] = ["define", v, "Commandline", 0]
    ls = g.lines(main, r.choice([3, 8, 20, 40]), 0)
    g.files[main] = r.choice(["\n", "\n", "\r\n"]).join(ls) + "\n"
    lab = r.random() < .4
    args += (["-L"] if lab else []) + r.choice([[], ["-T"]]) + [main, "o.bin"]
    run = wk.run(g.files, args)
    if wk.crashed(run, g.files, args):
        return
    o = wk.obs
    o.evals += 1
    o.count("redefinitions_and_conflicts", g.events)
    if g.msgs:
        o.nontrivial((run.out, g.out))
    o.sample({"text": g.files[main][:300], "messages": len(g.msgs)})
    got = [m.groups() for m in map(MSG.match, run.out.splitlines()) if m]
    bad = len(got) != len(g.msgs)
    for m, w in zip(got, g.msgs):
        if bad or os.path.basename(m[0]) != w[0] or int(m[1]) != w[1] or m[2] != w[2] or m[3] != w[3] or w[4] is not None and m[4] != w[4]:
            bad = True
    if bad:
        o.violation("messages", "expected\n%s\n\ngot\n%s" % ("\n".join(map(repr, g.msgs)), run.out[-3000:]), g.files, args)
        return
    rc = 2 if any(w[2] == "error" for w in g.msgs) else 1 if g.msgs else 0
    o.count("status_%d" % rc)
    if run.rc != rc:
        o.violation("status", "status %d, expected %d\n%s" % (run.rc, rc, run.out[-1500:]), g.files, args)
    b = run.file("o.bin")
    if b is None or b != g.out:
        o.violation("bytes", "got %s, expected %s\n%s" % (b and b.hex(), g.out.hex(), run.out[-500:]), g.files, args)
    if lab:
        l = run.file("o.lab") or b""
        want = sorted("%s = $%04X" % (k, e[1] & 0xFFFFFFFF) for k, e in g.t.items() if e[0] == "label")
        have = sorted(x for x in l.decode("latin1").split("\n") if x.split(" ")[0] in g.t and g.t[x.split(" ")[0]][0] == "label")
        if want != have:
            o.violation("symbols", "got %s, expected %s" % (have, want), g.files, args)


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program whose reports, status, bytes and symbols were compared with the model of its names; distinct = distinct console outputs with at least one report"
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(8000, 80000))])
    ctx.finish(minimum=4000, min_distinct=2000)
