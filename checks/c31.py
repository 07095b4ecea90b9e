"""C31: __LINE, __FILE, getc() and .option against a model that knows where every line stands."""
import random
import re
from vlib import *


class Gen:
    def __init__(self, r):
        self.r = r
        self.files = {}
        self.macros = []     # (name, file, [(line, kind)])
        self.n = 0
        self.dirs = ["", "", "sub/", "in.c/"]
        self.datas = []
        self.opts = {}
        self.ev = 0

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def name(self):
        return self.r.choice(["__LINE", "__LINE", "__line", "__Line"])

    def use(self, n, f, par=None):
        """-> (statement, parts) of something on line n of file f"""
        r = self.r
        k = r.randrange(16)
        L = self.name()
        if k < 3:
            return " .dw %s" % L, [n.to_bytes(2, "little")]
        if k == 3:
            a = r.randrange(1000)
            return r.choice([" .dw %s+%d", " .word %s + %d"]) % (L, a), [(n + a).to_bytes(2, "little")]
        if k == 4:
            return " .dl later+%s" % L, [(n + 9).to_bytes(3, "little")]
        if k == 5:
            return " .db %s&255,(%s>>8)" % (L, L), [bytes([n & 255, n >> 8])]
        if k == 6:
            return " ld hl,%s%s" % (L, r.choice(["", "+later-later"])), [b"\x21" + n.to_bytes(2, "little")]
        if k == 7:
            return " .fill %s&3,%s&255" % (L, L), [bytes([n & 255]) * (n & 3)]
        if k == 8:
            return " .db eval(%s)&255" % L, [bytes([n & 255])]
        if k == 9:
            return " .dw fun(%s)" % L, [(2 * n).to_bytes(2, "little")]
        if k == 10:
            j = r.random()
            if j < .5:
                vs, ws = [], []
                for _ in range(3):
                    v = r.randrange(256)
                    h = r.randrange(v + 1)
                    vs.append(v)
                    ws.append(r.choice(["%d" % v, " %d" % v, "(%d)" % v, "%d+%d" % (h, v - h), "later*0+%d" % v, "%d*2+%d" % (v // 2, v % 2), "%d-%d" % (v + h, h), "%d>>%d" % (v << h % 4, h % 4), "%d|%d" % (v & h, v), "$%X" % v]))
                a, b, c = vs
                e = ",".join(ws)
                return " .dl %s(%s)%s" % (r.choice(["RGB", "rgb"]), e, r.choice(["", "-1+1", "+later-9"])), [bytes([c, b, a])]
            nm, v = r.choice([("TRUE", 1), ("FALSE", 0), ("true", 1), ("SPASM", 1), ("SPASMVER", 2), ("False", 0)])
            return " .db %s%s" % (nm, r.choice(["", "+0", "+later-later"])), [bytes([v])]
        if k < 14:
            return r.choice([" .db %s", " .db %s,0", " .db 1,%s"]).replace("%s", r.choice(["__FILE", "__FILE", "__file"])), None
        if k == 14:
            s = self.getc()
            return s
        return " .dw %s \\ .dw 1+%s" % (L, L), [n.to_bytes(2, "little"), (n + 1).to_bytes(2, "little")]

    def stmt(self, n, f):
        s, p = self.use(n, f)
        if p is None:
            p = [(b"\1" if s.startswith(" .db 1,") else b""), ("file", f), (b"\0" if s.endswith(",0") else b"")]
        return s, p

    def getc(self):
        r = self.r
        if not self.datas or r.random() < .2:
            f = r.choice(["d%d.dat", "data %d", "sub/d%d", "x%d.y.z"]) % len(self.datas)
            d = r.randbytes(r.choice([0, 1, 2, 5, 100, 300, 70000]))
            self.files[f] = d
            self.datas.append((f, d))
        f, d = r.choice(self.datas)
        i = r.choice([0, len(d), max(0, len(d) - 1), len(d) + r.randrange(9), r.randrange(len(d) + 1), 1])
        v = d[i] if i < len(d) else -1
        e = r.choice(["%d" % i, "$%X" % i, "%d+%d" % (i // 2, i - i // 2), "(%d)" % i, "nine+%d" % (i - 9) if i >= 9 else "%d" % i])
        s = r.choice(["getc", "getc", "GETC"]) + '("%s",%s%s)' % (f, r.choice(["", " "]), e)
        k = r.random()
        self.ev += 1
        if k < .4:
            return " .dw %s" % s, [(v & 0xFFFF).to_bytes(2, "little")]
        if k < .6:
            return " .db %s,%s" % (s, s), [bytes([v & 255] * 2)]
        if k < .8:
            return " .dw 1+%s" % s, [((v + 1) & 0xFFFF).to_bytes(2, "little")]
        return " ld de,(%s+later)*2" % s, [b"\x11" + ((2 * (v + 9)) & 0xFFFF).to_bytes(2, "little")]

    def option(self):
        r = self.r
        prs, out = [], []
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            nm = r.choice(["opt%d" % r.randrange(5), "O%d" % r.randrange(3), "Long_Option_Name", "z"])
            if k < .2:
                prs.append(nm)
                self.opts[nm.lower()] = ("n", 1)
            elif k < .35:
                t = "".join(r.choice("abc xyz") for _ in range(r.randrange(1, 6)))
                prs.append('%s="%s"' % (nm, t))
                self.opts[nm.lower()] = ("s", t)
            else:
                v = r.randrange(20000)
                prs.append("%s=%s" % (nm, r.choice(["%d" % v, "$%X" % v, "%d+%d" % (v // 2, v - v // 2), "later+%d" % (v - 9)])))
                self.opts[nm.lower()] = ("n", v)
        return r.choice([" .option ", " .OPTION ", "  .option  "]) + ",".join(prs)

    def text(self, f, n, depth, head=()):
        """-> (lines, parts)"""
        r = self.r
        lines, parts = list(head), []

        def put(s, p=()):
            lines.append(s)
            parts.extend(p)
        for _ in range(n):
            k = r.random()
            here = len(lines) + 1
            if k < .4:
                put(*self.stmt(here, f))
            elif k < .48:
                if r.random() < .5:
                    x = self.uid("x")
                    put("%s %s %s" % (x, r.choice(["=", ".equ"]), self.name()))
                    put(" .dw %s" % x, [here.to_bytes(2, "little")])
                else:
                    for _ in range(r.randrange(1, 5)):
                        put(r.choice(["", "; text __LINE", "  "]))
            elif k < .54:
                put("#comment")
                for _ in range(r.randrange(4)):
                    put("any .db __LINE thing")
                put("#endcomment")
            elif k < .62:
                t = r.random() < .5
                put(r.choice(["#if __LINE = %d", "#if %d=__LINE", "#if (__line + 0) == %d"]) % (here if t else here + 1))
                s, p = self.stmt(len(lines) + 1, f)
                put(s, p if t else ())
                if r.random() < .5:
                    put("#else")
                    s, p = self.stmt(len(lines) + 1, f)
                    put(s, () if t else p)
                put("#endif")
            elif k < .7 and depth < 5:
                m = self.uid("mac")
                put("#macro %s(p)" % m)
                body = []
                put(" nop", ())
                body.append(b"\0")
                for _ in range(r.randrange(1, 4)):
                    h = len(lines) + 1
                    j = r.random()
                    if j < .3:
                        put(" .dw p")
                        body.append("arg")
                    elif j < .4:
                        put(" .dw p+__LINE")
                        body.append(("arg+", h))
                    elif j < .5 and self.macros:
                        o = r.choice(self.macros)
                        put(" %s(%s)" % (o[0], self.name()))
                        body.append(("call", o, h))
                    else:
                        s, p = self.stmt(h, f)
                        put(s)
                        body += p
                put("#endmacro")
                self.macros.append((m, body))
            elif k < .8 and self.macros:
                o = r.choice(self.macros)
                j = r.random()
                a, v = (self.name(), here) if j < .5 else ("%s+1" % self.name(), here + 1) if j < .7 else ("5", 5)
                put(" %s(%s)" % (o[0], a), self.expand(o, v))
            elif k < .88 and depth < 4:
                g = r.choice(self.dirs) + self.uid("i") + ".inc"
                put('#include "%s"' % g)
                ls, ps = self.text(g, r.randrange(1, 8), depth + 1)
                self.files[g] = r.choice(["\n", "\n", "\r\n"]).join(ls) + r.choice(["\n", ""])
                parts.extend(ps)
            elif k < .94:
                put(self.option())
                for nm in r.sample(sorted(self.opts), min(2, len(self.opts))):
                    kind, v = self.opts[nm]
                    u = "__" + r.choice([nm, nm.upper()])
                    if kind == "n":
                        put(" .dw %s" % u, [(v & 0xFFFF).to_bytes(2, "little")])
                    else:
                        put(" .db %s" % u, [v.encode()])
            elif depth < 4:
                b = []
                for i in range(1, r.randrange(1, 4) + 1):
                    put(' wr(" .dw __LINE")')
                    b.append(i.to_bytes(2, "little"))
                put(" run()", b)
            else:
                put(" nop", [b"\0"])
        return lines, parts

    def expand(self, o, v):
        out = []
        for b in o[1]:
            if b == "arg":
                out.append(v.to_bytes(2, "little"))
            elif isinstance(b, tuple) and b[0] == "arg+":
                out.append((v + b[1]).to_bytes(2, "little"))
            elif isinstance(b, tuple) and b[0] == "call":
                out += self.expand(b[1], b[2])
            else:
                out.append(b)
        return out


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    g = Gen(r)
    main = r.choice(["t.asm", "t.asm", "sub/m.z80", "a b.asm"])
    head = ["#define nine 9", "#define fun(x) x*2"] + [""] * r.choice([0, 0, 3, 300] + [9990, 30000] * (r.random() < .1))
    ls, parts = g.text(main, r.choice([3, 10, 30]), 0, head + [" buf(1)"])
    g.files[main] = r.choice(["\n", "\n", "\r\n"]).join(ls + ["later = 9"]) + "\n"
    args = ["-N", main, "o.bin"]
    run = wk.run(g.files, args)
    if wk.crashed(run, g.files, args):
        return
    got = run.file("o.bin")
    o.evals += 1
    o.count("files", len(g.files))
    o.count("getc", g.ev)
    if run.rc != 0 or got is None:
        o.violation("status", "status %s\n%s" % (run.rc, run.out[-700:]), g.files, args)
        return
    pos = 0
    for p in parts:
        if isinstance(p, tuple):
            for q in (os.path.join(run.dir, p[1]), p[1], "./" + p[1]):
                if got[pos:pos + len(q)] == q.encode():
                    pos += len(q)
                    break
            else:
                o.violation("file", "__FILE in %s gives %r" % (p[1], got[pos:pos + 60]), g.files, args)
                return
            o.count("__FILE")
        else:
            if got[pos:pos + len(p)] != p:
                o.violation("bytes", "at offset %d %s, expected %s" % (pos, got[pos:pos + max(8, len(p))].hex(), p.hex()), g.files, args)
                return
            pos += len(p)
            o.count("values")
    if pos != len(got):
        o.violation("length", "%d bytes instead of %d" % (len(got), pos), g.files, args)
    o.nontrivial(got)
    o.sample({"text": g.files[main][:300], "bytes": len(got)})



def option_case(item, wk):
    """.option against the #define lines it stands for"""
    r = random.Random(item)
    o = wk.obs
    a, b = [], []
    names = ["o%d" % i for i in range(4)] + ["Qq", "bm"]
    plain = r.random() < .3
    for _ in range(r.randrange(2, 14)):
        k = r.random()
        n = r.choice(names)
        if k < .45:
            n2 = [r.choice(names) for _ in range(r.randrange(1, 4))]
            vs = [r.choice([None, "5", "$1F", "1+2*3", "later", "later+1", '"abc"', "'x'", "7", "nosuch", "lab", "$", "~5", "hl", "(ix+3)", "-1"]) for _ in n2]
            a.append(" .option " + r.choice([",", ", ", " , "]).join(m if v is None else m + "=" + v for m, v in zip(n2, vs)))
            b += ["#define __%s %s" % (m, v or "1") for m, v in zip(n2, vs)]
        else:
            u = "__" + (n if r.random() < .7 else n.swapcase())
            s = r.choice([[" .db %s&255" % u], [" .dw %s" % u], [" ld hl,%s" % u], ["#ifdef %s" % u, " .db 1", "#endif"], ["#undef %s" % u], ["#if %s" % u, " .db 3", "#endif"], [" .echo %s" % u], ["#define %s 9" % u]])
            a += s
            b += s
    for t in (a, b):
        if plain:
            t[:0] = ["#define o1 7", "#define qq", "o2 = 5"]
        t[:0] = [" .org $%x" % 0x4000, "lab: nop"]
        t.append("later = 12")
    res = []
    for t in (a, b):
        f = {"t.asm": "\n".join(t) + "\n"}
        x = wk.run(f, ["-N", "-L", "t.asm", "t.bin"])
        if wk.crashed(x, f, ["t.asm", "t.bin"]):
            return
        m = sorted(re.sub(r":\d+:", ":", l) for l in x.out.splitlines() if not l.startswith("Assembly time"))
        res.append((x.rc, m, x.file("t.bin"), x.file("t.lab")))
    o.evals += 1
    o.count("options_%s" % res[0][0])
    o.nontrivial(res[0])
    if res[0] != res[1]:
        o.violation("option", "with .option: %r\nwith #define: %r" % tuple(res), {"t.asm": "\n".join(a) + "\n", "as-define.asm": "\n".join(b) + "\n"}, ["-N", "-L", "t.asm", "t.bin"])


def one(item, wk):
    (option_case if item[0] == "o" else case)(item[1], wk)


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program whose bytes were compared with the lines, files, bytes of files and option values the generator put in; distinct = distinct outputs"
    ctx.pmap(one, [("c", "%s/%d" % (ctx.seed, i)) for i in range(ctx.n(4000, 50000))] + [("o", "%s/o%d" % (ctx.seed, i)) for i in range(ctx.n(3000, 30000))])
    ctx.finish(minimum=4000, min_distinct=3000)
