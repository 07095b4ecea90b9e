"""C17: the listing shows every line once, with its address and the bytes it produced."""
import random
from vlib import *

Z = [("nop", 1), ("inc b", 1), ("ld a,7", 2), ("ld hl,$1234", 3), ("ldir", 2), ("ld (ix+5),9", 4), ("bit 3,(iy-2)", 4), ("push af", 1), ("jr $", 2),
     ("djnz $+4", 2), ("out (3),a", 2), ("ld ix,0", 4), ("ld (1000),bc", 4)]
FW = [("ld hl,Later", 3), ("call Later", 3), ("ld a,Later2&255", 2), ("ld (ix+Later2&15),Later&255", 4), ("ld (Later),bc", 4), ("jp nz,Later+3", 3), ("ld iy,Later*2&$FFF", 4),
      ("res Later2&7,a", 2)]
EZ = [("nop", 1), ("ld a,7", 2), ("ld hl,$123456", 4), ("lea ix,iy+3", 3), ("ld (ix+5),9", 4), ("ld ix,0", 5), ("ldir", 2), ("mlt bc", 2), ("call.is 5", 4)]
EF = [("ld hl,Later", 4), ("ld (ix+Later2&15),Later&255", 4), ("ld iy,Later", 5), ("call Later", 4), ("ld.sis hl,Later&255", 4)]
REC = re.compile(rb"([ \d]{4}\d) ([0-9A-F]{2}):([0-9A-F]{4}) ")
BYTES = re.compile(rb"(?:[0-9A-F]{2} ){0,4}(?:-  ){0,4}")


class Gen:
    def __init__(self, rng, ez, crlf):
        self.rng, self.ez = rng, ez
        self.files = {}
        self.exp = []     # (file, line number, text, address, bytes offset, size) of every listed line in order
        self.pc = 0
        self.pos = 0
        self.on = True
        self.nl = "\r\n" if crlf else "\n"
        self.macros = []
        self.nfile = 0
        self.n = 0
        self.fwd = 0

    def op(self):
        r = self.rng
        if r.random() < .35:
            self.fwd += 1
            return r.choice(EF if self.ez else FW)
        return r.choice(EZ if self.ez else Z)

    def call(self):
        m, s = self.rng.choice(self.macros)
        return "%s(%s)" % (m, self.rng.choice(["1", "Later", "3+4", "L0"])), s

    def data(self):
        r = self.rng
        w, d = r.choice([(1, ".db"), (1, ".byte"), (2, ".dw"), (3, ".dl")])
        n = r.choice([1, 2, 3, 4, 5, 8, 9, 13, 16, 30])
        els, size = [], 0
        for _ in range(n):
            k = r.random()
            if k < .3:
                els.append({1: "Later&255", 2: "Later&65535", 3: "Later"}[w])
                self.fwd += 1
            elif k < .4 and w == 1:
                s = "".join(r.choice("abcXYZ 09") for _ in range(r.randrange(1, 6)))
                els.append('"%s"' % s)
                size += len(s) - 1
            else:
                els.append(str(r.randrange(120)))
            size += w
        return "%s %s" % (d, ",".join(els)), size

    def start(self, name):
        """begin a file: returns the list of its lines"""
        lines = []
        self.files[name] = lines
        return lines

    def line(self, name, text, size=0, listed=None):
        lines = self.files[name]
        lines.append(text)
        if self.on if listed is None else listed:
            self.exp.append((name, len(lines), text, self.pc, self.pos, size))
        self.pc += size
        self.pos += size

    def body(self, name, n, depth):
        r = self.rng
        while n > 0:
            n -= 1
            self.n += 1
            if not self.ez and self.pc > 0xF000:
                self.line(name, " .org $4000")
                self.pc = 0x4000
            k = r.randrange(100)
            pre = r.choice(["", "", "", "L%d: " % self.n, "L%d " % self.n])
            post = r.choice(["", "", " ; note", "\t;x \\ y", "   "])
            if k < 30:
                t, s = self.op()
                self.line(name, pre + " " + t + post, s)
            elif k < 42:
                t, s = self.data()
                self.line(name, pre + " " + t + post, s)
            elif k < 47:
                ts = [self.op() if r.random() < .7 or not self.macros else self.call() for _ in range(r.randrange(2, 5))]
                self.line(name, pre + " " + r.choice([" \\ ", "\\ "]).join(t for t, s in ts) + post, sum(s for t, s in ts))
            elif k < 52:
                s = r.choice([0, 1, 3, 4, 5, 17, 100])
                self.line(name, pre + " .fill %d,%d" % (s, r.randrange(256)) + post, s)
            elif k < 60 and self.macros:
                t, s = self.call()
                self.line(name, pre + " " + t + post, s)
            elif k < 65:
                self.line(name, r.choice(["", "   ", "; comment", "X%d" % self.n, "Y%d:" % self.n, "_", "Q%d = 5" % self.n, "#define D%d 5+Later" % self.n, "W%d .equ 7" % self.n]))
            elif k < 69:
                a = r.choice([0x4000, 0x8000, 0x9D95, self.pc, 0x100]) + r.randrange(16)
                self.line(name, " .org %d" % a + post)
                self.pc = a
            elif k < 73 and depth < 4:
                self.nfile += 1
                f = r.choice(["i%d.inc", "sub/j%d.z80"]) % self.nfile
                t, z = self.op()
                join = r.random() < .2  # more statements behind the #include: they get a record of their own
                self.line(name, '#include "%s"' % f + (" \\ " + t if join else ""))
                ln = len(self.files[name])
                self.start(f)
                self.body(f, r.choice([0, 1, 3, 8]), depth + 1)
                if join:
                    if self.on:
                        self.exp.append((name, ln, self.files[name][ln - 1], self.pc, self.pos, z))
                    self.pc += z
                    self.pos += z
            elif k < 82:  # conditional, one active branch
                good = r.random() < .6
                short = not good and self.ez and r.random() < .6
                if short:  # (the addresses keep all their digits)
                    self.line(name, " .assume adl=0")
                self.line(name, r.choice(["#if 1", "#ifdef D0", "#ifndef Nope", "#if Z0=3"] if good else ["#if 0", "#ifndef D0", "#ifdef Nope", "#if Z0!=3"]))

                def skipped():
                    for _ in range(r.randrange(0, 5)):
                        self.line(name, r.choice([" nop", " junk (", '#include "missing.inc"', " .nolist", "", " .db 1,2,3,4,5,6", "L0:", "#define D0 6"]))
                if good:
                    self.body(name, r.randrange(0, 4), depth + 1)
                    if r.random() < .6:
                        self.line(name, r.choice(["#else", "#elif 1", "#elif 0"]))
                        skipped()
                else:
                    skipped()
                    if r.random() < .6:
                        self.line(name, r.choice(["#else", "#elif 1"]))
                        if short:
                            self.line(name, " .assume adl=1")
                        self.body(name, r.randrange(0, 4), depth + 1)
                self.line(name, "#endif")
                if short:
                    self.line(name, " .assume adl=1")
            elif k < 86:
                self.line(name, "#macro M%d(x)" % self.n)
                s = 0
                for _ in range(r.randrange(0, 5)):
                    t, z = r.choice([(" .db x&255,5", 2), (" .dw x", 2), self.op(), (" nop", 1), self.call() if self.macros else (" ret", 1)])
                    if not t.startswith(" "):
                        t = " " + t
                    self.line(name, t)
                    s += z
                self.line(name, "#endmacro")
                self.macros.append(("M%d" % self.n, s))
            elif k < 88:
                self.line(name, "#comment")
                for _ in range(r.randrange(0, 3)):
                    self.line(name, r.choice(["some text", " nop", ""] + (["#if 0"] if depth == 0 else [])))
                self.line(name, "#endcomment")
            elif k < 91 and self.on:
                self.line(name, " .nolist", listed=False)
                self.on = False
            elif k < 96 and not self.on:
                self.line(name, " .list", listed=False)
                self.on = True
            elif k < 98:
                s = r.choice([0, 1, 4, 5, 40])
                f = "p%d.bin" % self.n
                self.files[f] = r.randbytes(s)
                self.line(name, '#import "%s"' % f, s)
            else:
                self.line(name, r.choice([' .echo "x"', " .echo 5", ' .show D0', " .option o=1"]))


def parse(b, cwd):
    """-> list of [file or None, line number, address, bytes, text, continuation-byte field]"""
    recs = []
    cur = None
    for raw in b.split(b"\n"):
        m = REC.match(raw)
        if m:
            area = raw[14:26]
            if area == b" " * 12:
                by = b""
            elif len(area) == 12 and BYTES.fullmatch(area):
                by = bytes.fromhex(area.replace(b"-", b"").decode())
            else:
                return None, "byte columns %r" % raw
            recs.append([cur, int(m.group(1)), int(m.group(2) + m.group(3), 16), by, raw[26:].rstrip(b"\r"), raw])
        elif raw.startswith(b"Listing for file "):
            m = re.fullmatch(rb'Listing for file "(.*)"\r?', raw)
            if not m:
                return None, "banner %r" % raw
            cur = m.group(1)
        elif raw.startswith(b" " * 14):
            area = raw[14:26]
            if not recs or not BYTES.fullmatch(area) or len(recs[-1][3]) % 4 or recs[-1][4].strip():
                return None, "continuation %r" % raw
            recs[-1][3] += bytes.fromhex(area.replace(b"-", b"").decode())
            recs[-1][4] = raw[26:].rstrip(b"\r")
        elif raw.strip() == b"":
            continue
        else:
            return None, "line %r" % raw
    return recs, None


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    ez = rng.random() < .3
    crlf = rng.random() < .15
    g = Gen(rng, ez, crlf)
    g.start("t.asm")
    g.line("t.asm", "#define D0 1")
    g.line("t.asm", "Z0 = 3")
    org = rng.choice([0, 0x4000, 0x9D95]) if not ez else 0xD1A881
    g.line("t.asm", " .org $%X" % org)
    g.pc = org
    g.line("t.asm", "L0: .db 1", 1)
    g.body("t.asm", rng.choice([3, 10, 40, 120]), 0)
    if not g.on:
        g.line("t.asm", " .list", listed=False)
        g.on = True
    g.line("t.asm", "Later:")
    g.line("t.asm", "Later2: nop", 1)
    files = {}
    for n, l in g.files.items():
        if isinstance(l, list):
            files[n] = g.nl.join(l) + (g.nl if l else "")
            if n != "t.asm" and l and l[-1] and rng.random() < .2:
                files[n] = g.nl.join(l)
        else:
            files[n] = l
    args = ["-N"] + (["-E"] if ez else []) + ["-T", "t.asm", "t.bin"]
    r = wk.run(files, args)
    o.evals += 1
    if wk.crashed(r, files, args):
        return
    b, lst = r.file("t.bin"), r.file("t.lst")
    if b is None or lst is None or r.rc > 1:
        o.violation("no-output", "exit %s\n%s" % (r.rc, r.out[-800:]), files, args)
        return
    if len(b) != g.pos:
        o.violation("size", "%d bytes of output, %d expected\n%s" % (len(b), g.pos, r.out[-500:]), files, args)
        return
    recs, bad = parse(lst, r)
    if recs is None:
        o.violation("format", bad, files, args)
        return
    for i, (name, ln, text, addr, pos, size) in enumerate(g.exp):
        if i >= len(recs):
            o.violation("missing", "%s:%d %r is not listed" % (name, ln, text), files, args)
            return
        f, n, a, by, t, raw = recs[i]
        f = "t.asm" if f is None else f.decode()
        if n != ln or t.decode() != text:
            o.violation("line", "record %r, expected %s:%d %r" % (raw, name, ln, text), files, args)
            return
        if not (f == name or f.endswith("/" + name)):
            o.violation("file", "%s:%d %r is listed under %r" % (name, ln, text, f), files, args)
            return
        if a != addr:
            o.violation("address", "%s:%d %r at %X, expected %X" % (name, ln, text, a, addr), files, args)
            return
        if by != b[pos:pos + size]:
            o.violation("bytes", "%s:%d %r lists %s, output has %s" % (name, ln, text, by.hex(), b[pos:pos + size].hex()), files, args)
            return
        o.evals += 1
        if size:
            o.nontrivial("%s %d" % (text, addr))
    if len(recs) > len(g.exp):
        o.violation("extra", "record %r after the last line" % recs[len(g.exp)][5], files, args)
        return
    o.count("records", len(recs))
    o.count("bytes", len(b))
    o.count("include files", g.nfile)
    o.count("forward references", g.fwd)
    if rng.random() < .25:  # the listing does not depend on whether an output file is written
        a2 = args[:1] + ["-O"] + args[1:]
        r2 = wk.run(files, a2)
        if wk.crashed(r2, files, a2):
            return
        if r2.file("t.lst") != lst or r2.file("t.bin") is not None:
            o.violation("no-output-mode", "listing with -O differs (or a binary was written)", files, a2)
        o.count("with -O")


def others(item, wk):
    """The programs of all generators"""
    import watch
    watch.listing(item, wk)


def check(ctx):
    ctx.rule = "one evaluation = one listing record compared in file, line number, text, address and bytes; distinct = distinct (byte-producing line, address)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(8000, 60000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(3000, 1000)
