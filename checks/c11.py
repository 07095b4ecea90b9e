"""C11: including a file is the same as having its text in place; #import inserts the
file's bytes; the search order of include directories."""
import random
import re
from vlib import *
import meta
import expr


class Blk:
    def __init__(self, parts):
        self.parts = parts  # alternating: line text, list of nodes, line text, ...


def gen(rng, budget, ez):
    """-> list of nodes (str lines or Blk), no node depends on being in a certain file"""
    st = {"n": 0, "lab": [], "def": [], "mac": [], "org": 0}

    def unit(depth):
        st["n"] += 1
        n = st["n"]
        k = rng.random()
        if k < .18:
            st["lab"].append(rng.choice(["Lab%d", "BMLab%d", "BM_label_%d"]) % n)
            return ["%s%s" % (st["lab"][-1], rng.choice([":", "", ": nop"]))]
        if k < .26:
            v = expr.simple(rng, rng.sample(st["def"], min(2, len(st["def"]))), 1)
            st["def"].append("Def%d" % n)
            return ["#define Def%d %s" % (n, v)]
        if k < .34:
            ar = rng.randrange(0, 3)
            st["mac"].append(("Mac%d" % n, ar))
            body = [" .db " + ",".join(["%d" % (n & 255)] + ["p%d&255" % i for i in range(ar)])]
            if ar and rng.random() < .4:
                body = ["#if p0>%d" % rng.randrange(99), " nop", "#endif"] + body
            return [Blk(["#macro Mac%d(%s)" % (n, ",".join("p%d" % i for i in range(ar))), body, "#endmacro"])]
        if k < .44 and st["mac"]:
            m, ar = rng.choice(st["mac"])
            return [" %s(%s)" % (m, ",".join(expr.simple(rng, st["def"][-3:], 1) for _ in range(ar)))]
        if k < .54 and depth < 4:
            ref = rng.choice(st["def"] + ["0", "1", "7"])
            head = rng.choice(["#if %s&1" % ref, "#ifdef %s" % (ref if not ref.isdigit() else "NoDef"), "#ifndef %s" % (ref if not ref.isdigit() else "NoDef2"), "#if 0", "#if 1"])
            keep = {k: list(v) for k, v in st.items() if k != "n" and k != "org"}
            parts = [head, block(depth + 1, rng.randrange(1, 5))]
            st.update({k: list(v) for k, v in keep.items()})
            if rng.random() < .5:
                parts += ["#else", block(depth + 1, rng.randrange(1, 4))]
                st.update(keep)
            return [Blk(parts + ["#endif"])]
        if k < .58 and ez:
            return [" .assume adl=%d" % rng.randrange(2)]
        if k < .61:
            return ["", "; comment \"with quote", "#comment", "text", "#endcomment"][:rng.choice([1, 2])] if rng.random() < .5 else [Blk(["#comment", ["text " + rng.choice("'x;")], "#endcomment"])]
        if k < .64:
            return ["#define Cnt%d 1" % n, "#define Cnt%d eval(Cnt%d+%d)" % (n, n, n), " .dw Cnt%d" % n]
        if k < .67:
            return ["#define Tmp%d %d" % (n, n), "#ifdef Tmp%d" % n, " .dw Tmp%d" % n, "#endif", "#undef Tmp%d" % n, "#ifdef Tmp%d" % n, " nop", "#endif"] if depth == 9 else \
                ["#define Tmp %d" % n, " .dw Tmp*2", "#undef Tmp", "#define Tmp 9"]
        if k < .70:
            return [" .fill %d,%d" % (rng.randrange(20), n & 255)]
        if k < .80:
            return [" " + rng.choice(["ld hl,", "call ", "jp ", ".dw ", ".dl "]) + rng.choice(["Lab%d" % rng.randrange(1, n + 1) if False else (rng.choice(st["lab"]) if st["lab"] else "$"), "End", "$", "End-Start"])]
        if k < .86:
            return [" .db $&255,\"t%d\"" % n]
        return [" " + rng.choice(["nop", "ld a,%d" % (n & 255), "add hl,de", "ldir", "push ix", "ld (ix+%d),5" % (n & 127), "nop \\ inc a\\ nop"])]

    def block(depth, m):
        res = []
        for _ in range(m):
            res += unit(depth)
        return res
    return block(0, budget)


def flat(nodes):
    out = []
    for x in nodes:
        if isinstance(x, str):
            out.append(x)
        else:
            for i, p in enumerate(x.parts):
                out += [p] if i % 2 == 0 else flat(p)
    return out


class Splitter:
    def __init__(self, rng, dirs):
        self.rng, self.dirs, self.files, self.n, self.depth = rng, dirs, {}, 0, 0

    def split(self, nodes, depth=0):
        """write nodes as lines, moving runs of them to files"""
        r = self.rng
        out, i = [], 0
        while i < len(nodes):
            if depth < 6 and r.random() < .25:
                j = min(len(nodes), i + r.choice([0, 1, 2, 5, 12]))
                self.n += 1
                nm = r.choice(["f%d.inc", "F%d.z80", "file_%d.asm", "n.a.%d", "d space %d.inc"]) % self.n
                d = r.choice(self.dirs)
                sub = r.choice(["", "", "sub/", "sub/deep/"])
                body = self.split(nodes[i:j], depth + 1)
                self.depth = max(self.depth, depth + 1)
                eol = r.choice(["\n", "\n", "\r\n"])
                txt = eol.join(body) + (eol if r.random() < .7 and body else "")
                if r.random() < .1:
                    txt += eol * 3 + "  "
                self.files[d + sub + nm] = txt
                ref = sub + nm
                if r.random() < .2:
                    ref = ref.replace("/", "\\")
                out.append("%s#%s \"%s\"%s" % (r.choice(["", "", " ", "\t"]), r.choice(["include", "include", "INCLUDE"]), ref, r.choice(["", "", " ; c", "  "])))
                i = j
                continue
            x = nodes[i]
            if isinstance(x, str):
                out.append(x)
            elif x.parts[0].startswith(("#macro", "#comment")):
                out += flat([x])
            else:
                for k, p in enumerate(x.parts):
                    out += [p] if k % 2 == 0 else self.split(p, depth + 1)
            i += 1
        return out


def split_case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    ez = rng.random() < .3
    nodes = gen(rng, rng.choice([5, 15, 40, 120]), ez)
    head, tail = [" .org $4000", "Start:"], ["End:", " .dw End,Start"]
    one = {"one.asm": "\n".join(head + flat(nodes) + tail) + "\n"}
    sp = Splitter(rng, ["", "", "ia/", "ib/"])
    lines = sp.split(nodes)
    many = {"many.asm": "\n".join(head + lines + tail) + "\n"}
    many.update(sp.files)
    base = ["-N"] + (["-E"] if ez else [])
    inc = rng.choice([["-I", "ia;ib"], ["-Iib", "-Iia"], ["-I", "ia", "-I", "ib"], ["-I", "ib,ia"]])
    a1 = base + ["-L", "one.asm", "one.bin"]
    r1 = wk.run(one, a1)
    b1, l1 = r1.file("one.bin"), r1.file("one.lab")
    if wk.crashed(r1, one, a1):
        return
    if r1.rc not in (0, 1):
        if r1.rc == 3 or r1.rc == 2:
            o.violation("inlined:status", "exit %s on a correct program: %s" % (r1.rc, r1.out[-600:]), one, a1)
        return
    o.evals += 1
    o.count("files", sp.n)
    o.count("depth>=3", int(sp.depth >= 3))
    o.nontrivial((b1, sp.n, sp.depth))
    o.sample({"main": many["many.asm"][:300], "files": sorted(sp.files)[:6]})
    a2 = base + inc + ["-L", "many.asm", "many.bin"]
    r2 = wk.run(many, a2)
    if wk.crashed(r2, many, a2):
        return
    if r2.rc != r1.rc or r2.file("many.bin") != b1:
        g = r2.file("many.bin")
        o.violation("split:bytes", "split over %d files: exit %s, %s; in one file: exit %s, %s\n%s" % (sp.n, r2.rc, g and g.hex()[:500], r1.rc, b1 and b1.hex()[:500], r2.out[-500:]), dict(many, **one), a2)
    elif r2.file("many.lab") != l1:
        o.violation("split:labels", "symbol tables differ", dict(many, **one), a2)


def search_case(item, wk):
    """which of several files of one name is taken"""
    rng = random.Random(item)
    o = wk.obs
    odd = rng.sample(["a:b", "with space", "x.y", "-d", "p+q", "n(1)", "#1", "e=f", "c:", "D2", "u'v", "t~", "a&b", "..2", "%d", "x%", "q!/r", "l" * 90], 3) if rng.random() < .5 else ["d1", "d2", "d3/x"]
    dirs = ["", odd[0] + "/", odd[1] + "/", odd[2] + "/", "own/"]
    files, lines, exp = {}, [], b""
    order = rng.sample(odd, rng.randrange(0, 4))
    missing = None
    main = rng.choice(["m.asm", "own/m.asm"])
    seq = [""] + [d + "/" for d in order]
    for i in range(rng.randrange(1, 8)):
        nm = "%s%d.%s" % (rng.choice(["", "k/"]), i, rng.choice(["inc", "bin"]))
        have = [d for d in dirs if rng.random() < .45]
        imp = rng.random() < .4
        for d in have:
            v = rng.randrange(256)
            tag = bytes([dirs.index(d), i, v])
            if imp:
                files[d + nm] = tag + bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
            else:
                files[d + nm] = " .db %d,%d,%d\n" % tuple(tag)
        pick = next((d for d in seq if d in have), None)
        if pick is None and missing is not None:
            continue
        lines.append(('#import "%s"' if imp else '#include "%s"') % nm)
        if pick is None:
            missing = len(lines)
        elif imp:
            exp += files[pick + nm]
        else:
            exp += bytes(int(x) for x in files[pick + nm].split()[1].split(","))
        o.evals += 1
        o.count("import" if imp else "include")
        o.nontrivial((tuple(have), tuple(order), pick, imp))
    lines.append(" .db $&255,123")
    exp += bytes([len(exp) & 255, 123])
    files[main] = "\n".join(lines) + "\n"
    sep = rng.choice([";", ","])
    inc = []
    if order:
        inc = ["-I", sep.join(order)] if rng.random() < .5 else sum((["-I", d] if rng.random() < .5 else ["-I" + d] for d in order), [])
    pth = main
    if rng.random() < .3 and main == "m.asm":
        pth = os.path.join(wk.wdir, "c", main)
    av = ["-N"] + inc + [pth, "o.bin"]
    r = wk.run(files, av)
    if wk.crashed(r, files, av):
        return
    if missing:
        o.count("missing file")
        if r.rc not in (2, 3) or not re.search(r"m\.asm:%d: error" % missing, r.out):
            o.violation("missing", "a file that is not there (line %d): exit %s %s" % (missing, r.rc, r.out[-400:]), files, av)
    elif r.rc != 0 or r.file("o.bin") != exp:
        g = r.file("o.bin")
        o.violation("search", "exit %s, got %s, expected %s (file is looked for in %s)\n%s" % (r.rc, g and g.hex(), exp.hex(), seq, r.out[-400:]), files, av)


def import_case(item, wk):
    """#import of arbitrary bytes, the location counter after it"""
    rng = random.Random(item)
    o = wk.obs
    n = rng.choice([0, 1, 2, 255, 256, 257, 511, 512, 4095, 4096, 4097, rng.randrange(20000)])
    data = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < .8 else bytes([rng.choice([0, 0x1A, 0xFF, 10, 13])]) * n
    org = rng.choice([0, 0x4000, 0x9D95])
    files = {"b.dat": data, "i.asm": " .org %d\n nop\n ld hl,After\n#import \"b.dat\"\nAfter:\n .dw $,After\n" % org}
    exp = b"\0\x21" + ((org + 4 + n) & 0xFFFF).to_bytes(2, "little") + data + ((org + 4 + n) & 0xFFFF).to_bytes(2, "little") * 2
    av = ["-N"] + rng.choice([[], ["-T"], ["-E"]]) + ["i.asm", "i.bin"]
    if "-E" in av:
        exp = b"\0\x21" + (org + 4 + n + 1).to_bytes(3, "little") + data + ((org + 5 + n) & 0xFFFF).to_bytes(2, "little") * 2
    r = wk.run(files, av)
    o.evals += 1
    o.nontrivial(exp)
    o.count("imported bytes", n)
    if wk.crashed(r, files, av):
        return
    if r.rc != 0 or r.file("i.bin") != exp:
        o.violation("import", "exit %s; %d imported bytes do not come out as they are\n%s" % (r.rc, n, r.out[-300:]), files, av)


def one(item, wk):
    k, i = item
    {"s": split_case, "d": search_case, "i": import_case}[k](i, wk)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "include")


def check(ctx):
    ctx.rule = "one evaluation = one program assembled whole and split over files (outputs and symbol tables compared), or one include/import resolved among decoys; distinct = distinct (output, split) or (files present, search path)"
    ctx.build("san")
    ctx.pmap(one, [("s", "%s/s%d" % (ctx.seed, i)) for i in range(ctx.n(4000, 40000))] +
             [("d", "%s/d%d" % (ctx.seed, i)) for i in range(ctx.n(4000, 40000))] + [("i", "%s/i%d" % (ctx.seed, i)) for i in range(ctx.n(400, 3000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(3000, 40000))])
    ctx.finish(minimum=800, min_distinct=300)
