"""C20: names ignore letter case, with -A they do not; everything else ignores it always."""
import random
import re
from vlib import *
import meta
import encode
import z80

FORMS = z80.table()

BASES = ["lab", "Count", "MAX_LEN", "x1", "data.ptr", "qQ", "Abc[1]", "start", "zebra", "key"]
SP = [" ", "  ", "\t"]


def variants(rng, b):
    s = {b, b.lower(), b.upper(), b.swapcase(), b.capitalize()}
    for _ in range(3):
        s.add("".join(c.upper() if rng.random() < .5 else c.lower() for c in b))
    return sorted(s)


def kw(rng, w):
    return rng.choice([w, w.upper(), w.lower(), w.capitalize(), "".join(c.upper() if rng.random() < .5 else c.lower() for c in w)])


def use(rng, n, v, pc):
    """-> (statement, bytes)"""
    k = rng.randrange(8)
    w = v & 0xFFFF
    lo, hi = w & 255, w >> 8
    if k == 0:
        return "%s %s" % (kw(rng, ".dw"), n), [lo, hi]
    if k == 1:
        return "%s %s,%s" % (kw(rng, "ld"), kw(rng, "hl"), n), [0x21, lo, hi]
    if k == 2:
        return "%s %s,%s" % (kw(rng, "call"), kw(rng, "nz"), n), [0xC4, lo, hi]
    if k == 3:
        return "%s %s&255,1+%s" % (kw(rng, ".byte"), n, "2"), [lo, 3]
    if k == 4:
        return "%s (%s),%s" % (kw(rng, "ld"), n, kw(rng, "bc")), [0xED, 0x43, lo, hi]
    if k == 5:
        return "%s %s+1" % (kw(rng, ".word"), n), [(w + 1) & 255, (w + 1 & 0xFFFF) >> 8]
    if k == 6:
        return "%s %s,(%s+%s&63)" % (kw(rng, "ld"), kw(rng, "a"), kw(rng, "ix"), n), [0xDD, 0x7E, w & 63]
    return "%s %s" % (kw(rng, "jp"), n), [0xC3, lo, hi]


def anycase(rng, t):
    """every word of a line in some letter case, outside quotes"""
    return re.sub(r'"[^"]*"|[A-Za-z]+', lambda m: m.group(0) if m.group(0)[0] == '"' else kw(rng, m.group(0)), t)


def words(rng, i, pc):
    """-> (lines, bytes): words of the assembler in any letter case; names used are spelled one way"""
    a, b = rng.randrange(200), rng.randrange(50)
    n = "w%dW" % i
    k = lambda t: kw(rng, t)
    c = rng.randrange(16)
    if c < 4:
        t, by = encode.instance(rng, rng.choice(FORMS), pc, None)
        return [" " + t], by
    if c == 4:
        return ["%s %s 1" % (k("#define"), n), "%s %sv %s(%s+%d)" % (k("#define"), n, k("eval"), n, b), "%s %s 50" % (k("#define"), n), " %s %sv" % (k(".db"), n)], [b + 1]
    if c == 5:
        return ['%s %s %s("\\"",%d,"\\"")' % (k("#define"), n, k("concat"), a), " %s %s" % (k(".db"), n)], b"%d" % a
    if c == 6:
        return [' %s %s("data",%d)' % (k(".db"), k("getc"), b)], [b + 7]
    if c == 7:
        return ['%s "data"' % k("#import")], [x + 7 for x in range(60)]
    if c == 8:
        return ['%s "inc.z80"' % k("#include")], [0x76]
    if c == 9:
        m = "q" + n
        return [" %s %s X 0%X 1 NOP 1" % (k(".addinstr"), anycase(rng, m), a), " %s x" % anycase(rng, m), " %s X" % anycase(rng, m)], [a] * 2
    if c == 10:
        return ["%s %d" % (k("#if"), b & 1), " .db 1", "%s %d" % (k("#elif"), b & 2), " .db 2", k("#else"), " .db 3", k("#endif")], [1 if b & 1 else 2 if b & 2 else 3]
    if c == 11:
        return [k("#comment"), " .dw nowhere", k("#endcomment"), "%s x" % k("#region"), " %s" % k("scf"), k("#endregion"), " " + k(".nolist"), " " + k(".list")], [0x37]
    if c == 12:
        return [" %s(%d)" % (k("buf"), b % 10), " %s()" % k("clr"), " %s(\" %s \",%d)" % (k("wr"), k(".db"), a), " %s()" % k("run")], [a]
    if c == 13:
        return [" %s %d,%d" % (k(rng.choice([".fill", ".block"])), b, a)], [a] * b
    if c == 14:
        return ["%s %s .db %d" % (k("#define"), n, a), "%s \\ .db %d" % (k("#defcont"), b), " " + n], [a, b]
    return ["%s %s" % (k("#define"), n), "%s %s" % (k("#ifdef"), n), " %s 'A'+%d" % (k(".byte"), b), k("#endif"), "%s %s" % (k(rng.choice(["#undef", "#undefine"])), n),
            "%s %s" % (k("#ifndef"), n), " %s %s,%s" % (k("ex"), k("de"), k("hl")), k("#endif")], [65 + b, 0xEB]


def case(item, wk):
    rng = random.Random(item)
    sens = rng.random() < .6
    o = wk.obs
    org = 0x4000
    bases = rng.sample(BASES, rng.randrange(2, 7))
    # symbols: spelling -> (kind, value); without -A one spelling per base is defined
    syms, cmd = {}, []
    order = []
    for b in bases:
        vs = variants(rng, b)
        for n in (rng.sample(vs, rng.randrange(1, min(4, len(vs)) + 1)) if sens else [rng.choice(vs)]):
            kind = rng.choice(["equ", "label", "define", "macro", "cmd", "func", "eqlater"])
            if re.search(r"[\[\].]", n) and kind in ("cmd",):
                kind = "equ"
            syms[n] = [kind, rng.randrange(0x100, 0xFFFF)]
            order.append(n)
    rng.shuffle(order)
    exact = {n: n for n in syms} if sens else {v: n for n in syms for b in bases if n.lower() == b.lower() for v in variants(rng, b)}
    lines, out, tail = [" %s $%X" % (kw(rng, ".org"), org)], [], []
    pc = org
    ready = []
    expdiag = []
    args = ["-N"]

    def emit(s, b):
        nonlocal pc
        lines.append(s)
        out.extend(b)
        pc += len(b)

    def spell(n):
        if sens:
            return n
        return rng.choice([v for v in exact if exact[v] == n])
    for n in order:
        kind, v = syms[n]
        if kind == "cmd":
            args.append("-D%s=%d" % (n, v))
            ready.append(n)
    for n in order:
        kind, v = syms[n]
        for _ in range(rng.randrange(3)):
            emit(" nop", [0])
        if kind == "equ":
            lines.append("%s %s %d" % (n, rng.choice(["=", kw(rng, ".equ")]), v))
        elif kind == "eqlater":
            tail.append("%s = %d" % (n, v))
        elif kind == "label":
            syms[n][1] = pc
            emit("%s%s nop" % (n, rng.choice([":", ""])), [0])
        elif kind == "define":
            lines.append("%s %s %d" % (kw(rng, "#define"), n, v))
        elif kind == "func":
            p = rng.choice(["arg", "Par", "X"])
            lines.append("%s %s(%s) %s+%d" % (kw(rng, "#define"), n, p, p if sens else rng.choice(variants(rng, p)), v))
        elif kind == "macro":
            p, q = ("va", "Va") if sens else ("va", "vb")
            lines += ["%s %s(%s,%s)" % (kw(rng, "#macro"), n, p, q), " %s %s,%s" % (kw(rng, ".dw"), p if sens else kw(rng, p), q if sens else kw(rng, q)), kw(rng, "#endmacro")]
        ready.append(n)
        for _ in range(rng.randrange(1, 4)):
            m = rng.choice(ready)
            s = spell(m)
            k2, v2 = syms[m]
            if k2 == "macro":
                a, b = rng.randrange(65536), rng.randrange(65536)
                emit(" %s(%d,%d)" % (s, a, b), [a & 255, a >> 8, b & 255, b >> 8])
            elif k2 == "func":
                a = rng.randrange(200)
                t, by = use(rng, "%s(%d)" % (s, a), a + v2, pc)
                emit(" " + t, by)
            else:
                t, by = use(rng, s, v2, pc)
                emit(" " + t, by)
            o.count("use_" + k2)
        # is it seen as defined, under which spelling?
        if rng.random() < .4 and kind in ("define", "func", "macro", "cmd"):
            vs = variants(rng, n)
            c = rng.choice(vs)
            isdef = any((c == m if sens else c.lower() == m.lower()) and syms[m][0] in ("define", "func", "macro", "cmd") for m in ready)
            a, b = rng.randrange(256), rng.randrange(256)
            lines += ["%s %s" % (kw(rng, "#ifdef"), c), " .db %d" % a, kw(rng, "#else"), " .db %d" % b, kw(rng, "#endif")]
            out.append(a if isdef else b)
            pc += 1
            o.count("ifdef")
        # removing under another spelling
        if rng.random() < .25 and kind == "define":
            vs = variants(rng, n)
            c = rng.choice(vs)
            hit = c == n if sens else True
            other = [m for m in ready if m == c]
            if not other or hit:
                lines.append("%s %s" % (kw(rng, "#undef"), c))
                if hit:
                    ready.remove(n)
                    if not any(m.lower() == n.lower() for m in ready):
                        pass
                o.count("undef_hit" if hit else "undef_miss")
                d = rng.choice(vs)
                isdef = any((d == m if sens else d.lower() == m.lower()) and syms[m][0] in ("define", "func", "macro", "cmd") for m in ready)
                lines += ["%s %s" % (kw(rng, "#ifdef"), d), " .db 1", kw(rng, "#else"), " .db 2", kw(rng, "#endif")]
                out.append(1 if isdef else 2)
                pc += 1
        while rng.random() < .4:
            ls, by = words(rng, len(lines), pc)
            lines += ls
            out.extend(by)
            pc += len(by)
            o.count("words")
    # spellings nobody defined
    if sens and rng.random() < .5:
        for b in bases:
            for v in variants(rng, b):
                if v not in syms and rng.random() < .3:
                    lines.append(" .dw %s" % v)
                    expdiag.append(len(lines))
    files = {"t.asm": "\n".join(lines + tail) + "\n", "data": bytes(range(7, 67)), "inc.z80": " %s\n" % kw(rng, "halt")}
    if sens:
        args.insert(rng.randrange(len(args) + 1), "-A")
    args += ["t.asm", "t.bin"]
    r = wk.run(files, args)
    if wk.crashed(r, files, args):
        return
    o.evals += 1
    o.nontrivial((sens, bytes(out), len(expdiag)))
    o.count("sensitive" if sens else "insensitive")
    o.sample({"args": args, "text": files["t.asm"][:300]})
    got = sorted((int(a), b) for a, b in re.findall(r"^t\.asm:(\d+): \w+ (S[EW]\d+)", r.out, re.M))
    if got != [(l, "SE106") for l in expdiag] or len(re.findall(r"(?m)^\S+:\d+: ", r.out)) != len(expdiag):
        o.violation("diagnostics" + ("-A" if sens else ""), "expected SE106 on lines %s\n%s" % (expdiag, r.out[-1500:]), files, args)
        return
    if r.rc != (2 if expdiag else 0):
        o.violation("status", "exit status %s\n%s" % (r.rc, r.out[-500:]), files, args)
        return
    b = r.file("t.bin")
    if not expdiag and b != bytes(out):
        i = next((i for i in range(min(len(b or b""), len(out))) if b[i] != out[i]), min(len(b or b""), len(out)))
        o.violation("bytes" + ("-A" if sens else ""), "output differs at offset %d: %s, expected %s" % (i, (b or b"")[i:i + 8].hex(), bytes(out)[i:i + 8].hex()), files, args)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "case")


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program mixing letter cases whose bytes and diagnostics were compared with the model; distinct = distinct (mode, bytes)"
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(20000, 150000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(minimum=2000, min_distinct=1000)
