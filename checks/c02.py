"""C02: expression values, differentially against lib/expr.py."""
import re
from vlib import *
import meta
import expr

CTX = ("dw", "dl", "echo", "if", "equ", "ld", "elif", "fill")


def build_file(rng, before, after, org, n, only=None):
    """Deterministic in rng: generate n statements tracking PC; -> (text, expectations)."""
    lines = [" .org $%X" % org]
    for k, v in before.items():
        lines.append("%s .equ %d" % (k, v))
    pc = org
    exp_bytes = b""
    exp_echo = {}
    info = []
    for i in range(n):
        c = rng.choice(CTX)
        names = dict(before)
        if c in ("dw", "dl", "echo", "ld") and rng.random() < .5:
            names.update(after)
        dots = {"dw": [0, 2], "dl": [0], "echo": [0], "if": [0], "equ": [0], "ld": [0], "elif": [0], "fill": [0]}[c]
        usepc = rng.random() < .5
        # '$' differs between the two .dw elements: only use it when one element suffices
        g = expr.Gen(rng, names, pc if usepc and c != "dw" else None)
        while True:
            g.feat = set()
            t, v = g.expr(rng.choice([0, 1, 2, 2, 3, 4, 8]))
            if len(t) <= 180:
                break
        ln, by, ec = [], b"", None
        if c == "dw":
            ln = [" .dw (%s)&$FFFF,(%s)>>16&65535" % (t, t)]
            by = (v & expr.M).to_bytes(4, "little")
        elif c == "dl":
            ln = [" .dl " + t + "&$FFFFFF"] if rng.random() < .5 else [" .long (" + t + ")&16777215"]
            by = (v & 0xFFFFFF).to_bytes(3, "little")
        elif c == "echo":
            ln = [' .echo "<%d=",%s,">\\n"' % (i, t)]
            ec = (i, v)
        elif c == "if":
            ln = [" #if " + t, " .db 1", "#else", " .db 0", "#endif"]
            by = bytes([1 if v else 0])
        elif c == "elif":
            ln = ["#if 0", " .db 5", "#elif " + t, " .db 1", "#else", " .db 0", "#endif"]
            by = bytes([1 if v else 0])
        elif c == "equ":
            ln = ["Q%d %s %s" % (i, rng.choice([".equ", "="]), t), " .dw Q%d&$FFFF,Q%d>>16&$FFFF" % (i, i)]
            by = (v & expr.M).to_bytes(4, "little")
        elif c == "ld":
            ln = [" ld hl,%s&$FFFF" % t]
            by = b"\x21" + (v & 0xFFFF).to_bytes(2, "little")
        elif c == "fill":
            k = expr.apply("&", v, 7)
            ln = [" .fill %s&7,%d" % (t, i & 255)]
            by = bytes([i & 255]) * k
        info.append((c, t, v, tuple(sorted(g.feat)), by, ln, pc))
        pc += len(by)
    if only is not None:
        c, t, v, f, by, ln, pc0 = info[only]
        lines[0] = " .org $%X" % pc0
        lines += ln
        exp_bytes = by
    else:
        for x in info:
            lines += x[5]
            exp_bytes += x[4]
    for i, x in enumerate(info):
        if x[0] == "echo" and (only is None or only == i):
            exp_echo[i] = x[2]
    for k, v in after.items():
        lines.append("%s .equ %d" % (k, v))
    return "\n".join(lines) + "\n", exp_bytes, exp_echo, info


def observe(wk, text, exp, echo):
    files = {"a.asm": text}
    r = wk.run(files, ["a.asm", "a.bin"])
    if r.sanitizer or r.timed_out:
        return files, r, "crash"
    got = r.file("a.bin")
    ge = {int(a): int(b) for a, b in re.findall(r"<(\d+)=(-?\d+)>", r.out)}
    if r.rc not in (0, 1):
        return files, r, "exit %s: %s" % (r.rc, r.out[-400:])
    if got != exp:
        return files, r, "bytes %s expected %s" % (got and got.hex(), exp.hex())
    if ge != echo:
        return files, r, "echo %s expected %s" % (ge, echo)
    return files, r, None


def run_items(wk, rng, before, after, org, n, seed):
    import random
    r2 = random.Random("b%s" % seed)
    text, exp, echo, info = build_file(r2, before, after, org, n)
    files, r, bad = observe(wk, text, exp, echo)
    o = wk.obs
    o.evals += n
    for x in info:
        for f in x[3]:
            o.count("op " + f)
        o.count("ctx " + x[0])
        o.nontrivial((x[0], x[1], x[2]))
    o.sample({"expr": info[0][1], "context": info[0][0], "value": info[0][2]})
    if not bad:
        return
    found = 0
    for k in range(n):
        t1, e1, ec1, _ = build_file(random.Random("b%s" % seed), before, after, org, n, k)
        f1, r1, b1 = observe(wk, t1, e1, ec1)
        if b1:
            found += 1
            if b1 == "crash":
                wk.crashed(r1, f1, ["a.asm", "a.bin"])
            else:
                o.violation("value:" + info[k][0], "expression %r: %s (expected value %d)" % (info[k][1], b1, info[k][2]), f1, ["a.asm", "a.bin"])
            if found >= 3:
                return
    if not found:
        if bad == "crash":
            wk.crashed(r, files, ["a.asm", "a.bin"])
        else:
            o.violation("value:batch", bad[:1500], files, ["a.asm", "a.bin"])


def errors(item, wk):
    """Undefined arithmetic has to be diagnosed with its code, on its line."""
    import random
    rng = random.Random("e%s" % item)
    kind = rng.choice(["div0", "mod0", "min", "big", "undef"])
    names = {"Fa": 0, "Fb": 5, "Fm": -(1 << 31), "Fn": -1}
    g = expr.Gen(rng, names)

    def zero():
        return rng.choice(["0", "Fa", "(3-3)", "(Fb-5)", "%0", "$0", "(1<<31<<1)"])
    if kind in ("div0", "mod0"):
        t, _ = g.small(2, 60)
        t = "%s%s%s" % (t, rng.choice(["/", " / "]) if kind == "div0" else " % ", zero())
        code = "SE203"
    elif kind == "min":
        t = "%s%s%s" % (rng.choice(["$80000000", "Fm", "(1<<31)", "80000000h"]), rng.choice(["/", " / ", " % "]), rng.choice(["-1", "Fn", "(0-1)", "$FFFFFFFF", "~0"]))
        code = "SE205"
    elif kind == "big":
        t = rng.choice(["4294967296", "99999999999", "$100000000", "0FFFFFFFFFh"])
        if rng.random() < .5:
            t = "%d+%s" % (rng.randrange(9), t)
        code = "SE204"
    else:
        t = "%d+Nowhere%d" % (rng.randrange(9), rng.randrange(9))
        code = "SE1?02"
    if rng.random() < .3:
        t = "(%s)" % t if len(t) < 100 else t
    if rng.random() < .3:
        t = "%d+(%s)" % (rng.randrange(9), t)
    if rng.random() < .4:
        t = rng.choice(["Fid(3)+(%s)", "Fid(%d)+Fid(%%s)" % rng.randrange(9), "Fk-(%s)", "Fid(Fk)*(%s)", "Fsum(1,2) + Fk - (%s)", "Fsum((%s),2)", "1+Fid(2)+(%s)", "Fsum(Fid(1),(%s))"]) % t
    fwd = rng.random() < .5
    stmt = rng.choice([" .db %s", " .dw 1,%s", " .dl %s,2", " ld hl,%s", " ld a,(%s)", " .echo %s", " .db Fid(7),%s,Fk"] +
                      ([] if fwd else [" .fill %s", *(["#if %s\n#endif"] if kind != "undef" else []), "Zz = %s", "Zz: .equ %s", " .org %s", " .fill 3,%s"])) % t
    pre = rng.randrange(5)
    defs = ["%s .equ %d" % kv for kv in names.items()]
    lines = ["#define Fid(x) x", "#define Fk 5", "#define Fsum(x,y) x+y"] + ([] if fwd else defs) + [" .db 1"] * pre + [stmt] + [" nop"] * rng.randrange(4) + (defs if fwd else [])
    line = lines.index(stmt) + 1
    files = {"a.asm": "\n".join(lines) + "\n"}
    r = wk.run(files, ["a.asm", "a.bin"])
    o = wk.obs
    o.evals += 1
    o.nontrivial((kind, t))
    o.count("error " + kind)
    if wk.crashed(r, files, ["a.asm", "a.bin"]):
        return
    want = r"a\.asm:%d: error%s:" % (line, r"( SE\d+)?" if kind == "undef" else " " + code)
    if r.rc not in (2, 3) or not re.search(want, r.out):
        o.violation("undiagnosed:" + kind, "%r: expected %s and exit 2/3, got exit %s\n%s" % (stmt, want, r.rc, r.out[-600:]), files, ["a.asm", "a.bin"])


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "later")


def check(ctx):
    ctx.rule = ("one evaluation = one random expression emitted through one context (data, operand, #if/#elif, .equ, .fill, .echo) whose observed "
                "value was compared with the model; distinct = distinct (context, text, value)")
    ctx.assumptions = ["expressions up to 180 characters and nesting up to 9 parentheses; \\# (random) literals excluded"]
    ctx.build("san")
    ctx.pmap(batch2, [("%s/%d" % (ctx.seed, i), 40) for i in range(ctx.n(6000, 60000))])
    ctx.pmap(errors, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.pmap(others, ["%s/l%d" % (ctx.seed, i) for i in range(ctx.n(6000, 40000))])
    ctx.finish(minimum=1000, min_distinct=500)


def batch2(item, wk):
    import random
    seed, n = item
    rng = random.Random("n%s" % seed)
    before = {"Kb%d" % i: expr.w(rng.choice(expr.INTERESTING) if rng.random() < .5 else rng.randrange(1 << 32)) for i in range(4)}
    after = {"kA%d_%d" % (i, i * 7): expr.w(rng.choice(expr.INTERESTING)) for i in range(4)}
    org = rng.choice([0, 0x4000, 0x9D95, 0xFFF0, 0x123456])
    run_items(wk, rng, before, after, org, n, seed)
