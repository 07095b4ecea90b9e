"""C30: sizes - what fits the limits works exactly, what exceeds one is an error on its line."""
import random
import re
from c19 import messages
from vlib import *
import meta

NAME = "abcdefghijklmnopqrstuvwxyz_"


def long_name(r, n):
    return "".join(r.choice(NAME) for _ in range(n - 1)) + "_" if n > 1 else "q"


def long_expr(r, n):
    """exactly n characters, its value mod 65536 (strictly left to right)"""
    while True:
        t, v = "", 0
        first = True
        while n - len(t) > 12:
            k = r.randrange(200)
            op = "" if first else r.choice("+-*^")
            s = r.choice([str(k), "$%x" % k, "%" + bin(k)[2:], "(%d)" % k])
            if first and s[0] == "(":
                s = s[1:-1]
            if first and s[0] == "%":
                s = "%" + bin(k)[2:]
            t += op + s
            v = k if first else {"+": v + k, "-": v - k, "*": v * k, "^": v ^ k}[op] & 0xffffffff
            first = False
        rest = n - len(t)
        if first:
            return "0" * (n - 1) + "7", 7
        if rest >= 2:
            return t + "+" + "0" * (rest - 2) + "5", (v + 5) & 0xffff


def w(v):
    return bytes([v & 255, v >> 8 & 255])


# a shape: function(r, n) -> (lines, bytes, lines on which an error may be shown, extra files)

def expr_dw(r, n):
    e, v = long_expr(r, n)
    k = r.randrange(9)
    if k == 0:
        return [" .dw " + e], w(v), [1], {}
    if k == 1:
        return [" ld hl," + e], b"\x21" + w(v), [1], {}
    if k == 2:
        return ["here = " + e, " .dw here"], w(v), [1], {}
    if k == 3:
        return [" .dw 1," + e + ",2"], w(1) + w(v) + w(2), [1], {}
    if k == 4:
        return ["#macro show1(x)", " .dw x", "#endmacro", " show1(%s)" % e], w(v), [4], {}
    if k == 5:
        return ["#define longer " + e, " .dw longer"], w(v), [1, 2], {}
    if k == 6:
        return ["here .equ " + e, " .dw here"], w(v), [1], {}
    if k == 7:
        return [" call " + e + ";note"], b"\xcd" + w(v), [1], {}
    return [" .dw " + e + "\\ nop"], w(v) + b"\0", [1], {}


def expr_call(r, n):
    e, v = long_expr(r, n - 3)
    return ["#define f(x) x", " .dw f(%s)" % e], w(v), [1, 2], {}


def string(r, n):
    s = "".join(r.choice("abcdefgh ijk,;()+-0123456789") for _ in range(n - 2))
    return [' .db "%s"%s' % (s, r.choice(["", ",0", "; x"]))], s.encode(), [1], {}


def string2(r, n):
    l, b, e, f = string(r, n)
    l = [l[0].split('"')[0] + '"' + b.decode() + '"']
    return (l, b, e, f) if r.random() < .5 else (['#define text "%s"' % b.decode(), " .db text,1"], b + b"\1", [1, 2], {})


def name_expr(r, n):
    s = long_name(r, n)
    return [s + r.choice([" = ", " .equ "]) + "300", " .dw " + s], w(300), [1, 2], {}


def name_free(r, n):
    s = long_name(r, n)
    k = r.randrange(5)
    if k == 0:
        return [s + r.choice([":", ""]), " nop"], b"\0", [], {}
    if k == 1:
        return ["#define %s 3" % s, "#ifdef " + s, " .db 1", "#endif", "#undef " + s, "#ifdef " + s, " .db 2", "#endif"], b"\1", [], {}
    if k == 2:
        t = s[:-1] + "0"
        return [s + " = 1", t + " = 2", " nop", " .db 9"], b"\0\x09", [], {}
    if k == 3:
        return ["#macro %s()" % s, " .db 7", "#endmacro", " %s()" % s], b"\7", [], {}
    return [" .db 4 ;" + s, ";" + s, "#comment", s, "#endcomment"], b"\4", [], {}


def parens(r, n):
    k = r.randrange(3)
    e = "(" * n + "5" + ")" * n
    if k == 0:
        return [" .db 1+" + e], b"\6", [1], {}
    if k == 1:
        return ["#if 0+" + e, " .db 1", "#else", " .db 2", "#endif"], b"\1", [1], {}
    return ["x = 2*" + e, " .dw x"], w(10), [1], {}


def alias(r, n):
    order = list(range(n))
    if r.random() < .5:
        order.reverse()
    l = ["#define d%d d%d" % (i, i + 1) for i in order] + ["#define d%d 7" % n, " .db d0"]
    return l, b"\7", range(1, n + 3), {}


def alias_list(r, n):
    l = ["#define d%d d%d,%d" % (i, i + 1, i) for i in range(n)] + ["#define d%d 77" % n, " .db d0"]
    return l, bytes([77] + list(range(n - 1, -1, -1))), range(1, n + 3), {}


def params(r, n):
    a = ["p%d" % i for i in range(n)]
    r.shuffle(a)
    v = [r.randrange(256) for _ in a]
    use = r.sample(range(n), min(n, 4))
    if r.random() < .5:
        return ["#macro m(%s)" % ",".join(a)] + [" .db " + a[i] for i in use] + ["#endmacro", " m(%s)" % ",".join(map(str, v))], bytes(v[i] for i in use), [1], {}
    return ["#define f(%s) %s" % (", ".join(a), "+".join(a[i] for i in use)), " .dw f(%s)" % ",".join(map(str, v))], w(sum(v[i] for i in use)), [1], {}


def local(r, n):
    l, b, dist = [], b"", 0
    for i in range(n):
        l.append(r.choice(["_", "_:"]) if r.random() < .5 else "_ nop")
        if l[-1][-1] == "p":
            b += b"\0"
            dist += 1
        else:
            dist = 0
        if r.random() < .1 and l[-1][-1] == "p":
            l.append(" jr -_")
            b += b"\x18\xfd"
    bad = [i + 1 for i, x in enumerate(l) if x[0] == "_"]
    return l, b, bad[4096:4097], {}


def nest_macro(r, n):
    if r.random() < .5:
        return ["#macro m(k)", " .db k&255", "#if k>1", " m(k-1)", "#endif", "#endmacro", " m(%d)" % n], bytes(i & 255 for i in range(n, 0, -1)), [4], {}
    l = []
    bad = []
    for i in range(1, n + 1):
        l += ["#macro m%d()" % i, " .db %d" % (i & 255)] + ([" m%d()" % (i + 1)] if i < n else []) + ["#endmacro"]
    l += [" m1()"]
    return l, bytes(i & 255 for i in range(1, n + 1)), range(1, len(l) + 1), {}


def nest_include(r, n):
    f = {}
    for i in range(1, n + 1):
        f["f%d.inc" % i] = " .db %d\n" % (i & 255) + ('#include "f%d.inc"\n' % (i + 1) if i < n else "")
    return ['#include "f1.inc"'], bytes(i & 255 for i in range(1, n + 1)), [2], f


def nest_both(r, n):
    """macros and included files taken together"""
    f, l, b = {}, [], []
    k = r.randrange(1, max(2, n))
    for i in range(1, k + 1):
        f["g%d.inc" % i] = " .db 1\n" + ('#include "g%d.inc"\n' % (i + 1) if i < k else " m(%d)\n" % (n - k) if n > k else "")
    return ["#macro m(k)", " .db 2", "#if k>1", " m(k-1)", "#endif", "#endmacro", '#include "g1.inc"'], b"\1" * k + b"\2" * (n - k), [2, 4], f


def nest_call(r, n):
    return ["#define f(x) x", " .db %s5%s" % ("f(" * n, ")" * n)], b"\5", [1, 2], {}


def ifs(r, n):
    k = r.randrange(3)
    if k == 0:
        return ["#if 1"] * n + [" .db 1"] + ["#endif"] * n + [" .db 2"], b"\1\2", [], {}
    if k == 1:
        return ["#if 0"] + ["#if 1"] * n + [" .db 1"] + ["#endif"] * n + ["#else", " .db 3", "#endif"], b"\3", [], {}
    return ["#if 1", " .db 1"] + [x for i in range(n) for x in ("#elif 1", " .db 2")] + ["#else", " .db 3", "#endif"], b"\1", [], {}


def chain(r, n):
    if r.random() < .5:
        return ["e0 = 0"] + ["e%d = e%d+1" % (i, i - 1) for i in range(1, n)] + [" .dw e%d" % (n - 1)], w(n - 1), [], {}
    return ["#define v 0"] + ["#define v eval(v+1)"] * n + [" .dw v"], w(n), [], {}


def many(r, n):
    k = r.randrange(4)
    if k == 0:
        i = r.randrange(n)
        return ["l%d = %d" % (j, j * 3) for j in range(n)] + [" .dw l%d" % i], w(i * 3), [], {}
    if k == 1:
        i = r.randrange(n)
        return ["#define d%d %d" % (j, j * 5) for j in range(n)] + [" .dw d%d" % i], w(i * 5), [], {}
    if k == 2:
        i = r.randrange(n)
        return [x for j in range(n) for x in ("#macro m%d()" % j, " .dw %d" % j, "#endmacro")] + [" m%d()" % i], w(i), [], {}
    return ["l%d: .db 1" % j for j in range(n)] + [" .dw l%d-l0" % (n - 1)], b"\1" * n + w(n - 1), [], {}


def joined(r, n):
    k = r.randrange(3)
    if k == 0:
        return [" nop" + " \\ inc a" * (n - 1)], b"\0" + b"\x3c" * (n - 1), [], {}
    if k == 1:
        v = [r.randrange(256) for _ in range(n)]
        return [" .db " + ",".join(map(str, v))], bytes(v), [], {}
    return ["#define cell 1"] + [" .dw " + ", ".join(["cell"] * n)], w(1) * n, [], {}


def spaces(r, n):
    s = r.choice([" ", "\t"]) * n
    return [" .db" + s + "5;" + s, s + "nop" + s, s, "lab:" + s + "inc a", "#define x" + s + "9", " .db x"], b"\5\0\x3c\x09", [], {}


def defcont(r, n):
    return ["#define big .db 1"] + ["#defcont \\ .db %d" % (i & 255) for i in range(n)] + [" big"], b"\1" + bytes(i & 255 for i in range(n)), [], {}


def body(r, n):
    return ["#macro m(x)"] + [" .db x,%d" % (i & 255) for i in range(n)] + ["#endmacro", " m(9)"], bytes(x for i in range(n) for x in (9, i & 255)), [], {}


def calls(r, n):
    if r.random() < .5:
        return ["#macro m(x)", " .db x&255", "#endmacro"] + [" m(%d)" % i for i in range(n)], bytes(i & 255 for i in range(n)), [], {}
    return ['#include "h.inc"'] * n, b"\x21" * n, [], {"h.inc": " .db $21\n"}


def fill(r, n):
    v = r.randrange(256)
    return [" .fill %d,%d" % (n, v)], bytes([v]) * n, [1], {}


def imports(r, n):
    b = bytes(r.randrange(256) for _ in range(500)) * (n // 500 + 1)
    return ['#import "x.dat"'], b[:n], [1], {"x.dat": b[:n]}


# shape, limit (None: no limit), sizes tried beyond it, weight
SHAPES = [
    (expr_dw, 254, 40000, 8), (expr_call, 254, 3000, 2), (string2, 254, 40000, 4), (name_expr, 254, 5000, 3), (name_free, None, 60000, 4),
    (parens, 18, 110, 4), (alias, 18, 400, 3), (alias_list, 19, 200, 3), (params, 16, 60, 4), (local, 4096, 6000, 1),
    (nest_macro, 256, 700, 2), (nest_include, 256, 400, 2), (nest_both, 256, 500, 2), (nest_call, 63, 80, 2),
    (ifs, None, 4000, 3), (chain, None, 3000, 2), (many, None, 4000, 3), (joined, None, 8000, 3), (spaces, None, 50000, 2), (defcont, None, 1500, 2), (body, None, 5000, 2),
    (calls, None, 3000, 2), (fill, 8000000 - 16, 8000000 + 60000, 1), (imports, None, 300000, 1),
]
WEIGHTS = [s[3] for s in SHAPES]


def size(r, limit, top):
    if limit is None:
        return r.choice([1, 2, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 65536]) if r.random() < .3 else int(3 * (top / 3) ** r.random())
    k = r.random()
    if k < .35:
        return max(1, limit + r.randrange(-2, 1))
    if k < .6:
        return min(limit + r.choice([1, 1, 2, 3, 5]), top)
    if k < .8:
        return max(1, int(r.random() * limit))
    return min(limit + 1 + int((top - limit) * r.random() ** 3), top)


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    shape, limit, top, _ = r.choices(SHAPES, WEIGHTS)[0]
    n = size(r, limit, top)
    if limit is None:
        n = min(n, top)
    least = {"expr_dw": 1, "expr_call": 4, "string2": 3, "nest_both": 2, "name_expr": 2, "name_free": 3}.get(shape.__name__, 1)
    n = max(n, least)
    lines, out, bad, files = shape(r, n)
    over = limit is not None and n > limit
    if shape is fill:
        # the whole output counts
        pre = r.randrange(0, 9)
        over = n + pre > 8000000
        top_l, top_b = [" .db 1"] * pre, b"\1" * pre
        post_l, post_b = [], b""
    else:
        pre = r.choice([0, 0, 1, 3, 17])
        top_l, top_b = [r.choice([" .db 1", " .db 1 ; x"]) for _ in range(pre)], b"\1" * pre
        post_l, post_b = [" .db $aa,$bb"], b"\xaa\xbb"
    text = "\n".join(top_l + lines + post_l) + "\n"
    files = dict(files)
    files["t.asm"] = text
    args = ["-N", "t.asm", "t.bin"]
    if r.random() < .3 and shape is not fill:
        args.insert(1, r.choice(["-T", "-L", "-E", "-A", "-S"]))
        if "-E" in args:
            out = None if re.search(r"(?i)^ (ld|call)", "\n".join(lines)) else out
            if shape is local:
                out = None
    res = wk.run(files, args, timeout=40)
    if wk.crashed(res, files, args):
        return
    o.evals += 1
    m = messages(res)
    if "-E" in args and res.rc == 1 and "SW801" in m:
        # the value doesn't matter here
        m = re.sub(r".*(SW801|during invocation).*", "", m)
        res.rc = 0
    got = res.file("t.bin")
    o.count(shape.__name__ + ("_over" if over else ""))
    o.nontrivial((shape.__name__, n, res.rc))
    o.sample({"shape": shape.__name__, "size": n, "over": over, "status": res.rc})
    shown = {k: v[:3000] for k, v in files.items()} if sum(map(len, files.values())) > 400000 else files
    want = None if out is None else top_b + out + post_b
    if not over:
        if res.rc != 0 or re.search(r"(?i)error|warning", m) or (want is not None and got != want) or got is None:
            o.violation("within", "%s of size %d is within the limits: status %s, output of %s bytes (expected %s), differs at %s; messages:\n%s" % (
                shape.__name__, n, res.rc, got and len(got), want and len(want), next((i for i, (a, b) in enumerate(zip(got or b"", want or b"")) if a != b), None), m[-900:]), shown, args)
    else:
        at = {pre + b for b in bad} | (set(bad) if files.keys() - {"t.asm"} else set())
        where = {int(x) for x in re.findall(r"(?m)^[^\n:]+:(\d+): error", m)}
        if res.rc == 0 and got == want and not re.search(r"(?i)error|warning", m):
            o.count("beyond_but_exact")
        elif res.rc not in (2, 3) or not where & at:
            o.violation("beyond", "%s of size %d exceeds its limit: status %s, expected an error on line %s, messages:\n%s" % (
                shape.__name__, n, res.rc, sorted(at)[:9], m[-900:]), shown, args)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "names")


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program with a construct of some size, its bytes (within the limits) or its error's line and the status (beyond them) compared; distinct = distinct (construct, size, status)"
    ctx.assumptions = ["after an error the bytes are not judged"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(4000, 60000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(2000, 40000))])
    ctx.finish(minimum=2500, min_distinct=1000)
