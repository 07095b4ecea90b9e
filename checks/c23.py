"""C23: options are shorthand - -D for a #define line, -V for a file, the output name for
the input's, their order for nothing."""
import random
import re
from c01 import donated
from c19 import messages, outputs
from vlib import *


def wkrun(wk, files, args, n=15):
    r = wk.run(files, args, timeout=n)
    if wk.crashed(r, files, args):
        return None
    return r


def norm(r, frm=None, to=None, shift=0, name=None):
    m = messages(r)
    if name and shift:
        m = re.sub(r"(?m)^%s:(\d+):" % re.escape(name), lambda x: "%s:%d:" % (name, int(x.group(1)) - shift), m)
    if frm:
        m = m.replace(frm, to)
    return m


VALUES = ["5", "0", "255", "$1F", "%101", "'x'", "1+2", "(3*4)", "2*(1+1)", "W0+1", "lab", "lab+3", "later", "$", "-1", "~5&15", "1<<3", "\"str\"", "\"a, b\",7", "hl", "(ix+5)", "a", "nz", "nosuch", "1/0", "3 4", "@", "", " 9", "9 "]


def defs_case(r, wk):
    """-D against #define"""
    o = wk.obs
    names = ["W%d" % i for i in range(r.randrange(1, 5))]
    if r.random() < .3:
        names += r.sample(["w", "K", "x", "Q", "Z0", "_k", "v"], 2)
    if r.random() < .3:
        names += [r.choice(["Data.Len", "_x", "x_y", "lowercase", "q[1]", "__option", "DEBUG"])]
    good = r.random() < .5
    pool = VALUES[:14] if good else VALUES
    ds = [(n, r.choice(pool) if r.random() < .9 else None) for n in names]
    if r.random() < .15:
        ds.append((r.choice(names), r.choice(VALUES[:12])))       # said twice
    ds = [(n, v) for n, v in ds if not (n == "W0" and v == "W0+1")]
    body = [" .org $%x" % r.choice([0, 0x4000])]
    for _ in range(r.randrange(2, 12)):
        n = r.choice(names + ([] if good else ["Other"]))
        if r.random() < .3:
            n = n.swapcase()
        body += r.choice([[" .db %s" % n], [" .dw %s+1" % n], [" ld a,%s" % n], [" ld hl,%s" % n], ["#ifdef %s" % n, " .db 1", "#else", " .db 2", "#endif"],
                          ["#if %s" % n, " .db 3", "#endif"], ["#ifndef %s" % n, " .db 4", "#endif"], [" .db %s,%s" % (n, r.choice(names))],
                          ["#undef %s" % (n if not good else "None%d" % len(body))], ["#define %s %d" % (n, r.randrange(99))], ["#define Q%d %s" % (len(body), n), " .db Q%d" % len(body)],
                          ["#macro M%d(p)" % len(body), " .db p,%s" % n, "#endmacro", " M%d(%s)" % (len(body), r.choice(names))], [" .echo %s" % n], [" .fill %s&7" % n],
                          ["#define F%d(x) x+%s" % (len(body), n), " .dw F%d(2)" % len(body)], [" jp %s" % n], [" ld (ix+%s&63),b" % n]])
    body.insert(r.randrange(1, len(body) + 1) if not any("#" in b for b in body) else len(body), "lab: nop")
    body.append("later = 77")
    opts = [x for x in ("-E", "-L", "-S", "-A") if r.random() < .15]
    parts = []
    for n, v in ds:
        s = n if v is None else n + "=" + v
        parts.append(["-D", s] if r.random() < .4 else ["-D" + s])
    src, dst = r.choice([("t.asm", "t.bin"), ("t.asm", "out.8xp"), ("t.z80", "x.hex")])
    order = [[x] for x in opts]
    for p in order:
        parts.insert(r.randrange(len(parts) + 1), p)
    i = r.randrange(len(parts) + 1)
    j = r.randrange(i, len(parts) + 1)
    args = sum(parts[:i], []) + [src] + sum(parts[i:j], []) + [dst] + sum(parts[j:], [])
    f1 = {src: "\n".join(body) + "\n"}
    a = wkrun(wk, f1, args)
    if a is None:
        return
    am, ao = norm(a), outputs(a, {k: v.encode() for k, v in f1.items()})
    head = ["#define %s %s" % (n, v if v is not None and v.strip() else "1") for n, v in ds]
    f2 = {src: "\n".join(head + body) + "\n"}
    b = wkrun(wk, f2, opts + [src, dst])
    if b is None:
        return
    bm, bo = norm(b, shift=len(head), name=src), outputs(b, {k: v.encode() for k, v in f2.items()})
    # (white space before a value is kept in texts quoted in messages)
    am, bm = (re.sub(r"'[ \t]+", "'", m) for m in (am, bm))
    # (a fault found in a value itself is reported where the value is: on the command line)
    am, bm = (re.sub(r"(?m)^(?:Commandline:-?\d+|%s:(?:0|-\d+)):" % re.escape(src), "@:", m) for m in (am, bm))
    o.evals += 1
    o.count("define_%d" % a.rc)
    o.nontrivial((tuple(ao.values()), am))
    o.sample({"args": args, "text": f1[src][:200], "status": a.rc})
    if a.rc != b.rc or am != bm or ao != bo:
        o.violation("define", "with -D: status %s\n%s\nwith #define lines: status %s\n%s\noutputs equal: %s" % (a.rc, am[-900:], b.rc, bm[-900:], ao == bo), f1, args, extra=f2[src])


def line_case(r, wk):
    """-V against a file with that line"""
    o = wk.obs
    for _ in range(20):
        g = donated(r, wk)
        if g is None:
            return
        name, files, args = g
        if len(files) == 1 and all(isinstance(v, str) for v in files.values()) and "-V" not in args:
            break
    else:
        return
    src = list(files)[0]
    t = files[src]
    if r.random() < .7:
        ls = [l for l in t.split("\n") if l.strip() and "#" not in l]
        if not ls:
            return
        i = r.randrange(len(ls))
        t = "\n".join(ls[i:i + r.choice([1, 1, 1, 2, 5])])
    if "\0" in t or "\r" in t or len(t) > 60000 or "\\#" in t or re.search(r"(?i)__FILE", t) or not t:
        return
    opts = [a for a in args if a in ("-E", "-A", "-L", "-T", "-S")]
    files = {src: t}
    form = ["-V", t] if t.startswith("-") or r.random() < .5 else ["-V" + t]
    k = r.randrange(len(opts) + 1)
    args = opts[:k] + form + opts[k:]
    a = wkrun(wk, {}, args)
    if a is None:
        return
    am, ao = norm(a), {p.replace("-v.", "t."): v for p, v in outputs(a, {}).items()}
    f2 = {"t": t + "\n"}
    b = wkrun(wk, f2, opts + ["t"])
    if b is None:
        return
    bm = re.sub(r"(?m)(^|')t:(\d+):", r"\1-v:\2:", norm(b))
    bo = outputs(b, {"t": (t + "\n").encode("latin1")})
    o.evals += 1
    o.count("line_%d" % a.rc)
    o.nontrivial((tuple(ao.values()), am))
    lst = lambda x: {p: (v.replace(b"'-v'", b"'t'").replace(b"-v", b"t") if p.endswith(".lst") else v) for p, v in x.items()}
    if a.rc != b.rc or am != bm or lst(ao) != lst(bo):
        d = [p for p in set(ao) | set(bo) if lst(ao).get(p) != lst(bo).get(p)]
        o.violation("line", "with -V: status %s\n%s\nas a file: status %s\n%s\nfiles that differ: %s" % (a.rc, am[-900:], b.rc, bm[-900:], d), {}, args, extra=t)


def order_case(r, wk):
    """the same arguments in another order, or with the default output name"""
    o = wk.obs
    g = donated(r, wk)
    if g is None:
        return
    name, files, args = g
    if any(a.startswith("-V") for a in args) or any("\\#" in v for v in files.values() if isinstance(v, str)):
        return
    toks, i = [], 0
    while i < len(args):
        if args[i] in ("-I", "-D") and i + 1 < len(args):
            toks.append([args[i], args[i + 1]])
            i += 2
        else:
            toks.append([args[i]])
            i += 1
    for x in ("-L", "-T", "-S", "-A"):
        if r.random() < .3 and [x] not in toks:
            toks.append([x])
    names = [t for t in toks if not t[0].startswith("-")]
    if not 1 <= len(names) <= 2:
        return
    base = sum(toks, [])
    a = wkrun(wk, files, base)
    if a is None:
        return
    before = {k: v if isinstance(v, bytes) else v.encode("latin1") for k, v in files.items()}
    am, ao = norm(a), outputs(a, before)
    default = False
    if len(names) == 2:
        src, dst = names[0][0], names[1][0]
        stem = re.sub(r"\.[^./]*$", "", src)
        default = dst == stem + ".bin"
    other = [t for t in toks if t[0].startswith("-")]
    order = [t for t in other if t[0][:2] in ("-I", "-D")]        # these keep their order
    for t in other:
        if t[0][:2] not in ("-I", "-D"):
            order.insert(r.randrange(len(order) + 1), t)
    pos = 0
    for n in names[:1] if default and r.random() < .8 else names:
        pos = r.randrange(pos, len(order) + 1)
        order.insert(pos, n)
        pos += 1
    form = []
    for t in order:
        if t[0] in ("-I", "-D") and len(t) == 2 and r.random() < .5 and t[1]:
            t = [t[0] + t[1]]
        elif t[0][:2] in ("-I", "-D") and len(t) == 1 and len(t[0]) > 2 and r.random() < .5:
            t = [t[0][:2], t[0][2:]]
        form += t
    b = wkrun(wk, files, form)
    if b is None:
        return
    bm, bo = norm(b), outputs(b, before)
    o.evals += 1
    o.count("order_%d" % a.rc)
    o.nontrivial((tuple(ao.values()), am, "order"))
    if a.rc != b.rc or am != bm or ao != bo:
        d = [p for p in set(ao) | set(bo) if ao.get(p) != bo.get(p)]
        o.violation("order", "%s: status %s\n%s\n%s: status %s\n%s\nfiles that differ: %s" % (base, a.rc, am[-700:], form, b.rc, bm[-700:], d), files, form)
    # -O assembles without writing
    if r.random() < .3:
        c = wkrun(wk, files, ["-O"] + [x for x in form if x not in ("-T", "-L")])
        if c is None:
            return
        co = outputs(c, before)
        o.count("no_output")
        outs = {p for p in ao if not p.endswith((".lst", ".lab"))}
        dst = names[1][0] if len(names) == 2 else re.sub(r"\.[^./]*$", "", names[0][0]) + ".bin"
        if dst in co:
            o.violation("no-output", "-O wrote %s" % sorted(co), files, form)


def case(item, wk):
    r = random.Random(item)
    k = r.random()
    (defs_case if k < .45 else line_case if k < .7 else order_case)(r, wk)


NAMES = [("t.asm", "t.bin"), ("t", "t.bin"), ("a.b.asm", "a.b.bin"), ("sub/t.asm", "sub/t.bin"), ("su.b/t", "su.b/t.bin"), ("su.b/x.y", "su.b/x.bin"), ("./t.asm", "t.bin"), ("t.", "t.bin"),
         ("UPPER.ASM", "UPPER.bin"), ("with space.asm", "with space.bin"), ("t.8xp", "t.bin"), ("l" * 60 + ".z80", "l" * 60 + ".bin")]


def default_name(i, wk):
    src, dst = NAMES[i]
    f = {src: " .db 1,2,%d\n" % i}
    r = wkrun(wk, f, ["-N", src])
    if r is None:
        return
    got = outputs(r, {os.path.normpath(src): f[src].encode()})
    wk.obs.evals += 1
    if got != {dst: bytes([1, 2, i])} or r.rc != 0:
        wk.obs.violation("default-name:%d" % i, "%s gives %s (status %s), expected %s" % (src, sorted(got), r.rc, dst), f, ["-N", src])


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program assembled with options and with their equivalent, all outputs, messages and the status compared; distinct = distinct (outputs, messages)"
    ctx.assumptions = ["values with ';' or a backslash are not given to -D"]
    ctx.pmap(default_name, range(len(NAMES)))
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(12000, 100000))])
    ctx.finish(minimum=2000, min_distinct=800)
