"""C12: local labels '_' - references count from the statement they are in, backward
and forward, across macros, includes and conditionals."""
import random
from vlib import *
import expr


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    ez = rng.random() < .2
    org = rng.choice([0, 0x200, 0x4000, 0x9D95])
    W = 3 if ez else 2
    marks, refs, exp = [], [], []  # exp: list of bytes or closures
    st = {"pc": org, "n": 0, "inc": 0}
    files = {}
    macros = []
    n = rng.choice([5, 15, 50, 200, 200, 600, 1500])
    # long ones: no relative jumps, and enough labels in front for every reference back
    kinds = ["dw", "jp", "diff", "jr"] if n < 200 else ["dw", "jp", "diff"]
    out = [" .org %d" % org]

    def add(b, n=None):
        exp.append(b)
        st["pc"] += n if n is not None else len(b)

    def resolve(k, cur):
        """k<0: the k-th last so far; k>0: the k-th next"""
        i = cur + k if k < 0 else cur + k - 1
        return marks[i] if 0 <= i < len(marks) else None

    def reftext(k):
        if k < 0:
            return "-" * -k + "_"
        return "+" * k + "_" if k > 1 or rng.random() < .3 else "_"

    # ---- macros: own marks and references, assembled wherever they are called
    def make_macro(i):
        body = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.random()
            if k < .35:
                body.append(("mark", rng.choice(["_", "_:"])))
            elif k < .5:
                body.append(("fill", rng.randrange(6), rng.randrange(256)))
            elif k < .6 and macros:
                body.append(("call", rng.choice(macros)))
            else:
                kk = rng.choice([-1, -1, -2, 1, 1, 2, -3, 3])
                body.append(("ref", rng.choice(kinds), kk, reftext(kk)))
        return {"name": "lm%d" % i, "body": body}

    def text_of(b):
        if b[0] == "mark":
            return b[1]
        if b[0] == "fill":
            return " .fill %d,%d" % b[1:]
        if b[0] == "call":
            return " %s()" % b[1]["name"]
        return {"dw": " .dw %s", "jp": " jp nz,%s", "diff": " .dl %s-$", "jr": " jr z,%s"}[b[1]] % b[3]

    plan = []  # executed elements in order
    def run(b):
        if b[0] == "mark":
            marks.append(st["pc"])
        elif b[0] == "fill":
            add(bytes([b[2]]) * b[1])
        elif b[0] == "call":
            for x in b[1]["body"]:
                run(x)
        else:
            cur, pc, kind, k = len(marks), st["pc"], b[1], b[2]
            n = {"dw": 2, "jp": 1 + W, "diff": 3, "jr": 2}[kind]
            refs.append((kind, k, cur))

            def late(kind=kind, k=k, cur=cur, pc=pc):
                t = resolve(k, cur)
                if t is None:
                    return None
                if kind == "dw":
                    return (t & 0xFFFF).to_bytes(2, "little")
                if kind == "jp":
                    return b"\xc2" + (t & (1 << 8 * W) - 1).to_bytes(W, "little")
                if kind == "diff":
                    return ((t - pc) & 0xFFFFFF).to_bytes(3, "little")
                d = t - pc - 2
                return b"\x28" + bytes([d & 255]) if -128 <= d <= 127 else None
            add(late, n)

    for i in range(rng.randrange(0, 4)):
        m = make_macro(i)
        macros.append(m)
        out += ["#macro %s()" % m["name"], " ; body"] + [text_of(b) for b in m["body"]] + ["#endmacro"]
    stack = [out]
    if n >= 200:
        for _ in range(rng.choice([12, 12, 100, 126, 127, 254, 300])):
            out.append("_")
            run(("mark", "_"))
    for _ in range(n):
        cur = stack[-1]
        k = rng.random()
        if k < .3:
            s = rng.choice(["_", "_:", "_ nop", "_: nop", "_\tnop ; x"])
            cur.append(s)
            run(("mark", s))
            if "nop" in s:
                add(b"\0")
            o.count("marks")
        elif k < .4:
            b = ("fill", rng.choice([0, 1, 3, 20, 100]), rng.randrange(256))
            cur.append(text_of(b))
            run(b)
        elif k < .48 and macros:
            b = ("call", rng.choice(macros))
            cur.append(rng.choice([" %s", " %s()", "%s()"]) % b[1]["name"])
            run(b)
            o.count("macro calls")
        elif k < .54 and len(stack) < 4:
            st["inc"] += 1
            nm = "r%d.inc" % st["inc"]
            cur.append('#include "%s"' % nm)
            files[nm] = []
            stack.append(files[nm])
        elif k < .58 and len(stack) > 1:
            stack.pop()
        elif k < .63:
            cur += [rng.choice(["#if 0", "#ifdef nope"]), "_", " jr -_", "_ nop", "#endif"]
        elif k < .68 and marks:
            t = marks[-1]
            cur += ["#define dist eval($ - -_)", " .dw dist"]
            add(((st["pc"] - t) & 0xFFFF).to_bytes(2, "little"))
        elif k < .72 and marks:
            t = marks[-1]
            st["n"] += 1
            cur += ["Gl%d %s -_+1" % (st["n"], rng.choice([".equ", "="])), " .dw Gl%d" % st["n"]]
            add(((t + 1) & 0xFFFF).to_bytes(2, "little"))
        elif k < .76:
            # several references in one statement
            c, pc = len(marks), st["pc"]
            ks = [rng.choice([-1, 1, -2, 2]) for _ in range(3)]
            cur.append(" .dw " + ",".join(reftext(x) for x in ks))

            def late3(ks=ks, c=c):
                v = [resolve(x, c) for x in ks]
                return None if None in v else b"".join((x & 0xFFFF).to_bytes(2, "little") for x in v)
            add(late3, 6)
        else:
            kk = rng.choice([-1, -1, -1, -2, -3, 1, 1, 1, 2, 3, -rng.randrange(1, 12), rng.randrange(1, 12)])
            b = ("ref", rng.choice(kinds), kk, reftext(kk))
            cur.append(text_of(b))
            run(b)
    # make every forward reference resolvable: marks at the end
    del stack[1:]
    for _ in range(14):
        out.append("_")
        run(("mark", "_"))
    # anything unresolvable (backward before the first, or too far for jr): try again without
    res = []
    for b in exp:
        v = b() if callable(b) else b
        if v is None:
            return "retry"
        res.append(v)
    want = b"".join(res)
    fs = {"r.asm": "\n".join(out) + "\n"}
    for k2, l in files.items():
        fs[k2] = "\n".join(l) + "\n"
    av = ["-N"] + (["-E"] if ez else []) + ["r.asm", "r.bin"]
    r = wk.run(fs, av)
    o.evals += 1
    o.count("more than 128 labels", len(marks) > 128)
    o.count("more than 255 labels", len(marks) > 255)
    o.count("forward", sum(1 for x in refs if x[1] > 0))
    o.count("backward", sum(1 for x in refs if x[1] < 0))
    o.nontrivial((tuple(refs), tuple(marks)))
    o.sample({"source": fs["r.asm"][-400:]})
    if wk.crashed(r, fs, av):
        return
    g = r.file("r.bin")
    if r.rc != 0 or g != want:
        o.violation("local-labels", "exit %s, got %s, expected %s\n%s" % (r.rc, g and g.hex()[:500], want.hex()[:500], r.out[-500:]), fs, av)


def one(item, wk):
    for t in range(40):
        if case("%s/%d" % (item, t), wk) != "retry":
            return


def check(ctx):
    ctx.rule = "one evaluation = one program whose output was compared with independently resolved local labels; distinct = distinct (references, label positions)"
    ctx.build("san")
    ctx.pmap(one, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(5000, 50000))])
    ctx.finish(minimum=300, min_distinct=200)
