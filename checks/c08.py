"""C08: a macro call has the effect of the macro's body with its parameters bound
to the arguments - nested, recursive, with shadowing and forward references."""
import random
from vlib import *
import meta
import expr

POOL = ["x", "y", "n", "val", "a1", "Arg", "b_", "HLx", "q9", "cnt"]


class Env:
    def __init__(self, d, up=None):
        self.d, self.up = d, up

    def get(self, k):
        e = self
        while e is not None:
            if k in e.d:
                v = e.d[k]
                return v(k) if callable(v) else v
            e = e.up
        raise KeyError(k)

    __getitem__ = get


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    gb = {n: expr.w(rng.choice(expr.INTERESTING) if rng.random() < .5 else rng.randrange(70000)) for n in rng.sample(POOL[:5] + ["Ga", "gB", "G_3"], 4)}
    gf = {n: rng.randrange(60000) for n in ("fw1", "Fw2")}
    glob = {k.upper(): v for k, v in list(gb.items()) + list(gf.items())}
    macros = []

    # forward references may be passed in unless the macro (or one it calls) needs the value at once
    def early(m):
        return bool(m["rec"]) or any(s[0] == "if" or (s[0] == "call" and early(s[1])) for s in m["body"])

    for i in range(rng.randrange(1, 6)):
        params = rng.sample(POOL, rng.choice([0, 1, 1, 2, 2, 3, 4]))
        sparam = params and rng.random() < .25 and params[-1] or None  # parameter used as a string
        vals = [p for p in params if p != sparam]
        name = rng.choice(["mac", "Put", "do_it", "M", "emit.b", "ldx"]) + str(i)
        body = []
        allp = {q.upper() for m in macros for q in m["params"]} | {q.upper() for q in params}

        def ex(early=False, small=False):
            # names that are not parameters here may be parameters of a caller: only use ones that never are
            g = [k for k in gb if k.upper() not in {a.upper() for a in POOL}] + ([] if early else list(gf))
            t = expr.simple(rng, [rng.choice([p, p, p.upper()]) for p in vals] * 2 + g)
            return t
        nb = rng.randrange(1, 6)
        for _ in range(nb):
            k = rng.random()
            if k < .3:
                body.append(("db", [ex() for _ in range(rng.randrange(1, 4))]))
            elif k < .5:
                body.append(("dw", [ex()]))
            elif k < .6:
                body.append(("lda", ex()))
            elif k < .7:
                body.append(("ldhl", ex()))
            elif k < .78 and sparam:
                body.append(("str", sparam))
            elif k < .86 and vals:
                body.append(("if", expr.simple(rng, vals), ex(), ex()))
            elif macros:
                m = rng.choice(macros)
                body.append(("call", m, [rng.choice(['"in,n(er"', '"z"']) if p == m["sparam"] else ex(early(m)) for p in m["params"]]))
            else:
                body.append(("nop",))
        rec = None
        if vals and rng.random() < .3 and i < 4:
            rec = vals[0]
        macros.append({"name": name, "params": params, "sparam": sparam, "body": body, "rec": rec})
    def render(m):
        out = ["#macro %s%s" % (m["name"], "(" + rng.choice([",", ", "]).join(m["params"]) + ")" if m["params"] or rng.random() < .5 else "")]
        for s in m["body"]:
            if s[0] == "db":
                out.append(" .db " + ",".join("(%s)&255" % e for e in s[1]))
            elif s[0] == "dw":
                out.append(" .dw %s" % ",".join("(%s)&$FFFF" % e for e in s[1]))
            elif s[0] == "lda":
                out.append(" ld a,%s&255" % s[1])
            elif s[0] == "ldhl":
                out.append("\tld hl,%s&65535 ; %s" % (s[1], rng.choice(["", "note", "x"])))
            elif s[0] == "str":
                out.append(" .db %s,0" % s[1])
            elif s[0] == "if":
                out += ["#if " + s[1], " .db (%s)&$FF" % s[2], "#else", " .dw (%s)&$FFFF" % s[3], "#endif"]
            elif s[0] == "call":
                out.append(" " + callname(s[1]) + "(" + ",".join(s[2]) + ")")
            else:
                out.append(" nop")
        if m["rec"]:
            r = m["rec"]
            args = ["(%s-1)&7" % r if p == r else (p if p == m["sparam"] else "%s+1" % p) for p in m["params"]]
            out += ["#if (%s&7)>0" % r, " %s(%s)" % (callname(m), ",".join(args)), "#endif"]
        out.append("#endmacro")
        return out

    def callname(m):
        return rng.choice([m["name"], m["name"], m["name"].upper(), m["name"].lower()])

    def run(m, args, env, depth=0):
        """args: evaluated (ints / bytes for strings)"""
        if depth > 60:
            raise RecursionError
        e = Env({p.upper(): a for p, a in zip(m["params"], args)}, env)
        b = b""
        ev = lambda t: expr.evaluate(t, e)
        for s in m["body"]:
            if s[0] == "db":
                for t in s[1]:
                    b += bytes([ev(t) & 255])
            elif s[0] == "dw":
                for t in s[1]:
                    b += (ev(t) & 0xFFFF).to_bytes(2, "little")
            elif s[0] == "lda":
                b += b"\x3e" + bytes([expr.apply("&", ev(s[1]), 255)])
            elif s[0] == "ldhl":
                b += b"\x21" + expr.apply("&", ev(s[1]), 65535).to_bytes(2, "little")
            elif s[0] == "str":
                b += e[s[1].upper()] + b"\0"
            elif s[0] == "if":
                b += bytes([ev(s[2]) & 255]) if ev(s[1]) else (ev(s[3]) & 0xFFFF).to_bytes(2, "little")
            elif s[0] == "call":
                b += run(s[1], [t[1:-1].encode() if t[0] == '"' else ev(t) for t in s[2]], e, depth + 1)
            else:
                b += b"\0"
            if len(b) > 20000:
                raise RecursionError
        if m["rec"] and (e[m["rec"].upper()] & 7) > 0:
            a = [e[p.upper()] if p == m["sparam"] else ((expr.w(e[p.upper()] - 1) & 7) if p == m["rec"] else expr.w(e[p.upper()] + 1)) for p in m["params"]]
            b += run(m, a, e, depth + 1)
        return b
    genv = Env(glob)
    head = ["%s .equ %d" % kv for kv in gb.items()]
    for m in macros:
        head += render(m)
    calls = []
    for _ in range(rng.randrange(1, 12)):
        m = rng.choice(macros)
        names = list(gb) + ([] if early(m) else list(gf))
        args = []
        for p in m["params"]:
            if p == m["sparam"]:
                args.append(rng.choice(['"str"', '"a,b"', '"p(q"', '"s p;c"', '"x"', '"y+1"', '""']))
            else:
                args.append(expr.simple(rng, names))
        try:
            b = run(m, [t[1:-1].encode() if t[0] == '"' else expr.evaluate(t, genv) for t in args], genv)
        except RecursionError:
            continue
        sp = rng.choice(["", "", " "])
        text = callname(m) + "(" + (sp + "," + sp).join(args) + ")"
        if not args and rng.random() < .4:
            text = callname(m)
        lead = rng.choice([" ", " ", "\t", "", "lb%d: " % len(calls)])
        if lead == "" and "(" not in text:
            lead = " "
        calls.append((lead + text + rng.choice(["", "", " ; c", "\\ nop"]), b, m))
        if calls[-1][0].endswith("\\ nop"):
            calls[-1] = (calls[-1][0], b + b"\0", m)
        if rng.random() < .3 and gb:  # the global meaning of a name is back after the call
            g = rng.choice(sorted(gb))
            calls.append((" .dw %s&$FFFF" % g, (glob[g.upper()] & 0xFFFF).to_bytes(2, "little"), None))
    if not calls:
        return
    tail = ["%s .equ %d" % kv for kv in gf.items()]
    o.evals += len(calls)
    for c in calls:
        o.nontrivial((c[0], c[1]))
        if c[2]:
            o.count("calls")
            if c[2]["rec"]:
                o.count("recursive")
            if any(s[0] == "call" for s in c[2]["body"]):
                o.count("nested")
            if c[2]["sparam"]:
                o.count("string arguments")
    o.sample({"call": calls[0][0], "bytes": calls[0][1].hex()[:60]})

    def attempt(sel):
        files = {"m.asm": "\n".join(head + [c[0] for c in sel] + tail) + "\n"}
        av = ["-N", "m.asm", "m.bin"]
        r = wk.run(files, av)
        exp = b"".join(c[1] for c in sel)
        if r.sanitizer or r.timed_out:
            return files, av, r, "crash"
        if r.rc != 0 or r.file("m.bin") != exp:
            g = r.file("m.bin")
            return files, av, r, "exit %s, got %s, expected %s\n%s" % (r.rc, g and g.hex()[:400], exp.hex()[:400], r.out[-700:])
        return files, av, r, None
    f, av, r, bad = attempt(calls)
    if bad:
        for c in calls:
            f1, av1, r1, b1 = attempt([c])
            if b1:
                f, av, r, bad = f1, av1, r1, "%r: %s" % (c[0], b1)
                break
        if r.sanitizer or r.timed_out:
            wk.crashed(r, f, av)
        else:
            o.violation("expansion", bad, f, av)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "macro")


def check(ctx):
    ctx.rule = "one evaluation = one macro call whose emitted bytes were compared with the model's substitution; distinct = distinct (call text, bytes)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(15000, 120000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(5000, 40000))])
    ctx.finish(minimum=500, min_distinct=200)
