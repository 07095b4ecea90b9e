"""C09: #define, #undef, redefinition, eval(), concat(), #defcont and #ifdef,
against an interpreter that keeps the table of defines."""
import random
from vlib import *
import meta
import expr

NUM = ["N", "N1", "N10", "Nn", "cnt", "Count", "a_b", "size.x", "_m", "hlx", "Q2", "Very_Long_Define_Name_For_Something", "z"]
FUN = ["F", "F2", "fn_a", "MAX", "lo_byte", "Sum3"]
STR = ["S", "s2", "Text", "msg_1"]
STM = ["st", "Push2", "do_nop", "EmitX"]
PAR = ["x", "y", "pq", "V_1"]
OPS1 = [("nop", b"\0"), ("inc a", b"\x3c"), ("push hl", b"\xe5"), ("ld b,c", b"\x41"), (".db 7", b"\7"), ("ldir", b"\xed\xb0"), ("ex de,hl", b"\xeb")]


class Undefined(Exception):
    pass


class Table:
    """What the defines mean at one point of the program."""

    def __init__(self, labels):
        self.d = {}
        self.labels = labels
        self.depth = 0

    def __getitem__(self, k):
        if k in self.labels:
            return self.labels[k]
        if k not in self.d or self.d[k][0] != "num":
            raise Undefined(k)
        self.depth += 1
        try:
            if self.depth > 8:
                raise Undefined("deep")
            return expr.evaluate(self.d[k][1], self)
        finally:
            self.depth -= 1

    def call(self, k, args):
        if k not in self.d or self.d[k][0] != "fun" or len(self.d[k][1]) != len(args):
            raise Undefined(k)
        self.depth += 1
        try:
            if self.depth > 8:
                raise Undefined("deep")
            return expr.evaluate(self.d[k][2], Sub(self, dict(zip([p.upper() for p in self.d[k][1]], args))))
        finally:
            self.depth -= 1


class Sub:
    def __init__(self, up, a):
        self.up, self.a = up, a

    def __getitem__(self, k):
        return self.a[k] if k in self.a else self.up[k]

    def call(self, k, args):
        return self.up.call(k, args)


def one_term(t):
    if not t.startswith("("):
        return t.isalnum()
    d = 0
    for i, c in enumerate(t):
        d += (c == "(") - (c == ")")
        if d == 0:
            return i == len(t) - 1


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    early = {"LBASE": 0x4000, "L8": 200, "LNEG": rng.choice([-1, -5, -300, -70000, -2**31 + 1]), "LBIG": rng.choice([0xFFFFFF, 0x1000000, 0x12345678, 2**31 - 1, 99999])}
    late = {"LFWD": 0x1234, "Lf2": 77, "LNF": rng.choice([-2, -129, -40000])}
    labels = {k.upper(): v for k, v in list(early.items()) + list(late.items())}
    T = Table(labels)
    out, exp, marks = [], b"", []
    for k, v in early.items():
        out.append("%s .equ %s" % (k, v if v >= 0 else "0-%d" % -v))
    nums, funs, strs, stms = (rng.sample(p, rng.randrange(1, len(p) + 1)) for p in (NUM, FUN, STR, STM))
    extra = 0

    def case_of(n):
        return rng.choice([n, n, n.upper(), n.lower(), n.swapcase()])

    def defined(kind, pool):
        return [n for n in pool if T.d.get(n.upper(), (None,))[0] == kind]

    def ex(params=(), lates=True, m=None):
        """expression text over what is defined now"""
        ns = [case_of(n) for n in defined("num", nums)] + list(params) * 2 + list(early) + (list(late) if lates else [])
        t = expr.simple(rng, ns, 1, m)
        fs = defined("fun", funs)
        if fs and rng.random() < .35:
            f = rng.choice(fs)
            a = [expr.simple(rng, ns, 1, rng.choice([1, 1, 2])) for _ in T.d[f.upper()][1]]
            c = case_of(f) + "(" + rng.choice([",", ", "]).join(a) + ")"
            t = rng.choice([c, c + "+" + t, t + "-" + c, c + "*3", "(%s)^%s" % (t, c)])
        return t

    def value(t, sub=None):
        try:
            return expr.evaluate(t, sub or T)
        except (Undefined, expr.EvalError):
            return None

    def early_only(t):  # does its value depend on a label that is defined at the end?
        lb = dict(T.labels)
        try:
            for k in late:
                T.labels.pop(k.upper())
            return value(t) is not None
        finally:
            T.labels.clear()
            T.labels.update(lb)
    n = rng.choice([6, 15, 40, 120])
    ifs = []  # (emitting?)
    pre = lambda: rng.choice(["#", "#", "#"])
    def emit(b, what):
        nonlocal exp
        if all(i[0] for i in ifs):
            exp += b
            o.evals += 1
            o.nontrivial((what, b, len(T.d)))
        o.count(what.split()[0])
    for step in range(n):
        k = rng.random()
        live = all(i[0] for i in ifs)
        sp = rng.choice(["", "", "  ", "\t"])
        cm = rng.choice(["", "", "", " ; note", " ;c"])
        if k < .22:  # numeric define
            nm = rng.choice(nums)
            kind = rng.random()
            if kind < .5:
                t = ex(m=rng.choice([1, 1, 2, 3]))
                if value(t) is None or nm.upper() in [w.upper() for w in __import__("re").findall(r"[A-Za-z_.0-9]+", t)]:
                    continue
                out.append("%s#define %s %s%s" % (sp, case_of(nm), t, cm))
                new = ("num", t)
            elif kind < .85:
                if nm in defined("num", nums) and rng.random() < .7:
                    t = nm + rng.choice(["+1", "*2", "-3", "^5"])
                else:
                    t = ex(lates=False)
                v = value(t)
                if v is None or not early_only(t):
                    continue
                out.append("#define %s %s(%s)%s" % (case_of(nm), case_of("eval"), t, cm))
                new = ("num", "(%d)" % v)
            else:
                out.append("#define %s%s" % (case_of(nm), cm))
                new = ("num", "1")
            if live and kind < .5 and rng.random() < .3:  # in terms of its own value, if that is one term
                old = T.d.get(nm.upper(), ("",))
                if old[0] == "num" and one_term(old[1]):
                    t = nm + rng.choice(["+1", "*2", " - 3", "^5", "*%s" % nm, " & (%s+1)" % nm])
                    nt = __import__("re").sub(r"(?<![\w.$])%s(?![\w.])" % __import__("re").escape(nm), lambda _: old[1], t)
                    if value(nt) is not None and len(nt) < 100:
                        out[-1] = "%s#define %s %s%s" % (sp, case_of(nm), t, cm)
                        new = ("num", nt)
                        o.count("in terms of itself")
            if live:
                old = T.d.get(nm.upper())
                T.d[nm.upper()] = new
                if value(nm) is None and True:  # made a cycle: take it back
                    out.pop()
                    if old is None:
                        del T.d[nm.upper()]
                    else:
                        T.d[nm.upper()] = old
                else:
                    o.count("redefinitions" if old else "definitions")
        elif k < .32:  # function-like define
            nm = rng.choice(funs)
            ps = rng.sample(PAR, rng.randrange(1, 4))
            t = ex(ps)
            if nm.upper() in t.upper() or not live:
                continue
            out.append("%s#define %s(%s) %s%s" % (sp, case_of(nm), rng.choice([",", ", "]).join(ps), t, cm))
            T.d[nm.upper()] = ("fun", ps, t)
            o.count("function definitions")
        elif k < .38:  # strings and lists
            nm = rng.choice(strs)
            if rng.random() < .5:
                s = rng.choice(["hi", "a b", "x;y", "(", "1,2", "Q" * 20, "#no"])
                out.append('#define %s "%s"' % (case_of(nm), s))
                if live:
                    T.d[nm.upper()] = ("str", s.encode(), s)
            else:
                ss = defined("str", strs)
                parts, b = [], b""
                for _ in range(rng.randrange(1, 4)):
                    if ss and rng.random() < .6:
                        s = rng.choice(ss)
                        if T.d[s.upper()][2] is None:
                            continue
                        parts.append(case_of(s))
                        b += T.d[s.upper()][1]
                    elif rng.random() < .5:
                        t = rng.choice(["%d+%d", "%d-%d", "%d*%d", "0-%d-%d", "LNEG", "LNEG*2-%d", "LBIG", "LBIG-%d", "L8-LBIG", "%d", "$%X+%d", "(%d)"])
                        t %= tuple(rng.choice([0, 1, 9, 10, 200, 70000, rng.randrange(300)]) for _ in range(t.count("%")))
                        if rng.random() < .3:
                            t = ex(lates=False, m=1)
                        v = value(t)
                        if v is None or not early_only(t) or not t[0].isalnum() and t[0] not in "($":
                            continue
                        if t.upper() in map(str.upper, nums) or any(p in t.upper() for p in map(str.upper, strs + stms + funs)):
                            continue
                        parts.append(t)
                        b += b"%d" % v
                        o.count("concat of a value")
                    else:
                        parts.append('"k-l"')
                        b += b"k-l"
                if not parts:
                    continue
                if len(b) > 80:
                    continue
                out.append('#define %s %s("\\"",%s,"\\"")' % (case_of(nm), case_of("concat"), rng.choice([",", ", "]).join(parts)))
                if live:
                    T.d[nm.upper()] = ("str", b, b.decode())
                    o.count("concat")
        elif k < .44:  # statements
            nm = rng.choice(stms)
            p = [rng.choice(OPS1) for _ in range(rng.randrange(1, 4))]
            if nm in defined("stm", stms) and rng.random() < .5 and live and out and last_stm == nm:
                out.append("#defcont \\ " + "\\ ".join(a for a, _ in p))
                T.d[nm.upper()] = ("stm", T.d[nm.upper()][1] + b"".join(b for _, b in p))
                o.count("defcont")
            else:
                out.append("#define %s %s" % (case_of(nm), rng.choice(["\\ ", " \\ "]).join(a for a, _ in p)))
                if live:
                    T.d[nm.upper()] = ("stm", b"".join(b for _, b in p))
            last_stm = nm
            continue
        elif k < .50:
            nm = rng.choice(nums + funs + strs + stms)
            out.append("#%s %s%s" % (rng.choice(["undef", "undefine", "UNDEF"]), case_of(nm), cm))
            if live:
                T.d.pop(nm.upper(), None)
        elif k < .58:
            nm = rng.choice(nums + funs + strs + stms)
            neg = rng.random() < .5
            out.append("#%s %s%s" % ("ifndef" if neg else "ifdef", case_of(nm), cm))
            ifs.append([(nm.upper() in T.d) != neg, False])
            o.count("ifdef")
        elif k < .66 and ifs:
            if not ifs[-1][1] and rng.random() < .5:
                out.append("#else" + cm)
                ifs[-1] = [not ifs[-1][0], True]
            else:
                out.append("#endif" + cm)
                ifs.pop()
        elif k < .72:
            ss = defined("str", strs)
            if ss and live:
                s = rng.choice(ss)
                out.append(" .db %s,0%s" % (case_of(s), cm))
                emit(T.d[s.upper()][1] + b"\0", "string use")
        elif k < .78:
            ss = defined("stm", stms)
            if ss and live:
                s = rng.choice(ss)
                out.append(" %s%s" % (case_of(s), cm))
                emit(T.d[s.upper()][1], "statement use")
        elif live:
            t = ex()
            v = value(t)
            if v is None:
                continue
            w = rng.random()
            if w < .4:
                out.append(" .dw (%s)&$FFFF%s" % (t, cm))
                emit((v & 0xFFFF).to_bytes(2, "little"), "value use")
            elif w < .6:
                out.append(" ld a,%s&255%s" % (t, cm))
                emit(b"\x3e" + bytes([v & 255]), "value use")
            elif w < .8:
                out.append(" .db 1,(%s)&255,2%s" % (t, cm))
                emit(bytes([1, v & 255, 2]), "value use")
            elif early_only(t):
                out += ["#if %s" % t, " .db 1", "#else", " .db 0", "#endif"]
                emit(bytes([v != 0]), "condition use")
        last_stm = None
    while ifs:
        out.append("#endif")
        ifs.pop()
    for k, v in late.items():
        out.append("%s = %s" % (k, v if v >= 0 else "0-%d" % -v))
    if not o.evals:
        return
    files = {"d.asm": "\n".join(out) + "\n"}
    av = ["-N", "d.asm", "d.bin"]
    o.sample({"source": "\n".join(out[:14])})
    r = wk.run(files, av)
    if wk.crashed(r, files, av):
        return
    g = r.file("d.bin")
    if r.rc != 0 or g != exp:
        o.violation("defines", "exit %s, got %s, expected %s\n%s" % (r.rc, g and g.hex()[:600], exp.hex()[:600], r.out[-700:]), files, av)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "defines")


def check(ctx):
    ctx.rule = "one evaluation = one use of a define whose emitted bytes were compared with the interpreter's; distinct = distinct (kind of use, bytes, number of defines)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(8000, 80000))])
    ctx.pmap(others, ["%s/d%d" % (ctx.seed, i) for i in range(ctx.n(5000, 40000))])
    ctx.finish(minimum=2000, min_distinct=1000)
