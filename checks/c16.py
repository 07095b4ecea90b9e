"""C16: the symbol table file lists every label and numeric define with its final value."""
import random
from vlib import *
import expr

TAKEN = {"A", "B", "C", "D", "E", "F", "H", "L", "I", "R", "AF", "BC", "DE", "HL", "IX", "IY", "SP", "PC", "IXH", "IXL", "IYH", "IYL", "NZ", "Z", "NC",
         "PO", "PE", "P", "M", "MB"}
TAKEN |= set("""ADC ADD AND BIT CALL CCF CP CPD CPDR CPI CPIR CPL DAA DEC DI DJNZ EI EX EXX HALT IM IN INC IND INDR INI INIR JP JR LD LDD LDDR
LDI LDIR NEG NOP OR OTDR OTIR OUT OUTD OUTI POP PUSH RES RET RETI RETN RL RLA RLC RLCA RLD RR RRA RRC RRCA RRD RST SBC SCF SET SL1 SLA SLL SRA SRL SUB XOR
IN0 OUT0 LEA PEA MLT TST TSTIO SLP STMIX RSMIX IND2 IND2R INDM INDMR INDRX INI2 INI2R INIM INIMR INIRX OTD2R OTDM OTDMR OTDRX OTI2R OTIM OTIMR OTIRX OUTD2 OUTI2
EQU RGB EVAL CONCAT GETC WR RUN CLR BUF SIS LIL DB DW DL BYTE WORD LONG ORG FILL BLOCK END ECHO""".split())
LINE = re.compile(r"(\S+) = \$([0-9A-F]+)")


def names(rng, n):
    first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    rest = first + "0123456789_."
    seen = set(TAKEN)
    out = []
    while len(out) < n:
        k = rng.choice([1, 2, 3, 4, 6, 9, 14, 31, 60])
        s = rng.choice(first + "_" * (k > 2)) + "".join(rng.choice(rest) for _ in range(k - 1))
        if rng.random() < .3 and out:  # share a prefix with another name
            s = rng.choice(out) + rng.choice(["1", "2", "_", "a", "Z", ".x", "0"])
        if s.upper() in seen or len(s) > 100 or s.startswith("__") or re.fullmatch(r"_[^A-Za-z]*", s) or s.upper() in ("TRUE", "FALSE", "SPASM", "SPASMVER"):
            continue
        if re.fullmatch(r"[0-9A-Fa-f]+[HhBbDd]", s):
            continue
        seen.add(s.upper())
        out.append(s)
    return out


def parse(b):
    out = []
    for l in b.decode("latin-1").split("\n")[:-1]:
        m = LINE.fullmatch(l)
        if not m:
            return None, l
        out.append((m.group(1), m.group(2)))
    return out, None


BASE = {}


def base(wk, opts):
    k = tuple(opts)
    if k not in BASE:
        r = wk.run({"t.asm": ""}, ["-N"] + opts + ["-L", "t.asm", "t.bin"], sub="base")
        t, bad = parse(r.file("t.lab") or b"")
        if t is None:
            t = []
        BASE[k] = {n: v for n, v in t}
    return BASE[k]


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    cs = rng.random() < .4
    ez = rng.random() < .25
    opts = (["-A"] if cs else []) + (["-E"] if ez else [])
    b = base(wk, opts)
    total = rng.choice([3, 10, 30, 100, 100, 400])
    pool = names(rng, total)
    if cs:  # names that differ only in case are different names
        for n in rng.sample(pool, min(len(pool), 10)):
            v = n.swapcase()
            if v != n and v not in pool and v.lower() not in ("true",):
                pool.append(v)
    rng.shuffle(pool)
    val = {}       # final numeric value
    main, inc = [], []
    files = {}
    args = ["-N"] + opts
    pc = rng.choice([0, 0x9D95, 0x4000, 0xC000])
    main.append(" .org %d" % pc)
    absent = set()
    late = []
    defs = {}

    def use(n):
        return n if cs else rng.choice([n, n.upper(), n.lower()])

    out = main
    macro_n = 0
    while pool:
        n = pool.pop()
        k = rng.randrange(20)
        if out is inc and rng.random() < .1:
            out = main
        if k < 5:  # a label in front of code
            sep = rng.choice([":", "", ":", ":\n"])
            code, size = rng.choice([("nop", 1), ("ld a,1", 2), (".db 1,2,3", 3), (".dw 5", 2), (".fill %d" % (pc % 40), pc % 40), ("", 0)])
            out.append("%s%s %s" % (n, sep, code))
            val[n] = pc
            pc += size
        elif k < 8:  # an equate
            v = expr.w(rng.choice(expr.INTERESTING + [rng.randrange(1 << 32), rng.randrange(65536), -rng.randrange(1 << 16)]))
            t = rng.choice(["%d" % v if v >= 0 else "-%d" % -v, "$%X" % (v & 0xFFFFFFFF)])
            if v == -(1 << 31):
                t = "$80000000"
            out.append("%s%s %s" % (n, rng.choice([" =", " .equ", " equ" if False else " =", "="]), t))
            val[n] = v
        elif k < 10:  # an equate of an expression
            known = {x: v for x, v in val.items() if x not in defs}
            ns = rng.sample(sorted(known), min(len(known), 3))
            e = expr.simple(rng, ns, 1)
            if len(e) > 150:
                pool.append(n)
                continue
            try:
                v = expr.evaluate(e, {x.upper(): known[x] for x in ns})
            except expr.EvalError:
                pool.append(n)
                continue
            if cs and len({x.upper() for x in ns}) < len(ns):
                pool.append(n)
                continue
            out.append("%s .equ %s" % (n, e))
            val[n] = v
        elif k < 14:  # a numeric define
            r = rng.random()
            if r < .2:
                out.append("#define %s" % n)
                val[n] = 1
            elif r < .5:
                v = expr.w(rng.choice(expr.INTERESTING))
                if v == -(1 << 31):
                    v = 5
                out.append("#define %s %d" % (n, v))
                val[n] = v
            elif r < .75:
                a, c = rng.randrange(1000), rng.randrange(1000)
                op = rng.choice("+-*|&^")
                out.append("#define %s %d%s%d" % (n, a, op, c))
                val[n] = expr.apply(op, a, c)
            else:
                lab = [x for x in val if x not in defs]
                if not lab:
                    pool.append(n)
                    continue
                x = rng.choice(lab)
                out.append("#define %s %s+1" % (n, use(x)))
                val[n] = expr.w(val[x] + 1)
            defs[n] = True
            r = rng.random()
            if r < .15:  # redefined
                v = rng.randrange(70000)
                late.append(("#define %s %d" % (use(n) if not cs else n, v), n, v))
            elif r < .3:
                late.append(("#undef %s" % use(n), n, None))
        elif k < 15:
            out.append(rng.choice(['#define %s "text"', "#define %s(x) x+1", "#define %s ld a,b", "#define %s (hl)", "#define %s no_such_name+1", '#define %s " 5"',
                                   "#define %s(q)\\\n" if False else '#define %s(q,w) "s"']) % n)
            absent.add(n)
        elif k < 16:
            macro_n += 1
            out.append("#macro %s(arg%s)\n nop\n .db arg%s\n#endmacro" % (n, n, n))
            absent.add(n)
            absent.add("arg" + n)
            if rng.random() < .6:
                out.append(" %s(%d)" % (n, rng.randrange(200)))
                pc += 2
        elif k < 17:
            out.append("#if 0\n%s: .db 1,2\n#define %s 4\n#endif" % (n, n))
            absent.add(n)
        elif k < 18 and not cs or k < 18:
            v = rng.randrange(60000)
            if rng.random() < .5:
                args.append("-D%s=%d" % (n, v))
                val[n] = v
            else:
                args.append("-D%s" % n)
                val[n] = 1
            defs[n] = True
            r = rng.random()
            if r < .15:
                late.append(("#undef %s" % n, n, None))
        elif k < 19:
            out.append("_\n djnz -_")
            pc += 2
            pool.append(n)
            if rng.random() < .3:
                pool.pop()
                absent.add(n)
        else:
            if out is main and "i.inc" not in files:
                out.append('#include "i.inc"')
                files["i.inc"] = ""
                out = inc
            pool.append(n)
    # the include file is assembled where it stands: main continues after it, so keep the order simple
    tail = []
    for t, n, v in late:
        tail.append(t)
        if v is None:
            val.pop(n, None)
            absent.add(n)
        else:
            val[n] = v
    if "i.inc" in files:
        i = main.index('#include "i.inc"')
        if len(main) > i + 1:  # text was added to main after leaving the include: inline order is include first
            pass
        files["i.inc"] = "; include\n" + "\n".join(inc) + "\n"
    files["t.asm"] = "\n".join(main + tail) + "\n"
    o.evals += 1
    outname, lab = rng.choice([("t.bin", "t.lab"), ("OUT.8xp", "OUT.lab"), ("noext", "noext.lab"), ("a.b.hex", "a.b.lab")])
    extra = rng.choice([[], [], ["-O"], ["-T"], ["-T", "-O"]])
    opt = ["-L"] + extra
    rng.shuffle(opt)
    args = args[:1] + opt + args[1:] + ["t.asm", outname]
    r = wk.run(files, args)
    if wk.crashed(r, files, args):
        return
    got = r.file(lab)
    if got is None:
        o.violation("no-file", "no %s\n%s" % (lab, r.out[-800:]), files, args)
        return
    table, bad = parse(got)
    if table is None:
        o.violation("format", "line %r" % bad, files, args)
        return
    exp = {(n if cs else n.upper()): "%.4X" % (v & 0xFFFFFFFF) for n, v in val.items()}
    for n, v in b.items():
        exp[n] = v
    seen = {}
    for n, v in table:
        if n in seen:
            o.violation("twice", "%s is listed twice\n" % n, files, args)
            return
        seen[n] = v
    for n in exp:
        if n not in seen:
            o.violation("missing", "%s = %s is not listed (exit %s)\n%s" % (n, exp[n], r.rc, r.out[-600:]), files, args)
            return
        if seen[n] != exp[n]:
            o.violation("value", "%s = $%s, expected $%s" % (n, seen[n], exp[n]), files, args)
            return
    for n in seen:
        if n not in exp:
            o.violation("extra", "%s = %s is listed, no such label or numeric define" % (n, seen[n]), files, args)
            return
    order = [n.lower() for n, _ in table]
    if order != sorted(order):
        o.violation("order", "not sorted: %s" % order[:20], files, args)
        return
    if len(got) and not got.endswith(b"\n"):
        o.violation("format", "no line end at the end", files, args)
        return
    o.evals += len(exp)
    o.count("symbols", len(exp))
    o.count("absent", len(absent))
    o.count("options " + " ".join(sorted(opt + opts)))
    for n in exp:
        o.nontrivial(n + exp[n])


def others(item, wk):
    """The programs of all generators"""
    import watch
    watch.labels(item, wk)


def check(ctx):
    ctx.rule = "one evaluation = one symbol compared by name and value (plus one per table); distinct = distinct (name, value)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(8000, 60000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(2000, 1000)
