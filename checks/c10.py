"""C10: conditional assembly. Random trees of #if/#ifdef/#ifndef/#elif/#else with
hostile text in the branches that are not taken, against an interpreter; also the
line numbers of what follows, and unbalanced directives."""
import random
import re
from vlib import *
import meta
import expr

JUNK = ["this is not assembly", " bogus a,b,c", "  ld a,", " .db \"unclosed", " don't do that", "#include \"missing.inc\"", "#unknown thing",
        " .unknowndir 5", "lbl lbl2 lbl3", " ld hl,(((", "%%%", " .error \"no\"", " ld a,5 \\ frob \\ nop", "; #endif", " nop ; #else", " .db \"#endif\"",
        " .db '#'", "#define bad 99", "X1 .equ 4242", "#undef K1", " .org 0", " .db \"\\\" #endif\"", "\t#defcont x", "= 5", "  .echo \"no\"",
        " .db 'a','\\''", "#import \"nofile\"", " rst 7", "  jr 99999", "#macrox", ")", ") nop", " )", " ld a,) \\ nop", "))) (", "(", "((", "#e", "#end", "#elsie 3", "lbl: #note", " nop \\ #foo", "#", "# else", " .db \"\\\\\" ; #else", "\\", " \\ \\", " .fill 1000000000", ".assume adl=0"]


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    consts = {"K0": 0, "K1": 1, "K5": 5, "KN": -3}
    mode = rng.choice(["bytes", "bytes", "lines"])
    out = ["%s .equ %d" % kv for kv in consts.items()] + ["#define DEF1", "#define DEFN K5-2"]
    defs = {"DEF1": 1, "DEFN": 3}
    env = dict(consts)
    env.update(defs)
    exp = b""
    diag = []
    cnt = [0]
    budget = [rng.choice([5, 15, 40, 100])]
    depthmax = [0]

    def cm():
        return rng.choice(["", "", "", " ; c", "  ", "\t; #endif", " ; #else"])

    def d(w):
        return rng.choice(["", "", "", " ", "\t", "    "]) + "#" + rng.choice([w, w, w.upper(), w.capitalize()])

    def cond():
        """-> (directive text, truth)"""
        k = rng.random()
        if k < .2:
            n = rng.choice(["DEF1", "DEFN", "NOPE", "def1", "undef2"])
            return d("ifdef") + " " + n, n.upper() in defs
        if k < .4:
            n = rng.choice(["DEF1", "DEFN", "NOPE", "Defn", "undef2"])
            return d("ifndef") + " " + n, n.upper() not in defs
        t, v = econd()
        return d("if") + rng.choice([" ", "  ", "\t"]) + t, v

    def econd():
        k = rng.random()
        if k < .1:
            return rng.choice(["0", "(0)", "K0", "1-1"]), False
        if k < .2:
            return rng.choice(["1", "-1", "K1", "$100", "~0", "$FF00", "256", "$10000"]), True
        t = expr.simple(rng, [rng.choice([n, n.lower()]) for n in env], 1)
        return t, expr.evaluate(t, env) != 0

    def stmt(live):
        nonlocal exp
        cnt[0] += 1
        v = cnt[0]
        k = rng.random()
        if not live and k < .45:
            out.append(rng.choice(JUNK))
            return
        if mode == "lines" and k > .6:
            out.append(rng.choice([" .dw undefined_%d" % v, " .db %d+300" % v, " .db 1 \\ .dw undefined_%d" % v]))
            if live:
                diag.append((len(out), "undefined_%d" % v if "undef" in out[-1] else "SW800"))
            return
        if k < .75:
            out.append(" .dw %d%s" % (v & 0xFFFF, cm()))
            b = (v & 0xFFFF).to_bytes(2, "little")
        elif k < .85:
            out.append(" .db %d \\ nop\\ .db \"#if\"" % (v & 255))
            b = bytes([v & 255, 0]) + b"#if"
        elif k < .92:  # a macro whose body has conditions, defined and called here
            out.extend(["#macro mm%d(p)" % v] + rng.choice([[], [], ["#comment", rng.choice(["#endmacro", "#endif", "#if 1", "#else"]), "#endcomment"]]) + ["#if p>2", " .db p", "#else", " .dw p", "#endif", "#endmacro", " mm%d(1)" % v, " mm%d(7)" % v])
            b = b"\1\0\7"
        elif k < .96:
            out.extend([d("comment"), "anything ' goes \" here", "a # b", " #frob"])
            for _ in range(rng.choice([0, 1, 1, 2])):
                out.append(rng.choice([d("if") + " 0", d("if") + " 1", d("else"), d("endif"), d("elif") + " 1", d("ifdef") + " K0", "#macro c%d" % v, "#endmacro", " .db 77", "#define K0 5", d("endif") + " \\ .db 5"]))
            out.append(d("endcomment"))
            b = b""
        else:
            out.append("")
            b = b""
        if live:
            exp += b

    def block(live, depth):
        depthmax[0] = max(depthmax[0], depth)
        for _ in range(rng.randrange(0, 4)):
            if budget[0] <= 0:
                return
            budget[0] -= 1
            if rng.random() < .45 and depth < 12:
                node(live, depth)
            else:
                stmt(live)

    def node(live, depth):
        o.evals += 1
        t, v = cond()
        out.append(t + cm())
        o.count(re.match(r"\s*#(\w+)", t).group(1).lower())
        block(live and v, depth + 1)
        done = v
        shape = [v]
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            if t.lower().find("zz") >= 0:
                break
            e, ev = econd()
            if done and rng.random() < .3:
                e = rng.choice(["nosuchname", "1/0", "(", "1+"])
                ev = True
            out.append(d("elif") + " " + e + cm())
            block(live and not done and ev, depth + 1)
            o.count("elif")
            shape.append(ev and not done)
            done = done or ev
        if rng.random() < .5:
            out.append(d("else") + cm())
            block(live and not done, depth + 1)
            shape.append("else")
        out.append(d("endif") + cm())
        o.nontrivial((live, depth, tuple(shape), len(out)))

    for _ in range(rng.randrange(1, 5)):
        stmt(True)
        node(True, 0)
    stmt(True)
    end = rng.choice([None] * 8 + ["open", "else", "endif", "elif"])
    if end and mode == "bytes":
        bad = {"open": "#if K1", "else": "#else", "endif": "#endif", "elif": "#elif 1"}[end]
        out.append(bad)
        badline = len(out)
        out.append(" nop")
    else:
        end = None
    if mode == "bytes" and not end and rng.random() < .4:
        # several on one line
        one = re.compile(r"(?i)\s*(#(if|ifdef|ifndef|elif|else|endif)\b[^\"'\\;]*|\.dw \d+\s*)$")
        ok = lambda l: one.match(l) and l.count("(") == l.count(")")
        rate = rng.choice([.2, .5, 1])
        new = out[:1]
        for a, b in zip(out, out[1:]):
            if ok(a) and ok(b) and rng.random() < rate and len(new[-1]) < 180:
                new[-1] += rng.choice([" \\ ", " \\", "\\ ", "\\"]) + b
                o.count("joined")
            else:
                new.append(b)
        out = new
    o.count("depth>=5", int(depthmax[0] >= 5))
    files = {"c.asm": "\n".join(out) + "\n"}
    av = ["-N", "c.asm", "c.bin"]
    r = wk.run(files, av)
    o.sample({"source": "\n".join(out[6:20])})
    if wk.crashed(r, files, av):
        return
    if end:
        o.count("unbalanced")
        if r.rc not in (2, 3) or not re.search(r"^c\.asm:%d: error" % badline, r.out, re.M):
            o.violation("unbalanced:" + end, "%r on line %d was not an error there: exit %s %s" % (bad, badline, r.rc, r.out[-500:]), files, av)
        return
    if mode == "lines":
        got = set(re.findall(r"^c\.asm:(\d+): (?:error SE106.*(undefined_\d+)|warning (SW800)|.*)", r.out, re.M))
        got = {(int(a), b or c) for a, b, c in got}
        o.count("lines", len(diag))
        if got != set(diag):
            o.violation("lines", "diagnostics at %s, expected %s" % (sorted(got - set(diag)), sorted(set(diag) - got)), files, av)
        return
    g = r.file("c.bin")
    if exp == b"" and g is None:
        g = b""
    if r.rc != 0 or g != exp:
        o.violation("bytes", "exit %s, got %s, expected %s\n%s" % (r.rc, g and g.hex()[:500], exp.hex()[:500], r.out[-500:]), files, av)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "if")


def check(ctx):
    ctx.rule = "one evaluation = one conditional block whose selected branch was checked through the emitted bytes or reported lines; distinct = distinct (state of enclosing, depth, branch truths, position)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(10000, 100000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(3000, 40000))])
    ctx.finish(minimum=2000, min_distinct=1000)
