"""C18: every fault is reported once with its file and line, nothing else is, and the exit status says which kind there was."""
import random
from collections import Counter
from vlib import *
import meta

DIAG = re.compile(r"(\S.*?):(\d+): (error|warning)(?: (S[EW][0-9A-F]{3}))?: (.*)")
NOTE = re.compile(r"(\S.*?):(\d+): Error during (?:invocation|evaluation) of macro '(.*)'")

# (text, severity, code, part of the message); %d is a number unique to the fault
# found while the text is read: assembly stops after the first pass
A = [(" foo%d", "error", "SE113", "'foo%d'"), (" .foo%d 5", "error", "SE113", ".foo%d"), ("#foo%d", "error", "SE111", "#foo%d"), (" ld a,b,c", "error", "SE110", "LD"),
     (" add b,c", "error", "SE110", "ADD"), (" push a", "error", "SE110", "PUSH"), (" ret nq%d", "error", "SE110", "RET"), (" im 3", "error", "SE110", "IM"), (" call", "error", "SE110", "CALL"),
     (" .db %d/0", "error", "SE203", "%d/0"), (" ld hl,5%%(%d-%d)", "error", "SE203", "%d-%d"), (" ld (ix+%d00),a", "error", "SE121", "%d00"), (" rst 5", "error", "SE127", ""),
     (" jr $+%d00", "error", "SE120", ""), (" .db", "error", "SE104", ""), (" .dw 1,,%d", "error", "SE104", ""), (' .db "a" %d', "error", "SE119", ""),
     (" .db 3q%d", "error", "SE200", "3q%d"), (" .db 5 5%d", "error", "SE103", "'5"), (" .db 99999999999", "error", "SE204", "99999999999"), (" .fill -%d", "error", "SE108", "-%d"),
     ("#endif", "error", "SE117", ""), ('#import "no%d.bin"', "error", "SE001", "no%d.bin"), ('#include "no%d.inc"', "error", "SE001", "'no%d.inc'"),
     ("#define", "error", "SE122", ""), (' .error "boom%d"', "error", "SE600", "boom%d"), (" .option 5x%d", "error", "SE125", "5x%d"), (" .assume foo%d", "error", "SE125", "foo%d"),
     (" jr ------------_", "error", "SE101", ""), (" .db 80000000h/-1", "error", "SE205", "80000000h/-1"), (" .dw f2(%d)", "error", "SE102", "'Y'"),
     (" .db *%d", "error", "SE105", "'*'"), (" .dw %d+", "error", "SE104", ""), ("#undef", "error", "SE122", ""), (" .addinstr", "error", "SE126", ""), (" wr()", "error", "SE104", ""),
     (" buf(%d)", "error", "SE110", "buf"), (" .assume adl=%d", "error", "SE125", "adl=%d")]
# found when the values are known
B = [(" ld a,nosuch%d", "error", "SE106", "'nosuch%d'"), (" .dw 1+nosuch%d*2", "error", "SE106", "'nosuch%d'"), (" .db nosuch%d", "error", "SE106", "'nosuch%d'"),
     (" ld (ix+nosuch%d),nosuch%d", "error2", "SE106", "'nosuch%d'"), (" jp nosuch%d", "error", "SE106", "'nosuch%d'"), (" .echo nosuch%d", "error", "SE106", "'nosuch%d'"),
     (" .show nodef%d", "error", "SE106", "'nodef%d'"), (" jr +++++++++++++++++_", "error", "SE100", ""), (" djnz far", "fatal", "SE120", ""), (" .db fwd*%d/0", "fatal", "SE203", "fwd*%d/0"),
     (" ld (iy+fwdbig),%d&63", "fatal", "SE121", ""), (" rst fwdbig", "fatal", "SE127", "")]
# reported as soon as they are seen, assembly goes on
C = [(" #import", "error", None, "missing file name"), ("#define fm%d(x)", "error", None, "missing function"), ("conf: nop", "error", None, "conflicting definition of 'CONF'"), (" .org nosuch%d", "error", None, "'nosuch%d'"), (" .fill nosuch%d", "error", None, "'nosuch%d'"), ("e%d .equ nosuch%d", "error", None, "'nosuch%d'"),
     (" bit 8,a", "error", None, "Bit number"), (" #include", "error", None, "missing file name")]
W = [(" ld hl,((%d))", "warning", None, "extra parentheses"), ("dup: nop", "warning", None, "redefinition of 'DUP'"), (" .db 'a", "warning", None, "single quote"),
     (" ld a,300", "warning", "SW800", ""), (" .db -129", "warning", "SW800", ""), (" .db fwdbig", "warning", "SW800", ""), (" ld (hl),fwdbig+%d", "warning", "SW800", ""), (" .fill 2,999", "warning", "SW800", ""),
     (" .db (5", "warning", None, "parenthes"), (" .dw ((%d+5", "warning", None, "2 parenthes"), (" one(1,%d)", "warning", "SW804", "'one'"), (" .dw f1(1,%d)", "warning", "SW804", "'f1'")]
GOOD = [" nop", " ld a,255", " .db -128", "", " ; foo 5", " .dw fwdbig", " ld hl,fwd", " one(5)", " .dw f1(4)", " .db \"foo ,,5/0\"", "#ifdef nodef\n junk\n#endif", "#comment\n foo\n jr\n#endcomment",
        "#if 0\n foo \\ bar\n#include \"none\"\n#else\n inc a\n#endif", " .fill 3,7", " bit 7,a", " ld (ix+127),-1", " jr $", "#define q 5", "lab%d:", " .echo 5", " nop \\ nop\\ nop"]


class Gen:
    def __init__(self, rng, pools, per):
        self.rng, self.pools, self.per = rng, pools, per
        self.files, self.exp, self.n = {}, [], 99
        self.macros, self.defs = [], []
        self.kinds = Counter()

    def fault(self, pool):
        t, sev, code, msg = self.rng.choice(pool)
        self.n += 1
        n = self.n

        def f(s):
            return s.replace("%d", str(n)).replace("%%", "%")
        sev2 = sev
        res = [(sev.rstrip("2").replace("fatal", "error"), code, f(msg))] * (2 if sev == "error2" else 1)
        self.kinds[(code or "") + sev2] += 1
        return f(t), res, sev == "fatal"

    def add(self, name, text):
        """-> number of the first line of text"""
        l = self.files[name]
        n = len(l) + 1
        l += text.split("\n")
        return n

    def body(self, name, count, depth):
        r = self.rng
        for _ in range(count):
            k = r.random()
            if k < self.per:
                t, ds, fatal = self.fault(r.choice(self.pools))
                pre = ""
                if t.startswith(" ") and not t.startswith((" #", " .equ")):
                    self.n += 1
                    pre = r.choice(["", "", "", "p%d:" % self.n, " nop \\", " ld a,5 \\"])
                post = r.choice(["", "", " ; c"]) if not t.startswith("#define") and " .echo" not in t and '.error' not in t and "'a" not in t and "#include" not in t else ""
                if t.startswith(" ") and r.random() < .15 and "." not in t and "((" not in t and not t.startswith(" #"):
                    post = " \\ nop"
                ln = self.add(name, pre + t + post)
                for d in ds:
                    self.exp.append((name, ln) + d + (fatal, None))
            elif k < self.per + .08 and depth < 4:
                self.n += 1
                f = r.choice(["i%d.inc", "sub/i%d.inc"]) % self.n
                self.add(name, '#include "%s"' % f)
                self.files[f] = []
                self.body(f, r.randrange(0, 6), depth + 1)
            elif k < self.per + .14:  # a macro with a fault in one of its lines
                self.n += 1
                m = "m%d" % self.n
                if self.macros and r.random() < .3:  # a new body for an old one
                    m, _ = self.macros.pop(r.randrange(len(self.macros)))
                self.add(name, "#macro %s(x)" % m)
                lines = []
                for _ in range(r.randrange(1, 5)):
                    if self.per and r.random() < .4:
                        pool = [x for x in r.choice(self.pools) if x[0].startswith(" ") and not x[0].startswith((" #", " one(", " .show", " .echo"))]
                        if not pool:
                            continue
                        t, ds, fatal = self.fault(pool)
                        ln = self.add(name, t)
                        lines += [(name, ln) + d + (fatal,) for d in ds]
                    else:
                        self.add(name, r.choice([" nop", " .dw x", "", " ; c"]))
                self.add(name, "#endmacro")
                self.macros.append((m, lines))
            elif k < self.per + .17 and self.pools[0] is A:  # a fault in the value of a define
                self.n += 1
                d = "d%d" % self.n
                if self.defs and r.random() < .3:
                    d = self.defs.pop(r.randrange(len(self.defs)))[0]
                t = r.choice(["%d/0", "3+%d%%(1-1)", "2+%d/(5-5)*2"]) % self.n
                ln = self.add(name, "#define %s%s %s" % (d, r.choice(["", "(x)"]), t))
                self.defs.append((d, self.files[name][-1].find("(x)") > 0, (name, ln, "error", "SE203", "", False)))
            elif k < self.per + .22 and self.defs:
                d, arg, l = r.choice(self.defs)
                ln = self.add(name, r.choice([" .db %s", " ld a,%s", " .dw 5+%s*2", " bit %s,b", "#if %s\n#endif", "q%d = %%s" % len(self.exp)]) % (d + (r.choice(["(5)", "(x2)"]) if arg else "")))
                self.exp.append(l + ((name, ln, d),))
            elif k < self.per + .36 and self.macros:
                m, lines = r.choice(self.macros)
                ln = self.add(name, " %s(%d)" % (m, r.randrange(9)))
                for l in lines:
                    self.exp.append(l + ((name, ln, m),))
            else:
                self.n += 1
                self.add(name, r.choice(GOOD).replace("%d", str(self.n)))


def parse(out, cwd):
    """-> list of (file, line, severity, code, message, note before it)"""
    res = []
    note = None
    for l in out.split("\n"):
        m = NOTE.match(l)
        if m:
            note = m.groups()
            continue
        m = DIAG.match(l)
        if m:
            if m.group(5).startswith("previous definition"):
                note = None
                continue
            res.append((m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5), note))
            note = None
    return res


def same_file(seen, want):
    return seen == want or seen.endswith("/" + want)


def case(item, wk):
    rng = random.Random(item)
    o = wk.obs
    k = rng.random()
    pools = [A, [B, C, W][rng.randrange(3)]] if k < .3 else [B, C, W] if k < .5 else [C, W] if k < .6 else [B, W] if k < .68 else [W] if k < .8 else [B] if k < .9 else [GOOD]
    g = Gen(rng, pools, 0 if pools == [GOOD] else rng.choice([.03, .1, .3]))
    g.files["t.asm"] = []
    g.add("t.asm", "#define conf 5\n#define f1(x) x+1\n#define f2(x,y) x+y\n#macro one(x)\n .dw x\n#endmacro\nnear:\ndup: nop")
    g.body("t.asm", rng.choice([2, 8, 25, 60]), 0)
    g.add("t.asm", " .fill 300\nfar: nop\nfwd = 5\nfwdbig = 1000")
    nl = "\r\n" if rng.random() < .15 else "\n"
    files = {n: nl.join(l) + nl for n, l in g.files.items()}
    opts = rng.choice([[], [], [], ["-T"], ["-L"], ["-S"], ["-T", "-L"]])
    args = ["-N"] + opts + ["t.asm", "t.bin"]
    r = wk.run(files, args)
    o.evals += 1
    if wk.crashed(r, files, args):
        return
    seen = parse(r.out, r)
    acodes = {x[2] for x in A}
    isA = pools[0] is A
    astop = [e for e in g.exp if isA and is_a(e)]
    must = list(g.exp)
    may = []
    if astop:  # the values are never looked at, so faults of the other kinds may or may not have been seen
        must = [e for e in g.exp if is_a(e) or is_c(e)]
        may = [e for e in g.exp if not (is_a(e) or is_c(e))]
    left = list(seen)
    for e in must + may:
        name, ln, sev, code, msg, fatal, call = e
        hit = next((i for i, s in enumerate(left) if s[1] == ln and s[2] == sev and s[3] == code and msg.lower() in s[4].lower() and same_file(s[0], name)), None)
        if hit is None:
            if e in may:
                continue
            near = [s for s in left if s[3] == code][:3]
            o.violation("missing:%s" % (code or msg[:12]), "%s:%d: no %s %s %r (near: %s), exit %s\n%s" % (name, ln, sev, code, msg, near, r.rc, r.out[-900:]), files, args)
            return
        s = left.pop(hit)
        if call and s[5] and not (same_file(s[5][0], call[0]) and int(s[5][1]) == call[1]):
            # the same body line called several times: any of the calls will do
            if not any(e2[6] and e2[:5] == e[:5] and same_file(s[5][0], e2[6][0]) and int(s[5][1]) == e2[6][1] for e2 in g.exp):
                o.violation("note:%s" % code, "%s:%d in macro called at %s: note says %s" % (name, ln, call, s[5]), files, args)
                return
        if call and not s[5] and e in astop:
            o.violation("note-missing:%s" % code, "%s:%d in macro called at %s: no note of the call\n%s" % (name, ln, call, r.out[-900:]), files, args)
            return
        o.count(code or "uncoded " + sev)
        o.nontrivial("%s %s %s %s" % (code, sev, "macro" if call else os.path.dirname(name) or name[0], msg))
    if left:
        s = left[0]
        o.violation("extra:%s" % s[3], "%s:%d: %s %s %s is reported, nothing (more) is wrong there\n%s" % (s[:5] + (r.out[-900:],)), files, args)
        return
    errs = [e for e in g.exp if e[2] == "error"]
    want = (0,) if not g.exp else (1,) if not errs else (3,) if astop or any(e[5] for e in g.exp) else (2,)
    if r.rc not in want:
        o.violation("status", "exit %s, expected %s for %d errors and %d warnings\n%s" % (r.rc, want, len(errs), len(g.exp) - len(errs), r.out[-900:]), files, args)
        return
    if not errs and r.file("t.bin") is None:
        o.violation("no-output", "no errors but no output file", files, args)
        return
    if astop and r.file("t.bin") is not None:
        o.violation("output", "output file written in spite of errors in the first pass", files, args)
        return
    o.evals += len(must)
    o.count("exit %d" % r.rc)
    o.count("reports", len(seen))
    o.count("in macros", sum(1 for e in g.exp if e[6]))
    o.count("in includes", sum(1 for e in g.exp if e[0] != "t.asm"))


ACODES = {(x[2], x[3].split("%d")[0]) for x in A}
BC = {x[2] for x in B}


def is_a(e):
    return e[3] is not None and not e[5] and not (e[3].startswith("SW")) and e[3] not in ("SE106", "SE100")


def is_c(e):
    return e[3] is None and e[2] == "error"


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "faults")


def check(ctx):
    ctx.rule = "one evaluation = one fault matched with its report (file, line, severity, code, text), plus one per program for 'no other reports' and the exit status; distinct = (code, severity, place, text)"
    ctx.build("san")
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(20000, 150000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(2000, 500)
