"""C24: .echo, .show and .error - what appears on the console and in the files, in order."""
import random
import re
from vlib import *
import meta
import expr


class Prog:
    def __init__(self, rng):
        self.rng = rng
        self.pc = 0
        self.env = {}          # known names -> value
        self.later = {}        # names that are defined at the end
        self.defs = {}         # define -> list of (text, expected string) items
        self.labels = []
        self.show1, self.text = [], []      # console lines of the first and the second pass
        self.disk = {}
        self.diag = []         # (line, regex)
        self.n = 0

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def string(self):
        r = self.rng
        src, out = "", ""
        for _ in range(r.choice([0, 1, 3, 8, 8, 25])):
            k = r.random()
            if k < .8:
                c = r.choice("abcXYZ 0189,;:()[]#$%&'*+-./<=>?@^_`{|}~!")
                src += c
                out += c
            else:
                s, c = r.choice([("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("\\\"", "\""), ("\\r", "\r"), ("\\'", "'"), ("\\q", "q"), ("\\N", "\n")])
                src += s
                out += c
        return '"' + src + '"', out

    def item(self, fwd, nodef=False):
        r = self.rng
        k = r.random()
        if k < .35:
            return self.string()
        if k < .5 and self.defs and not nodef:
            d = r.choice(sorted(self.defs))
            return r.choice([d, d.swapcase()]), self.defs[d]
        if k < .6:
            v = r.choice([-2147483648, 2147483647, -1, 0, 65536, r.randrange(-99999, 99999)])
            return "%d" % v if v != -2147483648 else "$80000000", "%d" % v
        names = dict(self.env)
        if fwd:
            names.update(self.later)
        g = expr.Gen(r, {n: v for n, v in names.items()}, self.pc)
        if fwd and self.later and r.random() < .5:
            n = r.choice(sorted(self.later))
            k = r.randrange(100)
            return "%s+%d" % (n, k), "%d" % expr.w(self.later[n] + k)
        t, v = g.small(1, 40)
        return t, "%d" % v

    def items(self, fwd=True, nodef=False):
        r = self.rng
        its = [self.item(fwd, nodef) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        while len(",".join(t for t, _ in its)) > 180:
            its.pop()
        its = its or [('"x"', "x")]
        t = ""
        for i, (s, _) in enumerate(its):
            t += ("" if not i else r.choice([",", ", ", " , "])) + s
        return t, "".join(v for _, v in its)


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    p = Prog(r)
    for _ in range(r.randrange(3)):
        p.later[p.uid("lt")] = r.randrange(-70000, 70000)
    faulty = r.random() < .2
    lines = []
    macros = {}
    fatal = False
    fnames = ["f%d.txt" % i for i in range(3)] + ["a b.txt", "sub/g.txt", "Up.TXT", "none"]
    ndir = 0

    def kw(w):
        return r.choice([w, w, w.upper(), w.capitalize()])

    def echo(emit=True):
        """-> statement, and notes what it prints"""
        nonlocal ndir
        ndir += 1
        if r.random() < .4:
            n = r.choice(fnames)
            m = r.choice([">", ">>", ">>"])
            t, v = p.items(fwd=False)
            if r.random() < .4:
                t, v = t + ',"\\n"', v + "\n"
            f = n
            if "/" in n and r.random() < .3:
                f = n.replace("/", "\\\\")
            q = '"%s"' % f
            if " " not in n and "\\" not in f and r.random() < .4:
                q = f
            elif r.random() < .1:
                q = '"%s/c/%s"' % (wk.wdir, n)
            if emit:
                p.disk[n] = (p.disk.get(n, "") if m == ">>" else "") + v
            return "%s %s%s%s %s" % (kw(".echo"), m, r.choice([" ", " "]), q, t)
        t, v = p.items()
        if emit:
            p.text.append(v)
        return "%s %s" % (kw(".echo"), t)
    for _ in range(r.choice([2, 5, 10, 25])):
        k = r.random()
        if k < .4:
            lines.append(" " + echo() + r.choice(["", "", " ; note", " \\ nop"]))
            if lines[-1].endswith("nop"):
                p.pc += 1
        elif k < .48:
            n, v = p.uid("eq"), r.choice([0, 1, -1, r.randrange(-70000, 70000), 2147483647])
            p.env[n] = v
            lines.append("%s = %d" % (n, v))
        elif k < .54:
            n = p.uid("lab")
            p.env[n] = p.pc
            lines.append(n + ":")
        elif k < .62:
            # (a redefinition counts for what follows)
            n = r.choice(sorted(p.defs)) if p.defs and r.random() < .3 else p.uid("df")
            its = [p.item(False, True) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if len(",".join(t for t, _ in its)) > 60 or re.search(r"[;\\]", ",".join(t for t, _ in its)) or "$" in ",".join(t for t, _ in its):
                its = [("7", "7"), ('"d"', "d")]
            lines.append("#define %s %s" % (n, ",".join(t for t, _ in its)))
            p.defs[n] = "".join(v for _, v in its)
        elif k < .7:
            b = r.randrange(1, 9)
            lines.append(" .fill %d" % b)
            p.pc += b
        elif k < .78:
            n = p.uid("mc")
            a = r.choice(["x", "Arg", "q_"])
            f = r.choice(fnames[:3])
            to = r.random() < .4
            lines += ["#macro %s(%s,n)" % (n, a), " .echo %s\"%s \",n,\",\",%s" % ("> %s " % f if to and 0 else ">> %s " % f if to else "", n, a), "#if n > 1", " %s(%s,n-1)" % (n, a), "#endif", "#endmacro"]
            macros[n] = f if to else None
        elif k < .88 and macros:
            n = r.choice(sorted(macros))
            c = r.randrange(1, 5)
            t, v = p.item(macros[n] is None, True)
            if "$" in t or len(t) > 60:
                t, v = "3+4", "7"
            lines.append(" %s(%s,%d)" % (n, t, c))
            for i in range(c, 0, -1):
                s = "%s %d,%s" % (n, i, v)
                if macros[n]:
                    p.disk[macros[n]] = p.disk.get(macros[n], "") + s
                else:
                    p.text.append(s)
            ndir += c
        elif k < .93:
            lines += ["#if 0", " " + echo(False), " .error \"no\"", " .show nothing", "#endif"]
        elif p.defs:
            n = r.choice(sorted(p.defs))
            m = p.uid("sh")
            a, c = r.choice([("", "1+2"), ("(x,y)", "x+y"), ("(long_name)", "\"str\",long_name"), ("", "nop")])
            early = r.random() < .6
            exp = (m.upper() + (a.upper() if 0 else a.replace(",", ", ")) + ": " + c).replace(" ", "").upper()
            if early:
                lines.append("#define %s%s %s" % (m, a, c))
                lines.append(" %s %s" % (kw(".show"), r.choice([m, m.upper()])))
                p.show1.append(exp)
            else:
                lines.append(" .show " + m)
                p.tail = getattr(p, "tail", []) + ["#define %s%s %s" % (m, a, c)]
                p.text.append(("show", exp))
            ndir += 1
        if faulty and r.random() < .15:
            j = r.randrange(3)
            if j == 0:
                s, v = p.string()
                s, v = (s, v) if "\n" not in v and "\r" not in v and len(v) < 60 and v else ('"msg"', "msg")
                x, y = p.item(False, True)
                if len(x) > 30 or len(y) > 12 or "\n" in y or "\r" in y:
                    x, y = "5+5", "10"
                lines.append(" %s %s,%s" % (kw(".error"), s, x))
                p.diag.append((len(lines), "error SE600: " + re.escape(v + y)))
                fatal = True
            elif j == 1:
                lines.append(" .echo > bad.txt nosuch%d" % len(lines))
                p.diag.append((len(lines), r"error: .*nosuch%d.* has to be defined" % (len(lines) - 1)))
            else:
                lines.append(" .echo \"v\",1/0")
                p.diag.append((len(lines), "error SE203"))
                fatal = True
    lines += ["%s = %d" % kv for kv in p.later.items()] + getattr(p, "tail", [])
    files = {"t.asm": "\n".join(lines) + "\n", "sub/x": ""}
    col = r.random() < .2
    args = ([] if col else ["-N"]) + ["t.asm", "t.bin"]
    x = wk.run(files, args)
    if wk.crashed(x, files, args):
        return
    o.evals += 1
    o.count("directives", ndir)
    out = re.sub(r"\x1b\[[0-9;]*m", "", x.out)
    if p.diag:
        o.count("faulty")
        errs = re.findall(r"(?m)^t\.asm:(\d+): (error.*)$", out)
        bad = [d for d in p.diag if len([1 for l, m in errs if int(l) == d[0] and re.match(d[1] + ("$" if "SE600" in d[1] else ""), m)]) != 1]
        if bad or len(errs) != len(p.diag):
            o.violation("errors", "expected %s\n%s" % (p.diag, out[-1200:]), files, args)
        elif x.rc != (3 if fatal else 2):
            o.violation("status", "exit status %s\n%s" % (x.rc, out[-600:]), files, args)
        for n, v in p.disk.items():
            got = x.file(n)
            if (got is None or got.decode("latin1") != v):
                o.violation("file", "file %s is %r, expected %r" % (n, got, v), files, args)
                return
        return
    o.nontrivial((out, tuple(p.disk.items())))
    o.sample({"text": files["t.asm"][:300], "console": out[:200]})
    if x.rc != 0:
        o.violation("status", "exit status %s\n%s" % (x.rc, out[-1200:]), files, args)
        return
    m = re.fullmatch(r"(?s)Pass one\.\.\. \n(.*?)Pass two\.\.\. \n(.*)Assembly time: [\d.]+ seconds\n", out)
    if not m:
        o.violation("console", "unexpected console output\n%r" % out[-1500:], files, args)
        return
    shows = [re.sub(r"\s", "", l).upper() for l in m.group(1).splitlines()]
    if shows != p.show1:
        o.violation("show", "first pass shows %s, expected %s" % (shows, p.show1), files, args)
        return
    rest = m.group(2)
    for t in p.text:
        if isinstance(t, tuple):
            l, _, rest = rest.partition("\n")
            if re.sub(r"\s", "", l).upper() != t[1]:
                o.violation("show", "shows %r, expected %r" % (l, t[1]), files, args)
                return
        else:
            if not rest.startswith(t + "\n"):
                o.violation("echo", "console has %r, expected %r" % (rest[:len(t) + 80], t), files, args)
                return
            rest = rest[len(t) + 1:]
    if rest:
        o.violation("echo", "more on the console: %r" % rest[:300], files, args)
        return
    o.count("echo_console", len(p.text))
    for n in fnames:
        got, v = x.file(n), p.disk.get(n)
        if (got is None) != (v is None) or (v is not None and got.decode("latin1") != v):
            o.violation("file", "file %s is %r, expected %r" % (n, got, v), files, args)
            return
    o.count("echo_files", len(p.disk))


def nodir(i, wk):
    files, args = {"t.asm": " nop\n .echo > nodir/x.txt 5\n nop\n"}, ["-N", "t.asm", "t.bin"]
    x = wk.run(files, args)
    if wk.crashed(x, files, args):
        return
    if len(re.findall(r"(?m)^t\.asm:2: error SE002", x.out)) != 1 or x.rc != 3:
        wk.obs.violation("nodir", "no SE002 for a file that can't be written\n%s" % x.out, files, args)


def others(item, wk):
    """The programs of all generators, rewritten"""
    meta.run(item, wk, "echo")


def check(ctx):
    ctx.build("san")
    ctx.pmap(nodir, [0])
    ctx.rule = "one evaluation = one program whose complete console output and echo files (or errors) were compared with the model; distinct = distinct (console, files)"
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(12000, 100000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(3000, 40000))])
    ctx.finish(minimum=2000, min_distinct=800)
