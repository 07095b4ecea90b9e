"""Metamorphic relations over the programs of all generators: a program is rewritten so that by one of the
properties nothing may change, and what the two runs do is compared."""
import random
import re
from collections import Counter
from c01 import donated
from c19 import messages, outputs
from vlib import *

OPEN = re.compile(r"(?i)^\s*#\s*(if|ifdef|ifndef|macro|comment)\b")
CLOSE = re.compile(r"(?i)^\s*#\s*(endif|endmacro|endcomment)")
PRE = re.compile(r"(?i)#\s*(if|else|elif|endif|macro|endmacro|comment|endcomment|define|undef|include|import|region|endregion)")


def text(v):
    return v if isinstance(v, str) else v.decode("latin1")


def enc(files):
    return {k: v if isinstance(v, bytes) else v.encode("latin1") for k, v in files.items()}


class Skip(Exception):
    pass


def donor(r, wk, bad=r"(?i)__line|__file|-V"):
    g = donated(r, wk)
    if g is None:
        raise Skip()
    name, files, args = g
    args = [a for a in args if a not in ("-T", "-C", "-S")]
    if len(args) < 2 or args[-2] not in files or "-V" in args:
        raise Skip()
    if re.search(bad, "\n".join(text(v) for v in files.values()) + " ".join(args)):
        raise Skip()
    t = text(files[args[-2]]).replace("\r\n", "\n")
    if "\r" in t or "\0" in t or "\x1a" in t or t.startswith("\xef\xbb\xbf") or len(t) > 100000:
        raise Skip()
    return name, files, args, t


def depths(ls):
    """Depth of blocks before every line, None if they are not balanced or a quote stays open."""
    d, res, c = 0, [], False
    for l in ls:
        res.append(d)
        m = OPEN.match(l)
        if c:
            if re.match(r"(?i)\s*#\s*endcomment", l):
                c = False
                d -= 1
            continue
        if m:
            d += 1
            c = m.group(1).lower() == "comment"
        elif CLOSE.match(l):
            d -= 1
        elif PRE.search(re.sub(r"^\s*#\s*\w+", "", l)):
            return None
        if d < 0 or l.count('"') % 2 or l.count("'") % 2:
            return None
    return res if d == 0 else None


def junk(r, wk):
    """Text for a branch that is not taken."""
    try:
        t = donor(r, wk)[3].split("\n")
    except Skip:
        t = [" nop"]
    a = r.randrange(len(t))
    t = t[a:a + r.choice([1, 3, 10, 40])]
    t = [l for l in t if not re.search(r"(?i)#\s*(comment|endcomment|macro|endmacro)", l) and l.count('"') % 2 == 0 and l.count("'") % 2 == 0]
    d, ok = 0, True
    for l in t:
        if re.search(r"(?i)\S.*#\s*(if|else|elif|endif)", l):
            ok = False
        if re.match(r"(?i)\s*#\s*if", l):
            d += 1
        elif re.match(r"(?i)\s*#\s*endif", l):
            d -= 1
        elif re.match(r"(?i)\s*#\s*(else|elif)", l) and d == 0:
            ok = False
        ok = ok and d >= 0
    if not ok or d:
        t = [l for l in t if not re.search(r"(?i)#\s*(if|el|end)", l)]
    if r.random() < .5:
        t.insert(r.randrange(len(t) + 1), r.choice([" .error \"x\"", " foo bar", "#define a 5", " .echo 5/0", "#include \"nofile\"", " .org 5", ".db \"", "#undef a", " .addinstr NOP * 76 1", "a = 9", " .end", "#import \"none\""]))
    return [l for l in t if l.count('"') % 2 == 0 and l.count("'") % 2 == 0]


# a relation takes (r, wk, files, main, lines) and returns (files, main file's lines, where):
# where maps (file, line) of the new program to the (file, line) of the old one

def rel_if(r, wk, files, main, ls):
    if depths(ls) is None:
        raise Skip()
    no, yes = r.choice(["#if 0", "#ifdef nope_q", "#ifndef TRUE", "#if 1-1", "#IF FALSE", "#if 5 < 4"]), r.choice(["#if 1", "#ifndef nope_q", "#ifdef TRUE", "#if 2", "#IF -1", "#if TRUE"])
    el = r.choice(["#elif 1", "#elif 5 = 5"])
    j = lambda: junk(r, wk)
    k = r.randrange(6)
    if k == 0:
        pre, post = [no] + j() + ["#else"], ["#endif"]
    elif k == 1:
        pre, post = [yes], ["#else"] + j() + ["#endif"]
    elif k == 2:
        pre, post = [no] + j() + ["#elif 0"] + j() + [el], [r.choice(["#elif 1/0", "#elif 1", "#elif nope_q"])] + j() + ["#else"] + j() + ["#endif"]
    elif k == 3:
        pre, post = [yes], ["#elif nope_q("] + j() + ["#else"] + j() + ["#endif"]
    elif k == 4:
        pre, post = [no] + j() + [yes] + j() + ["#endif", "#else", yes], ["#endif", "#endif"] if r.random() < .5 else ["#else"] + j() + ["#endif", "#endif"]
    else:
        pre, post = [no] + j() + [no] + j() + ["#else"] + j() + ["#endif"] + j() + ["#endif"], [yes, "#else"] + j() + ["#endif"]
    return files, pre + ls + post, lambda f, n: (f, n - len(pre)) if f == main else (f, n)


def rel_include(r, wk, files, main, ls):
    d = depths(ls)
    if d is None:
        raise Skip()
    files = dict(files)
    back = {}
    n = [0]

    def split(a, b, depth):
        """lines a..b-1 as a list of (line, old number or None)"""
        out, i = [], a
        while i < b:
            if d[i] == 0 and r.random() < (.9 if depth == 0 and i == a else .15) and depth < 4:
                e = r.randrange(i + 1, b + 1)
                while e < b and d[e]:
                    e += 1
                if e == b or not d[e]:
                    n[0] += 1
                    f = r.choice(["zz%d.inc", "zsub/z%d.i", "zdir/z%d", "z z%d.asm"]) % n[0]
                    sub = split(i, e, depth + 1)
                    if sub:
                        nl = r.choice(["\n", "\n", "\r\n"])
                        files[f] = nl.join(x for x, _ in sub) + r.choice([nl, nl, ""] if sub[-1][0] else [nl])
                        for k, (_, o) in enumerate(sub):
                            back[f, k + 1] = o
                        out.append(((r.choice(['#include "%s"', ' #include "%s"', '#INCLUDE "%s" ; x']) % (f if "zdir" not in f or r.random() < .5 else f[5:])), None))
                        i = e
                        continue
            out.append((ls[i], i + 1))
            i += 1
        return out
    new = split(0, len(ls), 0)
    for k, (_, o) in enumerate(new):
        back[main, k + 1] = o

    def where(f, k):
        if (f, k) in back:
            return main, back[f, k]
        return f, k
    where.args = ["-I", "zdir"]
    return files, [x for x, _ in new], where


def rel_names(r, wk, files, main, ls):
    """Definitions of names nobody uses."""
    m = r.choice([1, 10, 50, 300, 2000])
    pre = []
    for i in range(m):
        pre.append(r.choice(["zq_%d = %d", "zQ.%d = $%X", "#define zq_d%d 5+%d", "#define zq_f%d(x) x*%d"]) % (i, r.randrange(1 << 20)))
        if r.random() < .05:
            pre += ["#macro zq_m%d(a,b)" % i, " .db a", "#endmacro"]
        if r.random() < .05:
            pre += ["#define zq_d%d %d" % (i + r.randrange(2), i), "#undef zq_d%d" % i]
        if r.random() < .03:
            pre.append("#undef zq_%d" % i)
    pre.append("zq_last = $7F1234F1")
    return files, pre + ls, lambda f, n: (f, n - len(pre)) if f == main else (f, n)


def rel_case(r, wk, files, main, ls):
    """The other letter case, everywhere but in quotes."""
    new = []
    for l in ls:
        if '"' not in l and "'" not in l and not re.search(r"(?i)#\s*(include|import)|<|>|addinstr|option|[.#]echo|error|show|__bm", l):
            k = r.randrange(3)
            l = l.swapcase() if k == 0 else l.upper() if k == 1 else l
        new.append(l)
    return files, new, lambda f, n: (f, n)


LIT = re.compile(r"(?<=[ ,(+\-*/&|^<>=])\d+(?![\w.'])")


def plain(l):
    return bool(re.match(r"[ \t]+[A-Za-z.]", l)) and "#" not in l and l.count('"') % 2 == 0 and l.count("'") % 2 == 0 and \
        not re.search(r"(?i)\b(buf|wr|run|clr)\s*\(|\.\s*(end|show|option|addinstr|list|nolist|equ)\b|\\[ \t]*[A-Za-z_]\w*\s*[:=]|\\\S*\s*$", l)


def rel_macro(r, wk, files, main, ls):
    """Some statements become the body of macros called in their place."""
    if depths(ls) is None:
        raise Skip()
    new, n, i, hidden = [], 0, 0, 0
    while i < len(ls):
        m = re.match(r"(?i)\s*#\s*(end)?(macro|comment)", ls[i])
        if m:
            hidden += -1 if m.group(1) else 1
        if hidden <= 0 and plain(ls[i]) and r.random() < .5:
            e = i + 1
            while e < len(ls) and plain(ls[e]) and r.random() < .7:
                e += 1
            part, vals = [], []
            for l in ls[i:e]:
                if len(l) < 120 and r.random() < .6 and not re.search(r"(?i)[\"';@]|\bim\b|assume|\)\s*,\s*0|echo|error", l):
                    def lit(m):
                        if len(vals) > 5 or r.random() < .4:
                            return m.group(0)
                        vals.append(m.group(0))
                        return r.choice(["zqp%d", "ZQP%d"] if "-A" not in wk.margs else ["zqp%d"]) % len(vals)
                    w = re.match(r"\s*\S+\s", l)
                    l = l[:w.end()] + LIT.sub(lit, l[w.end() - 1:])[1:] if w else l
                part.append(l)
            n += 1
            name = "zq_m%d" % n
            ps = "(%s)" % r.choice([",", ", "]).join("zqp%d" % (k + 1) for k in range(len(vals))) if vals else ""
            new += ["#macro %s%s" % (name, ps)] + part + ["#endmacro"]
            call = "(%s)" % ",".join(vals) if vals else ""
            if r.random() < .3:
                n += 1
                new += ["#macro zq_m%d%s" % (n, ps), " %s%s" % (name, ps), "#endmacro"]
                name = "zq_m%d" % n
            new.append(" %s%s" % (name if "-A" in wk.margs else r.choice([name, name.upper()]), call))
            i = e
            continue
        new.append(ls[i])
        i += 1
    if not n:
        raise Skip()
    return files, new, None


def rel_buffers(r, wk, files, main, ls):
    d = depths(ls)
    if d is None:
        raise Skip()
    new = []
    i = 0
    while i < len(ls):
        if d[i] == 0 and r.random() < .5:
            e = r.randrange(i + 1, len(ls) + 1)
            while e < len(ls) and d[e]:
                e += 1
            part = ls[i:e]
            esc = [l.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") for l in part]
            if all(len(x) < 230 for x in esc) and not re.search(r"(?i)\b(buf|wr|run|clr)\s*\(|#\s*defcont", "\n".join(part)):
                b = r.randrange(10)
                if r.random() < .5:
                    new.append(" buf(%d)" % b)
                new += [' wr("%s")' % x for x in esc] + [" run()"]
                i = e
                continue
        new.append(ls[i])
        i += 1
    return files, new, None


MNEMONIC = set("""adc add and bit call cp dec djnz in inc jp jr ld or out res rl rlc rr rrc sbc set sla sll sra srl sub xor
db byte dw word dl long""".split())


def own(main):
    """Words the program gives a meaning of its own."""
    return {x.lower() for x in re.findall(r"(?i)#\s*(?:define|macro)\s+([\w.]+)", main)} | {x.lower() for x in re.findall(r"(?i)addinstr\s+(\w+)", main)}


def swap(r, ls, ok, make, bad):
    """Literals of the lines that are ok become what make says."""
    new, n = [], 0
    for l in ls:
        m = re.match(r"[ \t]+\.?([A-Za-z]+)[ \t]+\S", l)
        if m and ok(m.group(1).lower(), l) and r.random() < .7 and not re.search(r"(?i)[\"'@]|\bim\b|\bout\b.*,\s*0\b|assume|option|echo|error|show|addinstr|list|\\[ \t]*[^ \t]", l) \
                and not re.search(bad, l) and len(l) < 150:
            c = l.find(";")
            head, tail = (l, "") if c < 0 else (l[:c], l[c:])

            def lit(x):
                nonlocal n
                if r.random() < .35 or int(x.group(0)) > 1 << 31:
                    return x.group(0)
                n += 1
                return make(x.group(0))
            w = m.end() - 1
            l = head[:w] + LIT.sub(lit, " " + head[w:])[1:] + tail
        new.append(l)
    if not n:
        raise Skip()
    return new


def rel_later(r, wk, files, main, ls):
    """Numbers in operands and data become equates defined before everything or after it."""
    used = own("\n".join(text(v) for v in files.values()))
    pre, post = [], []

    def make(v):
        k = len(pre) + len(post) + 1
        (pre if r.random() < .3 else post).append("zq_e%d %s %s" % (k, r.choice(["=", ".equ"]), v))
        return "zq_e%d" % k if "-A" in wk.margs else r.choice(["zq_e%d", "ZQ_E%d"]) % k
    new = swap(r, ls, lambda w, l: w in MNEMONIC and w not in used, make, r"(?i)\w\(|#")
    if post and (re.search(r"(?i)\.\s*end\b|#\s*comment", "\n".join(ls)) or depths(ls) is None or ls[-1].rstrip().endswith("\\")):
        raise Skip()
    return files, pre + new + post, lambda f, n: (f, n - len(pre)) if f == main else (f, n)


def rel_defines(r, wk, files, main, ls):
    """Numbers become names of #define, or calls of functions, that stand for them."""
    used = own("\n".join(text(v) for v in files.values()))
    pre = ["#define zq_id(x) x", "#define zq_sub(x,y) x-y", "#define zq_add(x,zq_y) zq_y+x", "#define zq_three(a,b,c) (a)+(b)-c"]
    n = [0]

    def make(v):
        n[0] += 1
        k, i = n[0], int(v)
        d = "zq_d%d" % k
        c = r.randrange(9)
        if c == 0:
            pre.append("#define %s %s" % (d, v))
        elif c == 1:
            j = r.choice([0, 1, 5, 1000])
            pre.append("#define %s %d-%d" % (d, i + j, j))
        elif c == 2:
            pre.append("#define %s zq_e%d" % (d, k))
            pre.append("#define zq_e%d %s ; 5" % (k, v))
        elif c == 3:
            pre.extend(["#define %s 77" % d, "#undef %s" % d, "#define %s eval(%d+3)" % (d, i - 3)])
        elif c == 4:
            pre.extend(["#define %s 77" % d, "#define %s %s" % (d, v)])
        elif c == 5:
            return "zq_id(%s)" % v
        elif c == 6:
            j = r.choice([0, 1, 5, 1000])
            return "zq_sub(%d,%d)" % (i + j, j)
        elif c == 7:
            return "zq_add(%d, %d)" % (3, i - 3)
        else:
            return "zq_three(%d,%d,zq_id(%d))" % (i, 9, 9)
        return d if "-A" in wk.margs else r.choice([d, d.upper()])
    new = swap(r, ls, lambda w, l: w not in used and w not in ("macro", "define", "equ", "run", "wr", "buf", "clr", "rst"), make, r"(?i)\w\(|#|=|equ")
    return files, pre + new, lambda f, n: (f, n - len(pre)) if f == main else (f, n)


def places_for(ls):
    """Where whole lines can be put in: not within blocks, quotes, comments or a definition, and before the end."""
    d = depths(ls)
    if d is None:
        raise Skip()
    end = next((i for i, l in enumerate(ls) if re.search(r"(?i)\.\s*end\b", l)), len(ls))
    ok = [i for i in range(end) if d[i] == 0 and not re.match(r"(?i)\s*#\s*defcont", ls[i]) and not (i and ls[i - 1].rstrip().endswith("\\"))]
    if not ok:
        raise Skip()
    return ok


FAULTS = [(" .error \"zq%d\"", ("error", "SE600")), (" .fill zq_no%d", ("error", None)), (" zq_nop%d 5", ("error", "SE113")), (" ld a,b,zq%d", ("error", "SE110")), (" .zq_d%d 7", ("error", "SE113")),
          ("#zq_p%d", ("error", "SE111")), (" .fill 0,zq_no%d", ("error", None)), (" .org %d/0", ("error", "SE203")), (" .fill 0*%d,5 5", ("error", "SE103")), (" .org $FFFFFFFFF%d", ("error", "SE204"))]


WARNINGS = [(" .fill 0,(%d", ("warning", None)), (" .fill 0,((%d)", ("warning", None)), (" .fill 0,zq_w(%d,2)", ("warning", "SW804")), (" .org $+(0*%d", ("warning", None)),
            (" .fill 0,256+%d", ("warning", "SW800"))]


def rel_faults(r, wk, files, main, ls):
    """Faults put in between are reported, each once and at its place, besides everything else."""
    ok = places_for(ls)
    at = sorted(r.choice(ok) for _ in range(r.choice([1, 1, 2, 5, 20])))
    new, back, expect = [], {}, []
    used = own("\n".join(text(v) for v in files.values()))
    if used & {"ld", "fill", "org", "error"}:
        raise Skip()
    kinds = r.choice([FAULTS, WARNINGS])
    if kinds is WARNINGS:
        new.append("#define zq_w(x) x")
    for i, l in enumerate(ls):
        for _ in range(at.count(i)):
            t, k = r.choice(kinds)
            new.append(t % r.randrange(1, 1000 if kinds is FAULTS else 250))
            expect.append((len(new),) + k)
            back[len(new)] = None
        new.append(l)
        back[len(new)] = i + 1

    def where(f, n):
        return (f, back.get(n, n)) if f == main else (f, n)
    where.expect = expect
    where.harmless = kinds is WARNINGS
    return files, new, where


def rel_echo(r, wk, files, main, ls):
    """What is printed in between comes out in its order and changes nothing else."""
    ok = places_for(ls)
    at = sorted(r.choice(ok) for _ in range(r.choice([1, 2, 5, 20])))
    new, back, printed = [], {}, []
    for i, l in enumerate(ls):
        for _ in range(at.count(i)):
            k = len(printed)
            t, p = r.choice([(" .echo \"zq%d\"", "zq%d"), (" .echo \"zq\", %d+0", "zq%d"), (" .ECHO \"z\",\"q\",%d", "zq%d"), (" .echo \"zq\",5-4-1+%d,\" \"", "zq%d "), (" .echo \"zq%d\" ; \"x\"", "zq%d")])
            new.append(t % k)
            printed.append(p % k)
            back[len(new)] = None
        new.append(l)
        back[len(new)] = i + 1

    def where(f, n):
        return (f, back.get(n, n)) if f == main else (f, n)
    where.printed = printed
    return files, new, where


def rel_data(r, wk, files, main, ls):
    """The items of a list on lines or in statements of their own."""
    used = own("\n".join(text(v) for v in files.values()))
    new, back, n = [], {}, 0
    d = depths(ls)
    if d is None:
        raise Skip()
    for i, l in enumerate(ls):
        m = re.match(r"(?i)([ \t]+)\.?(db|dw|dl|byte|word|long)([ \t]+)([^\"'\\;()@]*,[^\"'\\;()@]*)$", l)
        items = m and [x.strip() for x in m.group(4).split(",")]
        if items and all(items) and m.group(2).lower() not in used and r.random() < .8:
            n += 1
            word = l[len(m.group(1)):l.index(m.group(3), len(m.group(1)))]
            if r.random() < .3:
                k = r.randrange(1, len(items))
                parts = [",".join(items[:k]), ",".join(items[k:])]
            else:
                parts = items
            st = [m.group(1) + word + r.choice([" ", "\t"]) + x for x in parts]
            if r.random() < .3 and sum(map(len, st)) < 200:
                st = [" \\".join(st)]
        else:
            st = [l]
        for x in st:
            new.append(x)
            back[len(new)] = i + 1
    if not n:
        raise Skip()

    return files, new, lambda f, n: (f, back.get(n, n)) if f == main else (f, n)


RELS = {"faults": rel_faults, "echo": rel_echo, "data": rel_data, "later": rel_later, "defines": rel_defines, "if": rel_if, "include": rel_include, "names": rel_names, "case": rel_case, "macro": rel_macro, "buffers": rel_buffers}


def codes(m):
    """The reports without their places."""
    return sorted(re.sub(r"'.*'", "''", re.sub(r"^.*?:\d+: ", "", l)) for l in m.split("\n") if re.match(r".*?:\d+: (warning|error)\b", l) and "previous definition" not in l)


def places(m):
    """The reports without their words."""
    return sorted(re.findall(r"(?m)^(.*?:\d+): (warning|error) ?(S[EW]\d+)?", m))


def run(item, wk, kind):
    r = random.Random(item)
    o = wk.obs
    try:
        name, files, args, t = donor(r, wk)
        wk.margs = args
        main = args[-2]
        ls = t.split("\n")
        if kind in ("macro", "defines") and name == "c30" or kind == "case" and "-A" in args or kind == "buffers" and re.search(r"(?i)\b(buf|wr|run|clr)\s*\(", t):
            raise Skip()
        if any(re.search(r"=.*\$", x) for x in args):  # its value in the table of labels is that of the line worked out last
            raise Skip()
        files = {**files, main: t}
        kinds = [kind]
        if kind == "echo" and ("-O" in args or re.search(r"(?i)zq|echo", t)):
            raise Skip()
        if kind not in ("faults", "echo", "data") and r.random() < .3:
            kinds.append(r.choice([x for x in ("if", "names", "include") if x != kind]))
        new, nls, maps, nargs = files, ls, [], list(args)
        for k in kinds:
            new, nls, w = RELS[k](r, wk, new, main, nls)
            if k == kind and nls == ls and new == files:
                raise Skip()
            maps.append(w)
            nargs = getattr(w, "args", []) + nargs
        new = {**new, main: "\n".join(nls) + r.choice(["\n", "\n", ""] if nls[-1].strip() else ["\n"])}
    except Skip:
        o.count("unsuitable")
        return
    a = wk.run(files, args)
    if wk.crashed(a, files, args):
        return
    ao = outputs(a, enc(files))
    if re.search(r"SE11[467]|SE124|nested too|too long|SE102", a.out):
        o.count("unsuitable")
        return
    b = wk.run(new, nargs)
    if wk.crashed(b, new, nargs):
        return
    if "nested too deeply" in b.out:
        return
    bo = outputs(b, enc(new))
    w = maps[0]
    if kind == "faults":
        if a.rc > 2:
            o.count("unsuitable")
            return
        if w.harmless:
            a.rc = max(a.rc, 1)
            if a.rc == 2:
                ao = bo = {}
        else:
            ao = bo = {}
            a.rc = b.rc if b.rc in (2, 3) else 2
    am, bm = messages(a), messages(b)
    loose = None in maps
    if kind in ("later", "echo") and a.rc > 1:
        o.count("unsuitable")
        return

    def moved(m):
        f, l = m.group(1), int(m.group(2))
        k = f.replace("@/c/", "").replace("@/", "").replace("\\", "/")
        if k not in new:
            k = next((x for x in new if k.endswith("/" + x) or k.endswith("/" + os.path.basename(x))), k)
        for w in reversed(maps):
            k2, l = w(k, l)
            if l is None:
                return m.group(0)
            if k2 != k:
                f, k = k2, k2
        return "%s:%s:" % (f, l)
    if loose:
        am, bm = codes(am), codes(bm)
    else:
        bm = re.sub(r"(?m)^([^\s:][^:\n]*):(\d+):", moved, bm)
        if kind == "echo":
            ls = bm.split("\n")
            seen = [l for l in ls if l.startswith("zq")]
            bm = "\n".join(l for l in ls if not l.startswith("zq"))
            o.count("of_other_checks_printed", len(seen))
            if seen != w.printed:
                o.violation("printed-echo", "program of %s: printed %s instead of %s\n%s" % (name, seen, w.printed, b.out[-900:]), new, nargs)
        if kind in ("later", "defines", "faults", "data"):
            am, bm = places(am), places(bm)
        if kind == "faults":
            want = Counter(("%s:%d" % (main, n), k, c or "") for n, k, c in w.expect)
            got = Counter(bm)
            # (what the second pass would have found may be missing now)
            am, bm = sorted((want - got).elements()), sorted((got - want - Counter(am)).elements())
            if am or bm:
                am, bm = "not reported: %s" % am, "reported: %s" % bm
            o.count("of_other_checks_faults", len(w.expect))
        if kind == "case":
            am, bm = am.lower(), bm.lower()
    for x in (ao, bo):
        for k in x:
            if k.endswith(".lab") and x[k] is not None:
                x[k] = b"\n".join(l for l in x[k].split(b"\n") if not l.upper().startswith(b"ZQ"))
    o.evals += 1
    o.count("of_other_checks_" + "+".join(sorted(set(kinds))))
    o.count("of_other_checks_status_%s" % a.rc)
    o.nontrivial((name, tuple(kinds), tuple(ao.values()), repr(am), repr(getattr(w, "expect", 0))))
    if a.rc != b.rc or am != bm or ao != bo:
        dif = [p for p in set(ao) | set(bo) if ao.get(p) != bo.get(p)]
        o.violation("rewritten-" + kind, "program of %s rewritten by %s: status %s\n%s\n-- rewritten: status %s\n%s\n-- files that differ: %s" % (name, kinds, a.rc, str(am)[-900:], b.rc, str(bm)[-900:], dif), new, nargs,
                    extra="\n=====\n".join("%s:\n%s" % kv for kv in files.items() if isinstance(kv[1], str)))
