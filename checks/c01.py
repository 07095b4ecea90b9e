"""C01: whatever the input, no sanitizer report, no abnormal end, a status of 0 to 3."""
import glob
import importlib
import random
import re
import struct
from vlib import *

DONORS = [("c02", "batch2", lambda i: (i, 30)), ("c02", "errors", str), ("c03", "batch", lambda i: (i, [int(x, 36) % 900 for x in hashlib.md5(i.encode()).hexdigest()[::2]])),
          ("c04", "batch", lambda i: (i, [int(x, 36) % 900 for x in hashlib.md5(i.encode()).hexdigest()[::2]])),
          ("c05", "case", str), ("c06", "case", str), ("c07", "case", str), ("c08", "case", str), ("c09", "case", str), ("c10", "case", str), ("c11", "split_case", str),
          ("c11", "search_case", str), ("c11", "import_case", str), ("c12", "case", str), ("c13", "case", str), ("c13", "bad", str), ("c14", "case", str), ("c15", "case", str),
          ("c16", "case", str), ("c17", "case", str), ("c18", "case", str),
          ("c20", "case", str), ("c21", "case", str), ("c22", "case", str), ("c23", "case", str), ("c24", "case", str), ("c25", "case", str), ("c27", "case", str), ("c30", "case", str), ("c31", "case", str), ("c32", "case", str)]
EXT = ["bin", "8xp", "8xv", "82p", "83p", "73p", "85p", "86p", "85s", "86s", "8xk", "hex", "rom", "zzz"]
NAMES = ["a", "b2", "lab", "x", "y", "mac", "mac2", "fn", "str", "_", "k9", "long_name.with.dots", "hl", "__BM_SHD", "TRUE", "Later"]
DIRS = [".db", ".dw", ".dl", ".byte", ".word", ".long", ".org", ".fill", ".block", ".addinstr", ".echo", ".error", ".list", ".nolist", ".equ", "equ", ".show", ".option", ".seek",
        ".assume", ".end", ".ascii", ".", "=", "db", "dw", "org"]
PRE = ["#define", "#include", "#if", "#ifdef", "#ifndef", "#else", "#elif", "#endif", "#undef", "#undefine", "#comment", "#endcomment", "#macro", "#endmacro", "#import", "#defcont",
       "#region", "#endregion", "#", "# if", "#DEFINE", "#Macro"]
OPS = ["ld", "ld a,", "ld hl,", "ld (hl),", "jr", "jr nz,", "djnz", "call", "ret", "bit", "set 7,", "rst", "in a,(", "out (", "push", "ex af,af'", "ld (ix+", "ld (iy-", "add hl,", "im", "ld.lil hl,",
       "ld.sis (ix+1),", "lea ix,", "pea", "nop", "ldir", "sub", "jp (", "inc", "dec (ix", "call.is", "jp.s"]
SPC = ["\\", ";", ",", "(", ")", "\"", "'", "+", "-", "++_", "--_", "+_", "-_", "_", "<<", ">>", "&&", "||", "<=", ">=", "==", "!=", "!", "~", "*", "/", "%", "^", "&", "|", "<", ">", "$", ":", "[", "]", "{", "}",
       "?", ".", "..", "\\n", "\\\"", "\\#", "'\\#'", "\\x", "\t", " ", "  ", "'('", "')'", "'a", "\"abc", "\"a\\", "\"a;b\"", "\"a\\\\\"", "\"%d\"", "%s%n", "\0", "\xff", "\x80", "\x1b"]
NUM = ["0", "1", "-1", "7", "8", "127", "128", "255", "256", "-128", "-129", "65535", "65536", "$FFFF", "$", "$$", "%101", "%2", "%", "101b", "0ffh", "ffh", "0xff", "12d", "2147483647", "2147483648",
       "-2147483648", "4294967295", "4294967296", "99999999999999999999", "'a'", "1q", "0.5", "1e9", "$8000", "100"]
CALL = ["eval(", "concat(", "getc(", "rgb(", "buf(", "clr()", "wr(", "run()", "fn(", "mac(", "mac2(", "fcreate(", "eval()", "concat()", "wr()", "buf()", "getc()", "run(", "clr("]
FILES = ["\"t.asm\"", "\"u.inc\"", "u.inc", "\"p.bmp\"", "\"d.bin\"", "<u.inc>", "\"none\"", "\"sub/u.inc\"", "\"sub\\u.inc\"", "\"", "\"\"", "\".\"", "\"sub\"", "'u.inc'", "u.inc,", "\"p.bmp\", pic"]


def token(r):
    k = r.random()
    if k < .2:
        return r.choice(NUM)
    if k < .4:
        return r.choice(NAMES)
    if k < .65:
        return r.choice(SPC)
    if k < .73:
        return r.choice(OPS)
    if k < .81:
        return r.choice(DIRS)
    if k < .88:
        return r.choice(PRE)
    if k < .95:
        return r.choice(CALL)
    return r.choice(FILES)


def expr_(r, d=0):
    k = r.random()
    if d > 4 or k < .4:
        return r.choice(NUM if r.random() < .5 else NAMES)
    if k < .7:
        return expr_(r, d + 1) + r.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "<", ">", "&&", "||", " + ", "+-"]) + expr_(r, d + 1)
    if k < .85:
        return "(" + expr_(r, d + 1) + r.choice([")", ")", ")", "", "))"])
    return r.choice(CALL) + ",".join(expr_(r, d + 1) for _ in range(r.randrange(3))) + r.choice([")", ")", ")", ""])


def line(r):
    k = r.random()
    e = lambda: expr_(r)
    if k < .1:
        return r.choice(NAMES) + r.choice([":", "", " = " + e(), " .equ " + e(), " nop", "(" + e() + ")"])
    if k < .25:
        return " " + r.choice(OPS) + " " + e() + r.choice(["", ")", "," + e(), ",a", " \\ nop"])
    if k < .45:
        return " " + r.choice(DIRS) + " " + r.choice([e(), e() + "," + e(), '"' + "".join(r.choice(SPC + NAMES) for _ in range(3)) + '"', '"a' + e() + '",' + e(), "adl=" + e(), "> \"e.txt\" " + e(), "\"f %d\"," + e(),
                                                      r.choice(NAMES) + " " + "0123456789ABCDEF"[:r.randrange(17)] + " " + r.choice(NUM), "LD A,*D 0A 1 NOP 1 0 0", "QQ * 12 1 NOP 1", "QQ \"\" 99 1 ZIX 1", "*"])
    if k < .7:
        n = r.choice(NAMES)
        return r.choice(PRE) + " " + r.choice([e(), n, n + " " + e(), n + "(x,y) " + e(), n + "(" + e() + ") " + r.choice(NAMES), n + " " + r.choice(CALL) + e() + ")", n + " \"s\"", r.choice(FILES), n + "(x,y)",
                                               n + "(x) x " + r.choice(OPS), n + "(", n + "()", n + " " + r.choice(OPS) + e()])
    if k < .78:
        return " " + r.choice(NAMES + ["clr", "run", "wr", "buf"]) + "(" + ",".join(e() for _ in range(r.randrange(4))) + r.choice([")", ")", ")", "", ") nop"])
    if k < .8:
        return r.choice(["(", "-", "\"", "1+", "a", "\\ ", "#if 1\n", " .db ", ",", "mac(", "eval("]) * r.choice([20, 60, 255, 256, 300, 1030, 5000])
    return r.choice(["", " "]) + r.choice(["", " "]).join(token(r) for _ in range(r.randrange(1, 9)))


def soup(r):
    ls = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 15, 30])):
        k = r.random()
        if k < .08:
            ls += ["#macro %s(x,y)" % r.choice(NAMES)] + [line(r) for _ in range(r.randrange(4))] + (["#endmacro"] if r.random() < .93 else [])
        elif k < .16:
            ls += ["#if " + expr_(r)] + [line(r) for _ in range(r.randrange(3))] + (["#else", line(r)] if r.random() < .4 else []) + ["#endif"]
        elif k < .2:
            ls += [" buf(1)", " wr(\"" + line(r).replace('"', "'")[:400] + "\")", " run(1)"]
        else:
            ls.append(line(r))
    nl = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
    return nl.join(ls) + r.choice(["", nl])


def bitmap(r):
    bpp = r.choice([1, 4, 8, 24, 24, 2, 16, 32, 0, 65535])
    w, h = r.choice([0, 1, 7, 8, 9, 16, 96, 255, -1, 70000]), r.choice([0, 1, 2, 8, 64, -8, 70000])
    row = ((abs(w) * bpp + 31) // 32 * 4) & 0xFFFF
    data = r.randbytes(min(row * abs(h), 20000))
    pal = r.randbytes(4 << min(bpp, 8)) if bpp <= 8 else b""
    off = 54 + len(pal)
    if r.random() < .2:
        off = r.choice([0, 14, off + 1, 1 << 20, 0xFFFFFFFF, 54])
    hd = b"BM" + struct.pack("<IHHI", 54 + len(pal) + len(data), 0, 0, off & 0xFFFFFFFF)
    ih = struct.pack("<IiiHHIIiiII", r.choice([40, 40, 40, 40, 12, 0, 108]), w, h, 1, bpp, r.choice([0, 0, 0, 1, 3]), len(data), 0, 0, r.choice([0, 0, 1 << (bpp & 7), 256, 1 << 31]), 0)
    b = hd + ih + pal + data
    if r.random() < .2:
        b = b[:r.randrange(len(b) + 1)]
    if r.random() < .2 and b:
        b = bytearray(b)
        for _ in range(r.randrange(1, 6)):
            b[r.randrange(min(len(b), 60))] = r.choice([0, 1, 0xff, 0x80, r.randrange(256)])
        b = bytes(b)
    return b


def mutate(r, t, other):
    """Structure-aware and blind edits of a source text."""
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k = r.random()
        i = r.randrange(len(t) + 1)
        if k < .2:
            ms = list(re.finditer(r"[A-Za-z_.#0-9$]+|[^\sA-Za-z0-9]", t))
            if ms:
                m = r.choice(ms)
                t = t[:m.start()] + (token(r) if r.random() < .7 else "") + t[m.end():]
        elif k < .35:
            t = t[:i] + token(r) + t[i:]
        elif k < .45:
            t = t[:i] + t[i + r.choice([1, 1, 2, 5, 20]):]
        elif k < .5:
            t = t[:i]
        elif k < .6:
            ls = t.split("\n")
            a = r.randrange(len(ls))
            op = r.randrange(4)
            if op == 0:
                del ls[a]
            elif op == 1:
                ls.insert(a, ls[r.randrange(len(ls))])
            elif op == 2:
                b = r.randrange(len(ls))
                ls[a], ls[b] = ls[b], ls[a]
            else:
                ls.insert(a, line(r))
            t = "\n".join(ls)
        elif k < .7:
            ol = other.split("\n")
            a = r.randrange(len(ol))
            b = a + r.randrange(1, 12)
            t = t[:i] + "\n" + "\n".join(ol[a:b]) + "\n" + t[i:]
        elif k < .78:
            t = t[:i] + chr(r.choice([0, 9, 10, 13, 26, 127, 128, 255, 34, 39, 92, 40, 41, 44, 35])) + t[i + r.randrange(2):]
        elif k < .86:
            j = min(len(t), i + r.choice([1, 3, 10, 40]))
            t = t[:j] + t[i:j] * r.choice([1, 2, 10, 100]) + t[j:]
        elif k < .93:
            t = re.sub(r"\b\d+\b", lambda m: r.choice(NUM) if r.random() < .2 else m.group(0), t)
        else:
            t = t[:i] + r.choice(["x", "(", "-", "\"", "\\", "1", "'", " ", ",", "#"]) * r.choice([32, 64, 128, 255, 256, 257, 1024, 4097]) + t[i:]
    return t[:60000]


class Captured(Exception):
    pass


class Donor:
    """Poses as a worker for another check's case function and takes its program."""

    def __init__(self, ctx, wdir):
        self.ctx, self.wdir, self.obs, self.got = ctx, wdir, Obs(), None

    def run(self, files, args, **k):
        self.got = (dict(files), list(args))
        raise Captured()

    def crashed(self, *a):
        return False


def donated(r, wk):
    for _ in range(5):
        name, fn, arg = r.choice(DONORS)
        try:
            m = importlib.import_module(name)
            f = getattr(m, fn)
        except ImportError:
            continue
        d = Donor(wk.ctx, wk.wdir)
        try:
            f(arg("%x" % r.getrandbits(40)), d)
        except Captured:
            return name, d.got[0], d.got[1]
    return None


def options(r, files):
    a = []
    for o, p in (("-E", .3), ("-T", .4), ("-L", .4), ("-C", .25), ("-S", .15), ("-A", .2), ("-O", .08), ("-N", .5)):
        if r.random() < p:
            a.append(o)
    while r.random() < .2:
        a.append("-D" + r.choice(["X", "X=5", "X=\"s\"", "a=lab+1", "=1", "", "mac=nop", "fn(x)=x", "A=", "L" * 300 + "=1", "x=" + "1+" * 200, "x=(", "k9=\"\\"]))
    while r.random() < .15:
        a += r.choice([["-I", "sub"], ["-I", "sub;none"], ["-I", ",;"], ["-I", ""], ["-I", "s" * 300], ["-I", "sub,sub/x"]])
    k = r.random()
    if k < .04:
        return a + ["-V", line(r).replace("\0", "")] + r.choice([[], ["o.bin"]])
    if k < .06:
        return a + [r.choice(["-", "-x", "--", "-H", "-I", "-D", "-V", "t.asm"])]
    out = "n" * r.choice([1, 3, 8, 9, 40]) + r.choice([".", "."]) + r.choice(EXT)
    return a + ["t.asm"] + r.choice([[out], [out], [out], [out], [], ["t"], ["sub/" + out]])


_REPO = None


def repo_texts():
    global _REPO
    if _REPO is None:
        _REPO = []
        for p in sorted(glob.glob(os.path.join(REPO, "tests", "*.asm")) + glob.glob(os.path.join(REPO, "tests", "bugs", "*.asm"))):
            _REPO.append(open(p, "rb").read().decode("latin1"))
        for p in sorted(glob.glob(os.path.join(REPO, "inc", "*.inc"))):
            t = open(p, "rb").read().decode("latin1")
            _REPO.append(t[:40000])
    return _REPO or [" nop\n"]


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    k = r.random()
    files = {"u.inc": " .db 1,2\n", "d.bin": bytes(range(40)), "sub/u.inc": " nop\n"}
    args = None
    if k < .3:
        kind, t = "soup", soup(r)
    elif k < .42:
        kind, t = "repo", mutate(r, r.choice(repo_texts()), r.choice(repo_texts()))
    elif k < .5:
        kind = "bitmap"
        t = "".join("#define %s %s\n" % (r.choice("__BM_SHD __BM_MSK_RGB __BM_HDR __BM_HDR_FMT __BM_MSK __BM_MASK __BM_MSK_1ST __BM_MSK_INV __BM_INV_RGB __BM_MIN_W __BM_PAD __BM_MAP".split()),
                                        r.choice(["", "1", "2", "4", "255", "-1", "\"W,H\"", "\"WHS\"", "rgb(1,2,3)", "100000", "lab", "\"01234567\"", "x,W", "0"])) for _ in range(r.randrange(5)))
        t += "%s#include \"p.bmp\"%s\n" % (r.choice(["", "pic", "pic: ", "p "]), r.choice(["", "", " ; c", ", x"]))
    else:
        g = donated(r, wk)
        if g is None:
            kind, t = "soup", soup(r)
        else:
            kind = "from-" + g[0]
            files.update(g[1])
            main = [n for n in g[1] if not isinstance(g[1][n], bytes)]
            args = g[2]
            if not main:
                return
            n = r.choice(main)
            other = soup(r) if r.random() < .5 else r.choice(repo_texts())
            files[n] = mutate(r, g[1][n], other)
            t = None
            if r.random() < .3 and args:
                args = options(r, files)[:-2] + args if not any(x == "-V" for x in args) else args
    if t is not None:
        files["t.asm"] = t
    if "bitmap" == kind or r.random() < .05:
        files["p.bmp"] = bitmap(r)
    if args is None:
        args = options(r, files)
    args = [a.replace("\0", "") for a in args]
    fl = "memcheck" if r.random() < .05 else "san"
    # macros that call themselves several times may legitimately take exponential time
    open_ended = re.search(r"(?i)#\s*(macro|define|defcont|include)|-D|\brun\b", " ".join(x if isinstance(x, str) else "" for x in files.values()) + " ".join(args))
    if wk.ctx.hangs is not None and open_ended:
        r2 = limited(wk, files, args, fl)
    else:
        r2 = wk.run(files, args, flavour=fl, timeout=20 if fl == "san" else 60)
    if r2 is None:
        o.count("stopped_open_ended")
        return
    o.evals += 1
    o.count(kind)
    if wk.crashed(r2, files, args):
        return
    if r2.rc not in (0, 1, 2, 3):
        o.violation("status:%s" % r2.rc, "exit status %s\n%s" % (r2.rc, r2.out[-600:]), files, args)
        return
    o.count("status_%d" % r2.rc)
    o.nontrivial((r2.rc, tuple(sorted(set(re.findall(r"S[EW]\d\d\d", r2.out)))), kind, len(r2.out) > 400))
    o.sample({"kind": kind, "args": args, "status": r2.rc, "text": files.get("t.asm", "")[:200] if isinstance(files.get("t.asm", ""), str) else ""})


def limited(wk, files, args, fl):
    """Run once; a time-out is no verdict (None)."""
    d = os.path.join(wk.wdir, "c")
    if not os.path.isdir(d):
        os.makedirs(d)
    else:
        wipe(d)
    put(d, files)
    r = spawn(wk.ctx.exes[fl], args, d, timeout=10 if fl == "san" else 40)
    wk.obs.count("runs_" + fl)
    return None if r.timed_out else r


def check(ctx):
    ctx.build("san", "memcheck")
    ctx.rule = ("one evaluation = one assembler run on a generated, mutated or spliced program with random options, watched by ASan+UBSan (every twentieth by memcheck instead) for any report, "
                "for its exit status and for termination; distinct = distinct (kind of input, status, set of diagnostics codes)")
    ctx.assumptions = ["runs of programs whose macros, defines or includes re-expand without bound may be cut off after 10 s without a verdict",
                       "uninitialised values are looked for by memcheck in every twentieth run: an instrumented C++ library for MSan is not installed"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(8000, 150000))])
    ctx.finish(minimum=ctx.n(6000, 100000), min_distinct=300)
