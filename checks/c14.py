"""C14: the output file type follows the extension and gives the assembled bytes back."""
import random
from vlib import *
import ticontainer as tc

EXTS = list(tc.TYPES)
CASES = [str.lower, str.upper, str.capitalize, lambda s: s[:2] + s[2:].swapcase()]


def payload(rng, n):
    k = rng.random()
    if k < .5:
        return rng.randbytes(n)
    if k < .7:
        return bytes(n)
    if k < .85:
        return b"\xff" * n
    return bytes(i & 255 for i in range(n))


def basename(rng):
    k = rng.random()
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    n = rng.choice([1, 1, 2, 5, 7, 8, 8, 9, 12, 20])
    s = rng.choice(al) + "".join(rng.choice(al + "0123456789") for _ in range(n - 1))
    if k < .12:
        s = rng.choice("0123456789") + s[1:]
    elif k < .24:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice("_-+.~@") + s[i + 1:]
        if s[0] in "-.":
            s = "x" + s
    return s


def case(item, wk):
    fixed = None
    if isinstance(item, tuple):
        item, fixed = item[0], item[1:]
    rng = random.Random(item)
    o = wk.obs
    kind = rng.choice(EXTS * 3 + ["hex", "hex", "hex", "rom", "bin", "bin", "none", "odd", "dirdot"])
    ez = rng.random() < .25
    r = rng.random()
    if r < .15:
        n = rng.randrange(0, 4)
    elif r < .6:
        n = rng.randrange(4, 600)
    elif r < .75:
        n = rng.choice([12278, 12279, 12282, 12283, 24570, 24571, 24573, 24574, 24576, 24577, 16383, 16384, 16385]) + rng.randrange(-1, 2)
    elif r < .85:
        n = rng.choice([32763, 32764, 32768, 65530, 65531, 65533, 65534, 65536]) + rng.randrange(-2, 3)
    else:
        n = rng.randrange(600, 72000)
    if kind in ("hex", "rom", "bin") and rng.random() < .15:
        n = rng.randrange(70000, 300000)
    if kind == "hex" and rng.random() < .03:
        n = rng.randrange(256 * 16384 - 40, 258 * 16384)
    if kind == "rom" and rng.random() < .3:
        n = rng.choice([524287, 524288, 524289, 600000])
    if fixed:
        kind, n, ez = fixed
    data = payload(rng, n)
    hd = {0: b"\xbb\x6d", 1: b"\xef\x69", 2: b"\xef\x7b", 3: b"\x6d\xbb"}.get(rng.randrange(6))
    if hd and not fixed:
        data = hd + data
    base = basename(rng)
    fn = base
    if kind in EXTS or kind in ("hex", "rom", "bin"):
        fn = base + "." + rng.choice(CASES)(kind)
    elif kind == "odd":
        fn = base + "." + rng.choice(["8x", "8xpp", "obj", "9xp", "com", "z", "8xc", "tex", "b"])
    elif kind == "dirdot":
        fn = "q.8xp/" + base.replace(".", "x")
    elif kind == "none":
        fn = base.replace(".", "x")
    sub = "" if kind == "dirdot" else rng.choice(["", "", "", "sub/", "a.b/c d/"])
    out = sub + fn
    cut = rng.randrange(len(data) + 1) if rng.random() < .3 else len(data)
    src = ' #import "p.bin"\n'
    if cut < len(data):
        src += ' #import "p2.bin"\n'
    files = {"t.asm": src, "p.bin": data[:cut], "p2.bin": data[cut:]}
    d = os.path.dirname(out)
    if d:
        files[d + "/keep"] = b""
    args = ["-N"] + (["-E"] if ez else []) + ["t.asm", out]
    r = wk.run(files, args, timeout=30)
    o.evals += 1
    if wk.crashed(r, files, args):
        return
    got = r.file(out)
    if got is None:
        o.violation("no-output:" + kind, "no output file for %s\n%s" % (out, r.out[-600:]), files, args)
        return
    warn = set()
    size = len(data)
    try:
        if kind in EXTS:
            name, pay = tc.variable(got, kind)
            nm = base.encode()
            if kind == "82p":
                nm = b"\xdc" + nm
            elif kind == "8xv":
                nm = nm[:1].upper() + nm[1:]
            elif kind in ("73p", "83p", "8xp"):
                nm = nm.upper()
            if name != nm[:8]:
                raise tc.Bad("name %r, expected %r" % (name, nm[:8]))
            if kind in ("73p", "83p", "8xp", "8xv"):
                if any(not (chr(c).isalnum()) for c in nm):
                    warn.add("Alphanumeric Only")
                if not 65 <= nm[0] <= 90:
                    warn.add("must be a letter")
            content = {"83p": 2 * size + 9, "86p": size + 2}.get(kind, size) + 2
            if content > 65535:
                warn.add("64KB")
            elif content > 24575 and not ez:
                warn.add("24KB")
            if kind == "8xp":
                if ez and data[:2] != b"\xef\x7b":
                    warn.add("EF 7B")
                if not ez and data[:2] not in (b"\xbb\x6d", b"\xef\x69"):
                    warn.add("BB 6D")
            if content > 65535 + 0:
                o.count("over_64k")
        elif kind == "hex":
            pay = tc.hexfile(got)
        elif kind == "rom":
            pay = got
            tail = 0
            if size < 524288:
                if len(got) != 524288 or got[size:] != b"\xff" * (524288 - size):
                    raise tc.Bad("rom file of %d bytes is not padded with FF to 512K" % len(got))
                pay = got[:size]
        else:
            pay = got
            if kind == "odd":
                warn.add("SW803")
    except tc.Bad as e:
        o.violation("format:" + kind, "%s (%d bytes, -E %s): %s" % (out, size, ez, e), files, args)
        return
    except Exception as e:
        o.violation("format:" + kind, "%s (%d bytes): unreadable: %r" % (out, size, e), files, args)
        return
    if pay != data:
        i = next((i for i in range(min(len(pay), len(data))) if pay[i] != data[i]), min(len(pay), len(data)))
        o.violation("payload:" + kind, "%s: %d bytes back for %d assembled, first difference at %d" % (out, len(pay), len(data), i), files, args)
        return
    # no warning is lost, none is made up
    for w in ("Alphanumeric Only", "must be a letter", "64KB", "24KB", "EF 7B", "BB 6D", "SW803"):
        seen = (w in r.out) or (w in ("64KB", "24KB") and {"64KB": "SW504", "24KB": "SW505"}.get(w, "\0") in r.out)
        if seen != (w in warn):
            o.violation("warning:%s:%s" % (kind, w), "%s (%d bytes, -E %s): warning %r %s\n%s" % (
                out, size, ez, w, "shown" if seen else "missing", r.out[-800:]), files, args)
            return
    if r.rc != (1 if warn else 0):
        o.violation("status:" + kind, "exit status %d with warnings %s\n%s" % (r.rc, sorted(warn), r.out[-800:]), files, args)
        return
    o.nontrivial("%s-%s-%d-%s" % (kind, ez, n.bit_length(), ",".join(sorted(warn))))
    o.count(kind)
    for w in warn:
        o.count("warn " + w)
    o.sample("%s: %d bytes, warnings %s" % (out, size, sorted(warn)), .02)


def others(item, wk):
    """The programs of all generators"""
    import watch
    watch.container(item, wk)


def check(ctx):
    ctx.rule = "distinct (file type, eZ80 mode, magnitude of the size, set of warnings) read back by the independent reader"
    ctx.assumptions = ["the header length byte of 85S strings files is not judged"]
    ctx.build("san")
    edge = []
    for kind in EXTS:  # every size at which a warning or a field changes
        for lim in (24575, 65535):
            k = {"83p": lambda x: (x - 11) // 2, "86p": lambda x: x - 4}.get(kind, lambda x: x - 2)(lim)
            edge += [(kind, k + d, ez) for d in (0, 1) for ez in (False, True)]
        edge += [(kind, n, False) for n in (0, 1, 2, 3, 254, 255, 256, 257)]
    edge += [("hex", n, False) for n in (0, 1, 31, 32, 33, 16383, 16384, 16385, 255 * 16384 + 5, 257 * 16384)]
    edge += [("rom", n, False) for n in (0, 1, 524287, 524288, 524289)]
    ctx.pmap(case, [("%s/e%d/%d" % (ctx.prop, ctx.seed, i),) + e for i, e in enumerate(edge)])
    ctx.pmap(case, ["%s/%d/%d" % (ctx.prop, ctx.seed, i) for i in range(ctx.n(8000, 80000))])
    ctx.pmap(others, ["%s/m%d" % (ctx.seed, i) for i in range(ctx.n(4000, 40000))])
    ctx.finish(400, 60)
