"""Monitors that watch the programs of all generators: what is reported about a program (listing, counts, symbol table,
container) must agree with the bytes it assembles to."""
import random
import re
import ticontainer as tc
from c17 import parse as records
from c16 import parse as table
from c21 import REP, STAT
from meta import Skip, donor, own, places_for, text
from vlib import *

RAW = "zz.bin"


def first(item, wk, bad):
    """A program of some generator and the raw bytes it assembles to."""
    r = random.Random(item)
    try:
        name, files, args, t = donor(r, wk, bad)
    except Skip:
        wk.obs.count("unsuitable")
        return None
    args = [a for a in args if a not in ("-O", "-L")]
    if args[-1] in files or "-N" not in args:
        args = ["-N"] + args
    args[-1] = RAW
    x = wk.run(files, args)
    if wk.crashed(x, files, args):
        return None
    b = x.file(RAW)
    if x.rc not in (0, 1) or b is None:
        wk.obs.count("unsuitable")
        return None
    return r, name, files, args, b, x


def extra(files):
    return "\n=====\n".join("%s:\n%s" % kv for kv in files.items() if isinstance(kv[1], str))


def listing(item, wk):
    o = wk.obs
    g = first(item, wk, r"(?i)\b(seek|nolist|list)\b|__line|__file|-V|\b(run|wr)\s*\(")
    if not g:
        return
    r, name, files, args, b, x = g
    if len(b) > 200000:
        o.count("too long")
        return
    la = ["-T"] + args
    y = wk.run(files, la)
    if wk.crashed(y, files, la):
        return
    lst = y.file(RAW[:-3] + "lst")
    o.evals += 1
    if y.file(RAW) != b or y.rc != x.rc or lst is None:
        o.violation("others-output", "with -T the status is %s, the output %s (without: %s)" % (y.rc, "the same" if y.file(RAW) == b else "different", x.rc), files, la)
        return
    recs, bad = records(lst, y)
    if recs is None:
        o.violation("others-format", bad, files, la)
        return
    if b"".join(q[3] for q in recs) != b:
        o.violation("others-bytes", "program of %s: listed bytes %s\noutput %s" % (name, b"".join(q[3] for q in recs).hex()[:900], b.hex()[:900]), files, la)
        return
    src = {k: text(v).replace("\r\n", "\n").split("\n") for k, v in files.items()}
    last = {}
    for q in recs:
        f = (q[0] or args[-2].encode()).decode("latin1").replace("\\", "/")
        k = f if f in src else next((z for z in src if f.endswith("/" + z) or f.endswith("/" + os.path.basename(z)) or f == os.path.basename(z)), None)
        if k is None or not 0 < q[1] <= len(src[k]):
            o.violation("others-line", "program of %s: record %r of %s" % (name, q[5], f), files, la)
            return
        if src[k][q[1] - 1].rstrip() != q[4].decode("latin1").rstrip():
            o.violation("others-text", "program of %s: record %r but line %d of %s is %r" % (name, q[5], q[1], k, src[k][q[1] - 1]), files, la)
            return
        last[k] = max(last.get(k, 0), q[1])
    ns = [q[1] for q in recs if (q[0] or args[-2].encode()).decode("latin1") == args[-2]]
    o.nontrivial((name, b, len(recs)))
    o.count("of_other_checks_records", len(recs))
    if ns and not re.search(r"(?i)\.\s*end\b", text(files[args[-2]])) and sorted(set(ns)) != list(range(1, max(ns) + 1)):
        o.violation("others-missing", "program of %s: lines listed of %s: %s" % (name, args[-2], ns), files, la)


def stats(item, wk):
    o = wk.obs
    g = first(item, wk, r"(?i)\b(seek|bm|addinstr)\b|__bm|#\s*import|-V|\.bmp")
    if not g:
        return
    r, name, files, args, b, x = g
    sa = ["-S", "-C"] + args
    y = wk.run(files, sa)
    if wk.crashed(y, files, sa):
        return
    m, s = REP.search(y.out), STAT.search(y.out)
    o.evals += 1
    if not m or not s or y.rc != x.rc or y.file(RAW) != b:
        o.violation("others-report", "program of %s: status %s, without -C -S %s, reports %s %s, output %s" % (name, y.rc, x.rc, bool(m), bool(s), y.file(RAW) == b), files, sa)
        return
    size, lo, hi = map(int, m.groups())
    lab, de, code, data, total = map(int, s.groups())
    o.nontrivial((name, size, lo, hi, data))
    o.count("of_other_checks_programs")
    if total != len(b) or code + data != total or size != code or not size <= 4 * lo or lo > hi:
        o.violation("others-counts", "program of %s: %d bytes, code %d, data %d, total %d; counter: size %d, min %d, max %d" % (name, len(b), code, data, total, size, lo, hi), files, sa)


def container(item, wk):
    o = wk.obs
    g = first(item, wk, r"-V")
    if not g:
        return
    r, name, files, args, b, x = g
    ext = r.choice(list(tc.TYPES) + ["hex", "rom", "bin"])
    out = r.choice(["Q", "prog", "LONGNAME9", "a.b/c"]) + "." + r.choice([ext, ext.upper()])
    ca = args[:-1] + [out]
    cf = {**files, "a.b/keep": b""}
    y = wk.run(cf, ca)
    if wk.crashed(y, cf, ca):
        return
    o.evals += 1
    got = y.file(out)
    if got is None:
        o.violation("others-no-output", "program of %s: no %s\n%s" % (name, out, y.out[-600:]), cf, ca)
        return
    try:
        if ext in tc.TYPES:
            nm, pay = tc.variable(got, ext)
        elif ext == "hex":
            pay = tc.hexfile(got)
        elif ext == "rom":
            pay = got[:len(b)]
            if len(got) != max(524288, len(b)) or got[len(b):].strip(b"\xff"):
                raise tc.Bad("padding")
        else:
            pay = got
    except Exception as e:
        o.violation("others-format:" + ext, "program of %s: %r" % (name, e), cf, ca)
        return
    o.nontrivial((name, ext, b))
    o.count("of_other_checks_" + ext)
    if pay != b:
        o.violation("others-payload:" + ext, "program of %s: %d bytes back for %d assembled\n%s\n%s" % (name, len(pay), len(b), pay.hex()[:400], b.hex()[:400]), cf, ca)
    strip = lambda v: [l for l in v.split("\n") if not re.search(r"SW50|SW803|exporter|Assembly time", l)]
    if strip(x.out.replace(RAW, "*")) != strip(y.out.replace(out, "*")) and "__" not in extra(files):
        o.violation("others-messages:" + ext, "program of %s:\n%s\n-- as %s\n%s" % (name, x.out[-900:], out, y.out[-900:]), cf, ca)


def labels(item, wk):
    """The table is well formed, sorted and without doubles; every entry used in a program of its own gives its value."""
    o = wk.obs
    g = first(item, wk, r"-V")
    if not g:
        return
    r, name, files, args, b, x = g
    la = ["-L"] + args
    y = wk.run(files, la)
    if wk.crashed(y, files, la):
        return
    lab = y.file(RAW[:-3] + "lab")
    o.evals += 1
    if y.file(RAW) != b or y.rc != x.rc or lab is None:
        o.violation("others-output", "with -L the status is %s, the output %s (without: %s)" % (y.rc, "the same" if y.file(RAW) == b else "different", x.rc), files, la)
        return
    t, bad = table(lab)
    if t is None:
        o.violation("others-format", "program of %s: %r" % (name, bad), files, la)
        return
    ns = [n for n, v in t]
    key = (lambda s: s) if "-A" in args else str.upper
    if len({key(n) for n in ns}) != len(ns):
        o.violation("others-doubles", "program of %s: %s" % (name, [n for n in ns if ns.count(n) > 1]), files, la)
    # what the table says is what the program's own statements get for the name at its end
    d = dict(t)
    use = [n for n in d if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", n) and len(n) < 60]
    r.shuffle(use)
    main = args[-2]
    src = text(files[main])
    if not use or re.search(r"(?i)\.\s*end\b|#\s*(un|macro|comment)", src) or not re.search(r"[^\s\\]\s*\n$", src) or src.rstrip().endswith("\\") \
            or any("$" in x for x in args) or re.search(r"(?i)#\s*define[^\n]*\$(?![0-9a-f])", "\n".join(text(v) for v in files.values())):
        o.count("not extended")
        return
    use = use[:20]
    if len(b) > 7900000:
        return
    add = "".join(" .dl %s&$FFFFFF, (%s)>>24\n" % (n, n) for n in use)
    new = {**files, main: src + add}
    z = wk.run(new, args)
    if wk.crashed(z, new, args):
        return
    zb = z.file(RAW)
    if z.rc == 3 and zb is None and re.search("SE115|nested too", z.out):
        o.count("not extended")
        return
    o.nontrivial((name, tuple(use), b))
    if zb is None or len(zb) < 6 * len(use):
        o.violation("others-extended", "program of %s with uses of its names appended: status %s\n%s" % (name, z.rc, z.out[-900:]), new, args)
        return
    tail = zb[-6 * len(use):]
    for i, n in enumerate(use):
        v = int.from_bytes(tail[6 * i:6 * i + 3], "little") | (tail[6 * i + 3] << 24)
        o.count("of_other_checks_values")
        if v != int(d[n], 16) & 0xFFFFFFFF:
            o.violation("others-value", "program of %s: the table has %s = $%s, a use of it gives $%X" % (name, n, d[n], v), new, args)
            return


def addresses(item, wk):
    """Labels put in between: what a use of them gives before and after is the address the listing has for their line."""
    o = wk.obs
    r = random.Random(item)
    try:
        name, files, args, t = donor(r, wk, r"(?i)\b(seek|nolist|list)\b|__line|__file|-V|\b(run|wr)\s*\(|zq_")
        ls = t.split("\n")
        ok = places_for(ls)
        if re.search(r"(?i)\.\s*end\b|#\s*comment", t) or ls[-1].rstrip().endswith("\\") or "dl" in own("\n".join(text(v) for v in files.values())):
            raise Skip()
    except Skip:
        o.count("unsuitable")
        return
    at = sorted(r.choice(ok) for _ in range(r.choice([1, 3, 10])))
    new, n = [], 0
    for i, l in enumerate(ls):
        for _ in range(at.count(i)):
            new.append("zq_l%d%s" % (n, r.choice([":", "", ": ; x"])))
            n += 1
        new.append(l)
    use = ["zq_l%d" % i for i in range(n)]
    before, after = r.sample(use, r.randrange(n + 1)), use[:]
    r.shuffle(after)
    lists = lambda us: [" .dl " + u for u in us] if r.random() < .5 else [" .dl " + ",".join(us)] if us else []
    new = lists(before) + new + lists(after)
    main = args[-2]
    nf = {**files, main: "\n".join(new) + "\n"}
    args = [a for a in args if a not in ("-O", "-L", "-N", "-T")]
    la = ["-N", "-T"] + args[:-1] + [RAW]
    y = wk.run(nf, la)
    if wk.crashed(y, nf, la):
        return
    b, lst = y.file(RAW), y.file(RAW[:-3] + "lst")
    if y.rc not in (0, 1) or b is None or lst is None or len(b) > 200000:
        o.count("unsuitable")
        return
    recs, bad = records(lst, y)
    if recs is None:
        o.violation("others-format", bad, nf, la)
        return
    addr = {}
    for q in recs:
        m = re.match(rb"(zq_l\d+)[: ;x]*$", q[4])
        if m:
            addr[m.group(1).decode()] = q[2]
    val = lambda k: int.from_bytes(b[k:k + 3], "little")
    mask = 0xFFFFFF if "-E" in la else 0xFFFF
    o.evals += 1
    o.nontrivial((name, b))
    o.count("of_other_checks_programs")
    for us, k in ((before, 0), (after, len(b) - 3 * n)):
        for u in us:
            o.count("of_other_checks_uses")
            if u not in addr or val(k) & mask != addr[u] & mask:
                o.violation("others-address", "program of %s: %s is listed at %s, a use %s gives %X" % (name, u, addr.get(u) and "%X" % addr[u], "before it" if us is before else "after it", val(k)), nf, la)
                return
            k += 3
