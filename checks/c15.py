"""C15: flash applications get a correct header, page layout and verifiable signature, or are refused."""
import random
from vlib import *
import ticontainer as tc

NEED = ["type", "pages", "name"]


def field(rng, kind):
    if kind == "type":
        return bytes([0x80, 0x12, 1, 4])
    if kind == "pages":
        return bytes([0x80, 0x81, rng.randrange(256)])
    if kind == "name":
        n = rng.choice([1, 2, 5, 7, 8, 8, 9, 12, 15])
        return bytes([0x80, 0x40 | n]) + bytes(rng.choice(b"ABCxyz 019") for _ in range(n))
    # some other field: build number, date stamp, disable TI splash, lowest basecode, expiry, ...
    while True:
        b = rng.choice([0x21, 0x31, 0x90, 0x91, 0x02, 0x05, 0x0A, 0xA1, 0xC2, 0x13, 0x14, 0x82, 0x53, 0x6F]) if rng.random() < .7 else rng.randrange(256)
        if b != 0x12 and b != 0x81 and b & 0xF0 != 0x40:
            return bytes([0x80, b]) + rng.choice([rng.randbytes(b & 15), (b"\x80\x12\x01\x04\x80\x81\x01\x80\x44abcd")[:b & 15].ljust(b & 15, b"\x80")])


def first(app, pred):
    """Offset of the data of the first header field whose id byte satisfies pred."""
    p = 6
    while p + 1 < len(app) and app[p] == 0x80:
        if pred(app[p + 1]):
            return p + 2
        p += 2 + (app[p + 1] & 15)
    return None


def case(item, wk):
    fixed = None
    if isinstance(item, tuple):
        item, fixed = item
    rng = random.Random(item)
    o = wk.obs
    kinds = list(NEED)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        kinds.append(rng.choice(["other", "other", "other", "name", "pages", "type"]))
    rng.shuffle(kinds)
    drop = None
    if not fixed and rng.random() < .3:
        drop = rng.choice(NEED + ["length", "badtype", "order"])
    if drop in NEED:
        kinds = [k for k in kinds if k != drop]
    if rng.random() < .1 and not drop:
        kinds.append(rng.choice(NEED))
    hdr = b"\x80\x0f" + rng.randbytes(4)
    for k in kinds:
        f = field(rng, k)
        if k == "type" and drop == "badtype":
            f = bytes([0x80, 0x12]) + rng.choice([b"\1\5", b"\1\1", b"\2\4", b"\0\4", b"\4\1", b"\1\0"])
        hdr += f
    if drop == "length":
        hdr = rng.choice([b"\x80\x0e", b"\x0f\x80", b"\x00\x0f", b"\x81\x0f", b"\x80\x00"]) + hdr[2:]
    if drop == "order":  # a byte that is no field ends the header: nothing behind it is found
        cut = 6
        ks = list(kinds)
        n = rng.randrange(len(ks))
        p = 6
        for _ in range(n):
            p += 2 + (hdr[p + 1] & 15)
        hdr = hdr[:p] + bytes([rng.choice([0, 0x7F, 0x81, 0xC3])]) + hdr[p:]
    k = rng.random()
    if fixed:
        n = fixed
    elif k < .5:
        n = rng.randrange(len(hdr) + 2, 3000)
    elif k < .9:
        n = rng.choice([1, 1, 1, 2, 3, 7]) * 16384 + rng.choice([-97, -96, -95, -1, 0, 1, 2, 100, 926, 927, 928, 929, 1023, 1024, -600, -5000]) + rng.randrange(-1, 2)
    else:
        n = rng.randrange(3000, 80000)
    body = b"\0" + rng.randbytes(max(0, n - len(hdr) - 1)) if rng.random() < .7 else bytes(max(1, n - len(hdr)))
    app = hdr + body
    n = len(app)
    files = {"t.asm": ' #import "app.bin"\n', "app.bin": app}
    out = rng.choice(["app.8xk", "APP.8XK", "x.8Xk"])
    args = ["-N", "t.asm", out]
    r = wk.run(files, args, timeout=30)
    o.evals += 1
    if wk.crashed(r, files, args):
        return
    # what must happen
    over = (n + 96) % 16384
    want = None
    tp = first(app, lambda b: b == 0x12)
    pg = first(app, lambda b: b == 0x81)
    nm = first(app, lambda b: b & 0xF0 == 0x40)
    bad = set()
    if 0 < over < 97 and n > 16384 - 96:
        bad.add("SE505")
    if app[:2] != b"\x80\x0f":
        bad.add("SE501")
    if tp is None or app[tp:tp + 2] != b"\1\4":
        bad.add("SE502")
    if pg is None:
        bad.add("SE503")
    if nm is None:
        bad.add("SE504")
    got = r.file(out)
    codes = set(re.findall(r"\b(S[EW]\d\d\d)\b", r.out))
    if bad:
        if r.rc not in (2, 3) or len(codes & bad) == 0 or (codes - bad - {"SW802"}):
            o.violation("refuse:" + ",".join(sorted(bad)), "%d bytes, header %s: exit %s, codes %s, expected one of %s\n%s" % (
                n, hdr.hex(), r.rc, codes, bad, r.out[-600:]), files, args)
        elif got:
            o.violation("refuse-output:" + ",".join(sorted(bad)), "refused application was written (%d bytes)" % len(got), files, args)
        else:
            for b in bad:
                o.count("refused " + b)
            o.nontrivial("refuse %s %d" % (sorted(bad), n // 4096))
        return
    if got is None:
        o.violation("no-output", "%d bytes, header %s: nothing written\n%s" % (n, hdr.hex(), r.out[-600:]), files, args)
        return
    small = over < 1024 and over and n + 96 >= 16384
    try:
        nl, name, signed, f = tc.application(got)
        ln = app[nm - 1] & 15
        want = app[nm:nm + min(8, ln)]
        if nl != len(want) or name != want.ljust(8, b"\0"):
            raise tc.Bad("name %r length %d, application field says %r" % (name, nl, want))
        if signed[pg] != (n + 16383) // 16384:
            raise tc.Bad("pages byte %d for %d bytes" % (signed[pg], n))
        exp = bytearray(app)
        exp[2:6] = (n - 6).to_bytes(4, "big")
        exp[pg] = (n + 16383) // 16384
        if signed != bytes(exp):
            i = next((i for i in range(min(n, len(signed))) if signed[i] != exp[i]), -1)
            raise tc.Bad("contents: %d bytes for %d, first difference at %d" % (len(signed), n, i))
    except tc.Bad as e:
        o.violation("app", "%d bytes, header %s: %s" % (n, hdr.hex(), e), files, args)
        return
    except Exception as e:
        o.violation("app", "%d bytes, header %s: unreadable %r" % (n, hdr.hex(), e), files, args)
        return
    if (codes != ({"SW802"} if small else set())) or r.rc != (1 if small else 0):
        o.violation("status", "%d bytes: exit %s codes %s, small last page: %s\n%s" % (n, r.rc, codes, small, r.out[-600:]), files, args)
        return
    o.count("signed f=%d" % f)
    o.count("pages %d" % ((n + 16383) // 16384))
    o.nontrivial("%d %d %s" % (f, n // 4096, kinds))
    o.sample("%d bytes, header %s: signature verified (f=%d)" % (n, hdr[:40].hex(), f), .03)


def check(ctx):
    ctx.rule = "one evaluation = one application either read back with every header field, checksum and the Rabin signature verified, or refused for the expected reason; distinct = (signature case, size class, header fields)"
    ctx.build("san")
    edge = [p * 16384 + d for p in (1, 2, 3) for d in (-98, -97, -96, -95, -94, -2, -1, 0, 1, 2, 926, 927, 928, 929, 1024)]
    ctx.pmap(case, [("%s/e%d" % (ctx.seed, i), e) for i, e in enumerate(edge)])
    rng = random.Random("%s/big" % ctx.seed)
    big = [1 << 17, (1 << 17) + 50000, 150000, 300000, 1 << 20, (1 << 20) + 200000, 255 * 16384 - 2000] + [rng.randrange(100000, 4000000) for _ in range(ctx.n(40, 200))]
    ctx.pmap(case, [("%s/g%d" % (ctx.seed, i), e) for i, e in enumerate(big)])
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(6000, 50000))])
    ctx.finish(500, 60)
