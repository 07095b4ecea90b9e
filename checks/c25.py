"""C25: pictures - the bytes, the mask, the header and the labels #include makes of a bitmap."""
import random
import re
import struct
from vlib import *


def shade(c, n):
    lum = ((0.2126 / 255.0) * c[0]) + ((0.7152 / 255.0) * c[1]) + ((0.0722 / 255.0) * c[2])
    return max(0, int((0.99 - lum) * n))


def safe(c):
    """the shade of the colour doesn't depend on rounding"""
    lum = (0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]) / 255.0
    return all(abs((0.99 - lum) * n - round((0.99 - lum) * n)) > 1e-6 for n in (2, 4, 8, 16, 32, 64, 128, 256))


def full5(v):
    return v * 255 // 31


def colour(r, bpp):
    while True:
        k = r.random()
        if bpp == 16:
            c = tuple(full5(r.randrange(32)) for _ in range(3)) if k < .7 else tuple(full5(r.choice([0, 31])) for _ in range(3))
        elif k < .5:
            c = tuple(r.randrange(256) for _ in range(3))
        elif k < .7:
            c = (r.randrange(256),) * 3
        else:
            c = r.choice([(0, 0, 0), (255, 255, 255), (0, 255, 0), (255, 0, 0), (0, 0, 255), (255, 0, 255), (1, 254, 0), (254, 254, 254)])
        if safe(c):
            return c


class Picture:
    def __init__(self, r, w, h, bpp=None):
        self.w, self.h = w, h
        self.bpp = bpp = bpp or r.choice([1, 4, 8, 8, 24, 24, 16, 32])
        if bpp < 16:
            n = r.choice([0, 0, r.randrange(1, (1 << bpp) + 1)])
            self.used = n
            pal = [colour(r, bpp) for _ in range(n or 1 << bpp)]
            few = [r.randrange(1 << bpp if r.random() < .15 else len(pal)) for _ in range(r.choice([2, 3, 5, 16]))]
            idx = [[r.choice(few) if r.random() < .6 else r.randrange(len(pal)) for _ in range(w)] for _ in range(h)]
            self.px = [[pal[i] if i < len(pal) else (255, 255, 255) for i in row] for row in idx]
            rows = []
            for row in idx:
                v, b = 0, bytearray()
                bits = "".join(format(i, "0%db" % bpp) for i in row)
                fill = r.choice("01")
                bits += fill * (-len(bits) % 32)
                rows.append(int(bits, 2).to_bytes(len(bits) // 8, "big"))
            self.palette = b"".join(bytes((c[2], c[1], c[0], 0)) for c in pal)
        else:
            self.used = 0
            pal = [colour(r, bpp) for _ in range(r.choice([2, 4, 20]))]
            self.px = [[r.choice(pal) if r.random() < .7 else colour(r, bpp) for _ in range(w)] for _ in range(h)]
            rows = []
            for row in self.px:
                b = bytearray()
                for c in row:
                    if bpp == 16:
                        b += struct.pack("<H", (r.choice([0, 0x8000])) | -(-c[0] * 31 // 255) << 10 | -(-c[1] * 31 // 255) << 5 | -(-c[2] * 31 // 255))
                    else:
                        b += bytes((c[2], c[1], c[0])) + (bytes((r.choice([0, 255, r.randrange(256)]),)) if bpp == 32 else b"")
                b += bytes(r.choice([0, 255]) for _ in range(-len(b) % 4))
                rows.append(bytes(b))
            self.palette = b""
        data = b"".join(reversed(rows))
        off = 54 + len(self.palette)
        tail = r.choice([b"", b"", b"", b"junk\xff"])
        self.bytes = (b"BM" + struct.pack("<IHHI", off + len(data), 0, 0, off)
                      + struct.pack("<IiiHHIIiiII", 40, w, h, 1, bpp, 0, r.choice([0, len(data)]), r.choice([0, 2835]), 0, self.used, r.choice([0, self.used])) + self.palette + data + tail)
        self.colours = sorted({c for row in self.px for c in row})

    def out(self, s, x0=0, y0=0, w=None, h=None):
        """-> bytes written for a part of it (x0,y0 from the top left)"""
        w, h = w or self.w, h or self.h
        minw = s.get("MIN_W", -1)
        strips = [(x0, w)]
        if 0 < minw < w:
            strips = [(x0 + i, min(minw, w - i)) for i in range(0, w, minw)]
        res = []
        n = s["SHD"]
        for xs, ws in strips:
            wide = (max(ws, minw) + 7) // 8 * 8
            img, mask = [], []
            for y in range(y0, y0 + h):
                a, m = [0] * wide, [1] * wide
                for x in range(ws):
                    c = self.px[y][xs + x]
                    if s.get("INV_RGB") == c:
                        a[x] = n - 1
                    else:
                        a[x] = shade(c, n)
                        m[x] = int(c == s["MSK_RGB"])
                img.append(a)
                mask.append(m)

            def pack(rows):
                return b"".join(int("".join(map(str, row)), 2).to_bytes(wide // 8, "big") for row in rows)
            layers = b"".join(pack([[v >> i & 1 for v in row] for row in img]) for i in range(n.bit_length() - 2, -1, -1))
            mb = b""
            if s.get("MSK"):
                mb = pack([[v ^ 1 if s.get("MSK_INV") else v for v in row] for row in mask])
            res.append(mb + layers if s.get("MSK_1ST") else layers + mb)
        return b"".join(res)


def header(s, w, h, size):
    """-> bytes, warnings"""
    if not s.get("HDR") or not s.get("HDR_FMT"):
        return b"", 0
    b, warn = b"", 0
    for t in s["HDR_FMT"]:
        t = t.lower()
        if t in ("w", "h", "s"):
            v = {"w": w, "h": h, "s": size}[t]
            warn += v > 255
            b += bytes((v & 255,))
        elif t == "b":
            b += bytes((s["SHD"] & 255,))
        elif t in ("ww", "hh", "ss"):
            b += struct.pack("<H", {"ww": w, "hh": h, "ss": size}[t] & 0xFFFF)
        else:
            b += b"\0"
            warn += 1
    return b, warn


def rgb(r, c):
    return r.choice(["RGB(%d, %d, %d)" % c, "RGB(%d,%d,%d)" % c, "$%02X%02X%02X" % c, "%d" % (c[0] << 16 | c[1] << 8 | c[2]), "rgb(%d,%d,%d)" % c])


def malformed(r):
    w, h, bpp = r.randrange(1, 40), r.randrange(1, 12), r.choice([1, 4, 8, 24])
    p = Picture(r, w, h, bpp)
    b = bytearray(p.bytes)
    k = r.randrange(8)
    if k == 0:
        return bytes(b[:r.randrange(14, 54)]), "short header"
    if k == 1:
        need = 54 + len(p.palette) + ((w * bpp + 31) // 32 * 4) * h
        return bytes(b[:r.randrange(54, need)]), "short data"
    if k == 2:
        b[14:18] = struct.pack("<I", r.choice([12, 0, 108, 124, 64]))
        return bytes(b), "other header"
    if k == 3:
        b[30:34] = struct.pack("<I", r.choice([1, 2, 3]))
        return bytes(b), "compressed"
    if k == 4:
        b[28:30] = struct.pack("<H", r.choice([0, 2, 3, 5, 64, 65535]))
        return bytes(b), "bits per pixel"
    if k == 5:
        b[18:22] = struct.pack("<i", r.choice([0, -1, -2147483648, 70000, 2147483647]))
        return bytes(b), "width"
    if k == 6:
        b[22:26] = struct.pack("<i", r.choice([0, -8, -2147483648, 70000, 2147483647]))
        return bytes(b), "height"
    b[46:50] = struct.pack("<I", r.choice([257, 100000, 0xFFFFFFFF]))
    return bytes(b), "palette"


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    s = {"SHD": 2, "MSK_RGB": (0, 255, 0)}
    lines, out, files, warns, errors, args = [], b"", {}, {}, {}, []
    org = r.choice([0, 0x4000, 0x9D95])
    lines.append(" .org $%x" % org)
    checks = []          # (name, value)

    def val(n):
        return r.choice(["#define __BM_%s 1", "#define __BM_%s", "#define __BM_%s 2-1"]) % n
    for i in range(r.choice([1, 1, 2, 3])):
        # settings
        w, h = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 40, 96, r.randrange(1, 120)]), r.choice([1, 2, 3, 8, 16, 64, r.randrange(1, 40)])
        if r.random() < .06:
            w, h = r.choice([(300, 3), (256, 2), (255, 5), (3, 300), (4, 256), (260, 260), (128, 128)])
        cols = rows = None
        s.pop("MAP", None)
        pad = s.get("PAD", 0)
        if r.random() < .35:
            if r.random() < .5:
                pad = r.choice([0, 1, 2])
                lines.append("#define __BM_PAD %d" % pad)
                s["PAD"] = pad
            cols, rows = r.randrange(1, 6), r.randrange(1, 5)
            iw, ih = r.choice([1, 4, 8, 9, 12, 16, 20]), r.choice([1, 3, 5, 8])
            w, h = cols * (iw + 2 * pad), rows * (ih + 2 * pad)
        p = Picture(r, w, h)
        name = "p%d.bmp" % i if r.random() < .8 else "pics/P %d.BMP" % i
        files[name] = p.bytes
        setn = r.random()
        if setn < .7:
            n = r.choice([2, 2, 2, 4, 4, 4, 8, 16, 32, 64, 128, 256, 1])
            if n != s["SHD"] or r.random() < .3:
                s["SHD"] = n
                lines.append("#define __BM_SHD %d" % n)
        for f in ("MSK", "MSK_INV", "MSK_1ST", "HDR"):
            if r.random() < .4:
                if s.get(f) and r.random() < .7:
                    s.pop(f)
                    lines.append(r.choice(["#undef __BM_%s", "#define __BM_%s 0"]) % f)
                else:
                    s[f] = 1
                    lines.append(val(f))
        if r.random() < .4:
            c = r.choice(p.colours + [(255, 0, 255)])
            s["MSK_RGB"] = c
            lines.append("#define __BM_MSK_RGB " + rgb(r, c))
        if r.random() < .3:
            c = r.choice(p.colours)
            s["INV_RGB"] = c
            lines.append("#define __BM_INV_RGB " + rgb(r, c))
        elif "INV_RGB" in s and r.random() < .5:
            s.pop("INV_RGB")
            lines.append("#undef __BM_INV_RGB")
        if r.random() < .35:
            s["MIN_W"] = r.choice([8, 16, 24, 5, 12, 64, 1])
            lines.append("#define __BM_MIN_W %d" % s["MIN_W"])
        elif "MIN_W" in s and r.random() < .5:
            s.pop("MIN_W")
            lines.append("#undef __BM_MIN_W")
        if (s.get("HDR") and "HDR_FMT" not in s) or r.random() < .2:
            fmt = [r.choice(["w", "h", "ww", "hh", "b", "s", "ss", "W", "HH", "Ss"] + (["q"] if r.random() < .05 else [])) for _ in range(r.randrange(1, 7))]
            s["HDR_FMT"] = fmt
            lines.append("#define __BM_HDR_FMT " + r.choice([",", " ", "x", ", "]).join(fmt))
        if cols:
            count = r.choice([None, None, r.randrange(1, cols * rows + 3)])
            s["MAP"] = 1
            sep = r.choice([",", ", ", " ", "x"])
            lines.append("#define __BM_MAP %d%s%d%s" % (cols, sep, rows, "" if count is None else "," + str(count)))
        # the label
        lab = r.choice(["pic%d" % i, "Pic_%d" % i, None, "off%d" % i])
        used = None
        if lab:
            lines.append(lab + r.choice(["", ":"]))
            used = lab
            if lab.startswith("off"):
                lines.append(" nop")
                out += b"\0"
                used = None
            elif r.random() < .2:
                lines.append("; note")
        elif i == 0:
            pass
        else:
            lines.append(" nop")            # (the last label is elsewhere)
            out += b"\0"
        if r.random() < .1:
            bad, why = malformed(r)
            files["bad%d.bmp" % i] = bad
            lines.append('#include "bad%d.bmp"' % i)
            errors[len(lines)] = why
            o.count("malformed")
            if used:
                used, lab = None, None
                lines.append(" nop")
                out += b"\0"
        lines.append('#%s "%s"' % (r.choice(["include", "include", "INCLUDE"]), name))
        at = len(lines)
        if not cols:
            b = p.out(s)
            hb, wn = header(s, w, h, len(b))
            out += hb + b
            if used:
                checks += [(lab + "_WIDTH", w), (lab + "_HEIGHT", h)]
            warns[at] = wn
        else:
            warns[at] = 0
            k = 0
            for cx in range(cols):
                for ry in range(rows):
                    if count is not None and k >= count:
                        break
                    k += 1
                    if used:
                        checks.append((lab + str(k), org + len(out)))
                    b = p.out(s, cx * (iw + 2 * pad) + pad, ry * (ih + 2 * pad) + pad, iw, ih)
                    hb, wn = header(s, iw, ih, len(b))
                    warns[at] += wn
                    out += hb + b
            o.count("map_images", k)
            if used:
                checks += [(lab + "_WIDTH", iw), (lab + "_HEIGHT", ih), (lab + "_COUNT", k)]
        o.count("bpp_%d" % p.bpp)
        if r.random() < .2:
            lines += ["#if 0", '#include "%s"' % name, '#include "nosuch.bmp"', "#endif"]
        if r.random() < .15:
            # once more, without the map
            lines.append(" nop")
            lines.append('#include "%s"' % name)
            b = p.out(s)
            hb, warns[len(lines)] = header(s, w, h, len(b))
            out += b"\0" + hb + b
    for n, v in checks:
        lines.append(" .dw %s" % r.choice([n, n.upper(), n.lower()]))
        out += struct.pack("<H", v & 0xFFFF)
    files["t.asm"] = "\n".join(lines) + "\n"
    args = ["-N"] + (["-T"] if r.random() < .1 else []) + ["t.asm", "t.bin"]
    x = wk.run(files, args)
    if wk.crashed(x, files, args):
        return
    o.evals += 1
    o.nontrivial(out)
    want = 2 if errors else 1 if any(warns.values()) else 0
    errs = sorted(int(l) for l in re.findall(r"(?m)^t\.asm:(\d+): error", x.out))
    if errs != sorted(errors):
        o.violation("errors", "errors on lines %s, expected %s\n%s" % (errs, errors, x.out[-900:]), files, args)
        return
    ws = {}
    for l in re.findall(r"(?m)^t\.asm:(\d+): warning", x.out):
        ws[int(l)] = ws.get(int(l), 0) + 1
    if ws != {k: v for k, v in warns.items() if v}:
        o.violation("warnings", "warnings %s, expected %s\n%s" % (ws, warns, x.out[-900:]), files, args)
        return
    if x.rc != want:
        o.violation("status", "exit status %s, expected %s\n%s" % (x.rc, want, x.out[-900:]), files, args)
        return
    got = x.file("t.bin")
    if got != out:
        got = got or b""
        i = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
        o.violation("bytes", "%d bytes, expected %d; first difference at %d: %s, expected %s" % (len(got), len(out), i, got[i:i + 8].hex(), out[i:i + 8].hex()), files, args)
        return
    o.count("labels", len(checks))
    o.count("bytes", len(out))
    o.sample({"text": files["t.asm"][:300], "bytes": len(out)})


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program with one to six bitmaps whose output, messages and status were compared with the model; distinct = distinct outputs"
    ctx.assumptions = ["2, 4, 8 or 16 shades", "maps divide the picture evenly", "colours whose shade hangs on rounding are not used"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(6000, 60000))])
    ctx.finish(minimum=1500, min_distinct=1000)
