"""Independent readers for the files spasm writes: strict about every length,
constant and checksum, written from the TI file formats, not from export.cpp."""
import hashlib
import re

TYPES = {"73p": (b"**TI73**", 0x0B, 6), "82p": (b"**TI82**", 0x0B, 6), "83p": (b"**TI83**", 0x0B, 6),
         "8xp": (b"**TI83F*", 0x0D, 6), "8xv": (b"**TI83F*", 0x0D, 0x15), "85p": (b"**TI85**", None, 0x12),
         "86p": (b"**TI86**", 0x0C, 0x12), "85s": (b"**TI85**", None, 0x0C), "86s": (b"**TI86**", 0x0C, 0x0C)}


class Bad(Exception):
    pass


def need(c, *m):
    if not c:
        raise Bad(" ".join(str(x) for x in m))


def le(b):
    return int.from_bytes(b, "little")


def variable(data, ext):
    """-> (name bytes, payload bytes) of a variable file; sizes above 64K wrap and are only checked modulo 65536."""
    sig, hlen, typ = TYPES[ext]
    need(data[:8] == sig, "signature", data[:8], "for", ext)
    need(data[8:11] == (b"\x1a\x0c\0" if ext == "85p" else b"\x1a\x0a\0"), "signature tail", data[8:11])
    need(data[11:53] == b"File generated by spasm".ljust(42, b"\0"), "comment", data[11:53])
    total = le(data[53:55])
    body, ck = data[55:-2], le(data[-2:])
    need(total == len(body) & 0xFFFF, "data section length field", total, "but", len(body), "bytes")
    need(ck == sum(body) & 0xFFFF, "checksum", hex(ck), "but sum", hex(sum(body) & 0xFFFF))
    hl = le(body[0:2])
    size = le(body[2:4])
    need(body[4] == typ, "variable type", body[4])
    p = 5
    if ext in ("85p", "85s", "86p", "86s"):
        nl = body[5]
        p = 6
        need(nl <= 8, "name length", nl)
        if ext in ("85p", "85s"):
            name = body[p:p + nl]
            p += nl
            if ext == "85p":
                need(hl == nl + 6, "header length", hl)
        else:
            name = body[p:p + 8]
            need(name[nl:] == bytes(8 - nl), "name padding", name)
            name = name[:nl]
            p += 8
            need(hl == hlen, "header length", hl)
    else:
        name = body[p:p + 8].rstrip(b"\0")
        p += 8
        if ext in ("8xp", "8xv"):
            need(body[p:p + 2] == b"\0\0", "version and flag", body[p:p + 2])
            p += 2
        need(hl == hlen, "header length", hl)
    need(le(body[p:p + 2]) == size, "second size field")
    p += 2
    var = body[p:]
    need(len(var) & 0xFFFF == size, "size field", size, "but", len(var), "bytes follow")
    need(le(var[:2]) == (len(var) - 2) & 0xFFFF, "inner size", le(var[:2]), "but", len(var) - 2)
    pay = var[2:]
    if ext == "86p":
        need(pay[:2] == b"\x8e\x28", "86 asm token", pay[:2])
        pay = pay[2:]
    elif ext == "82p":
        need(pay[:3] == b"\xd5\x00\x11", "82 token", pay[:3])
        pay = pay[3:]
    elif ext == "83p":
        need(pay[-9:] == b"\x3f\xd4\x3f0000\x3f\xd4", "83 trailer", pay[-9:])
        t = pay[:-9]
        need(re.fullmatch(rb"([0-9A-F]{2})*", t) is not None, "83 hex text")
        pay = bytes.fromhex(t.decode())
    return name, pay


def hexfile(data):
    """-> bytes described by TI Intel hex: pages of 16K at 4000h."""
    need(data.endswith(b":00000001FF"), "end record", data[-14:])
    lines = data[:-len(":00000001FF")].split(b"\r\n")
    need(lines.pop() == b"", "line end before the end record")
    out = bytearray()
    page = -1
    for i, l in enumerate(lines):
        need(re.fullmatch(rb":([0-9A-F]{2})+", l), "record", i, l)
        b = bytes.fromhex(l[1:].decode())
        need(sum(b) & 0xFF == 0, "record checksum", i, l)
        need(len(b) == b[0] + 5, "record length", i, l)
        a = int.from_bytes(b[1:3], "big")
        if b[3] == 2:
            need(b[0] == 2 and a == 0, "page record", l)
            page += 1
            need(int.from_bytes(b[4:6], "big") == page, "page number", l, page)
            need(len(out) == page * 16384, "page", page, "starts after", len(out), "bytes")
        else:
            need(b[3] == 0 and page >= 0, "record type", l)
            need(1 <= b[0] <= 32, "record size", l)
            need(a - 0x4000 == len(out) - page * 16384 and a < 0x8000, "address", l, len(out))
            need(len(out) % 32 == 0, "short record in the middle", l)
            out += b[4:-1]
    return bytes(out)


# ---------------------------------------------------------------- applications
# the public modulus of the freeware signing key (little endian)
N = le(bytes.fromhex("AD2431DA2297E4175EAC61A3154FA3D847115794DD330AB7FF36BA59FEDA195F"
                     "EA7C16743BD7BCED8A0DA885E5E5C34D5BF20D0AB3EF9181ED39BA2C4D898E87"))


def signature_ok(signed, sig, f):
    """Verify the Rabin signature of the bytes as the calculator does: with the public modulus only."""
    h = le(hashlib.md5(signed).digest()) * 256 + 1
    need(0 <= f <= 3, "f", f)
    s2 = sig * sig % N
    want = {0: N - 2 * h, 3: 2 * h, 1: N - h, 2: h}[f] % N
    need(s2 == want, "signature does not verify (f=%d)" % f)


def application(data):
    """-> (header name, app bytes without signature)"""
    need(data[:16] == b"**TIFL**" + bytes([1, 1, 1, 0x88, 1, 1, 0x19, 0x97]), "8xk header", data[:16])
    nl = data[16]
    need(nl <= 8, "name length", nl)
    name = data[17:25]
    need(data[25:48] == bytes(23) and data[48:50] == b"\x73\x24" and data[50:74] == bytes(24), "8xk header fields", data[25:74])
    size = le(data[74:78])
    hx = data[78:]
    need(size == len(hx), "8xk hex size field", size, "but", len(hx))
    app = hexfile(hx)
    need(app[:2] == b"\x80\x0f", "app length field", app[:6])
    n = int.from_bytes(app[2:6], "big") + 6
    need(len(app) == n + 96, "app length field says", n, "but", len(app), "bytes with signature")
    sigarea = app[n:]
    need(sigarea[:2] == b"\x02\x2d", "signature field", sigarea[:3])
    sl = sigarea[2]
    need(0 < sl <= 65, "signature length", sl)
    sig = sigarea[3:3 + sl]
    need(sig[-1] != 0, "signature has a leading zero byte")
    rest = sigarea[3 + sl:]
    if rest[0] == 0:
        f, pad = 0, rest[1:]
    else:
        need(rest[0] == 1, "f length", rest[0])
        f, pad = rest[1], rest[2:]
        need(1 <= f <= 3, "f", f)
    need(pad == b"\xff" * len(pad), "signature padding", pad)
    signature_ok(app[:n], le(sig), f)
    return nl, name, app[:n], f
