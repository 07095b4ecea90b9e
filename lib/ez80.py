"""eZ80 additions to the Z80 set (Zilog UM0077 opcode maps) and mode suffixes."""
import re
import z80

SUFFIX = {".s": None, ".l": None, ".is": None, ".il": None,
          ".sis": 0x40, ".lis": 0x49, ".sil": 0x52, ".lil": 0x5B}


def suffix_byte(sfx, adl):
    """Prefix byte for a suffix: 40=SIS 49=LIS 52=SIL 5B=LIL; the short forms take the missing half from ADL."""
    s = sfx.lower().lstrip(".")
    if s in ("s", "l"):
        L, IL = s == "l", adl
    elif s in ("is", "il"):
        L, IL = adl, s == "il"
    else:
        L, IL = s[0] == "l", s[1:] == "il"
    return 0x40 + 9 * (L + 2 * IL), L, IL


def table():
    t = []
    drop = re.compile(r"^(sll|sl1)\b|^(rlc|rrc|rl|rr|sla|sra|srl) \w,\(i|^(res|set) [bcdehla],\d|^in f,\(c\)|^out \(c\),0")
    for s, b in z80.table():
        if s in ("ld b,b", "ld c,c", "ld d,d", "ld e,e"):
            continue  # 40/49/52/5B are the mode prefixes
        if not drop.search(s):
            t.append((s, b))
            if re.match(r"in \w,\(c\)$|out \(c\),\w$", s):
                t.append((s.replace("(c)", "(bc)"), b))

    def a(s, *b):
        t.append((s, list(b)))
    for i, r in enumerate(["bc", "de", "hl", "sp"]):
        a("mlt " + r, 0xED, 0x4C + 16 * i)
    for i, r in enumerate(["b", "c", "d", "e", "h", "l", "(hl)", "a"]):
        a("tst a," + r, 0xED, 4 + 8 * i)
        if r != "(hl)":
            a("in0 %s,({n})" % r, 0xED, 8 * i, "n")
            a("out0 ({n}),%s" % r, 0xED, 1 + 8 * i, "n")
    for f in ("f,", ""):
        a("in %s(c)" % f, 0xED, 0x70); a("in %s(bc)" % f, 0xED, 0x70); a("in0 %s({n})" % f, 0xED, 0x30, "n")
    a("tst a,{n}", 0xED, 0x64, "n"); a("tstio {n}", 0xED, 0x74, "n")
    a("slp", 0xED, 0x76); a("stmix", 0xED, 0x7D); a("rsmix", 0xED, 0x7E)
    a("ld mb,a", 0xED, 0x6D); a("ld a,mb", 0xED, 0x6E); a("ld i,hl", 0xED, 0xC7); a("ld hl,i", 0xED, 0xD7)
    for m, o in dict(inim=0x82, inimr=0x92, indm=0x8A, indmr=0x9A, otim=0x83, otimr=0x93, otdm=0x8B, otdmr=0x9B,
                     ini2=0x84, ini2r=0x94, ind2=0x8C, ind2r=0x9C, outi2=0xA4, oti2r=0xB4, outd2=0xAC, otd2r=0xBC,
                     inirx=0xC2, indrx=0xCA, otirx=0xC3, otdrx=0xCB).items():
        a(m, 0xED, o)
    a("pea ix{d}", 0xED, 0x65, "d"); a("pea iy{d}", 0xED, 0x66, "d")
    for i, r in enumerate(["bc", "de", "hl"]):
        a("lea %s,ix{d}" % r, 0xED, 0x02 + 16 * i, "d"); a("lea %s,iy{d}" % r, 0xED, 0x03 + 16 * i, "d")
    a("lea ix,ix{d}", 0xED, 0x32, "d"); a("lea ix,iy{d}", 0xED, 0x54, "d")
    a("lea iy,ix{d}", 0xED, 0x55, "d"); a("lea iy,iy{d}", 0xED, 0x33, "d")
    for r, l, s in (("bc", 7, 0xF), ("de", 0x17, 0x1F), ("hl", 0x27, 0x2F), ("ix", 0x37, 0x3F), ("iy", 0x31, 0x3E)):
        a("ld %s,(hl)" % r, 0xED, l); a("ld (hl),%s" % r, 0xED, s)
        a("ld %s,(ix{d})" % r, 0xDD, l, "d"); a("ld (ix{d}),%s" % r, 0xDD, s, "d")
    for r, l, s in (("bc", 7, 0xF), ("de", 0x17, 0x1F), ("hl", 0x27, 0x2F), ("iy", 0x37, 0x3F), ("ix", 0x31, 0x3E)):
        a("ld %s,(iy{d})" % r, 0xFD, l, "d"); a("ld (iy{d}),%s" % r, 0xFD, s, "d")
    return t
