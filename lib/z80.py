"""Z80 instruction set, written down from the structure of the opcode space
(x/y/z/p/q decoding), independently of the assembler's own tables.
Entries: (text, bytes) with operand placeholders in text: {n} 8 bit, {nn} 16 bit,
{d} index displacement, {e} relative target; in bytes: 'n','l','h','d','e'."""
R = ["b", "c", "d", "e", "h", "l", "(hl)", "a"]
RP = ["bc", "de", "hl", "sp"]
RP2 = ["bc", "de", "hl", "af"]
CC = ["nz", "z", "nc", "c", "po", "pe", "p", "m"]
ALU = [("add", "a,"), ("adc", "a,"), ("sub", ""), ("sbc", "a,"), ("and", ""), ("xor", ""), ("or", ""), ("cp", "")]
ROT = ["rlc", "rrc", "rl", "rr", "sla", "sra", "sll", "srl"]


def table():
    t = []

    def a(s, *b):
        t.append((s, list(b)))
    # x = 0
    a("nop", 0); a("ex af,af'", 8); a("djnz {e}", 0x10, "e"); a("jr {e}", 0x18, "e")
    for i in range(4):
        a("jr %s,{e}" % CC[i], 0x20 + 8 * i, "e")
    for i, r in enumerate(RP):
        a("ld %s,{nn}" % r, 1 + 16 * i, "l", "h")
        a("add hl,%s" % r, 9 + 16 * i)
        a("inc %s" % r, 3 + 16 * i); a("dec %s" % r, 0xB + 16 * i)
    a("ld (bc),a", 2); a("ld (de),a", 0x12); a("ld a,(bc)", 0xA); a("ld a,(de)", 0x1A)
    a("ld ({nn}),hl", 0x22, "l", "h"); a("ld hl,({nn})", 0x2A, "l", "h")
    a("ld ({nn}),a", 0x32, "l", "h"); a("ld a,({nn})", 0x3A, "l", "h")
    for i, r in enumerate(R):
        a("inc %s" % r, 4 + 8 * i); a("dec %s" % r, 5 + 8 * i); a("ld %s,{n}" % r, 6 + 8 * i, "n")
    for i, m in enumerate(["rlca", "rrca", "rla", "rra", "daa", "cpl", "scf", "ccf"]):
        a(m, 7 + 8 * i)
    # x = 1
    for i, r in enumerate(R):
        for j, s in enumerate(R):
            if i == 6 and j == 6:
                a("halt", 0x76)
            else:
                a("ld %s,%s" % (r, s), 0x40 + 8 * i + j)
    # x = 2
    for i, (m, p) in enumerate(ALU):
        for j, r in enumerate(R):
            a("%s %s%s" % (m, p, r), 0x80 + 8 * i + j)
        a("%s %s{n}" % (m, p), 0xC6 + 8 * i, "n")
    # x = 3
    for i, c in enumerate(CC):
        a("ret %s" % c, 0xC0 + 8 * i); a("jp %s,{nn}" % c, 0xC2 + 8 * i, "l", "h"); a("call %s,{nn}" % c, 0xC4 + 8 * i, "l", "h")
    for i, r in enumerate(RP2):
        a("pop %s" % r, 0xC1 + 16 * i); a("push %s" % r, 0xC5 + 16 * i)
    a("ret", 0xC9); a("exx", 0xD9); a("jp (hl)", 0xE9); a("ld sp,hl", 0xF9)
    a("jp {nn}", 0xC3, "l", "h"); a("call {nn}", 0xCD, "l", "h")
    a("out ({n}),a", 0xD3, "n"); a("in a,({n})", 0xDB, "n")
    a("ex (sp),hl", 0xE3); a("ex de,hl", 0xEB); a("di", 0xF3); a("ei", 0xFB)
    for i in range(8):
        a("rst $%02X" % (8 * i), 0xC7 + 8 * i)
    # CB
    for i, m in enumerate(ROT):
        for j, r in enumerate(R):
            a("%s %s" % (m, r), 0xCB, 8 * i + j)
    for k, m in enumerate(["bit", "res", "set"]):
        for b in range(8):
            for j, r in enumerate(R):
                a("%s %d,%s" % (m, b, r), 0xCB, 0x40 + 0x40 * k + 8 * b + j)
    # ED
    for i, r in enumerate(R):
        if r != "(hl)":
            a("in %s,(c)" % r, 0xED, 0x40 + 8 * i); a("out (c),%s" % r, 0xED, 0x41 + 8 * i)
    for i, r in enumerate(RP):
        a("sbc hl,%s" % r, 0xED, 0x42 + 16 * i); a("adc hl,%s" % r, 0xED, 0x4A + 16 * i)
        if r != "hl":
            a("ld ({nn}),%s" % r, 0xED, 0x43 + 16 * i, "l", "h"); a("ld %s,({nn})" % r, 0xED, 0x4B + 16 * i, "l", "h")
    a("neg", 0xED, 0x44); a("retn", 0xED, 0x45); a("reti", 0xED, 0x4D)
    a("im 0", 0xED, 0x46); a("im 1", 0xED, 0x56); a("im 2", 0xED, 0x5E)
    a("ld i,a", 0xED, 0x47); a("ld r,a", 0xED, 0x4F); a("ld a,i", 0xED, 0x57); a("ld a,r", 0xED, 0x5F)
    a("rrd", 0xED, 0x67); a("rld", 0xED, 0x6F)
    for i, (x, y, z, v) in enumerate([("ldi", "cpi", "ini", "outi"), ("ldd", "cpd", "ind", "outd"),
                                      ("ldir", "cpir", "inir", "otir"), ("lddr", "cpdr", "indr", "otdr")]):
        for j, m in enumerate([x, y, z, v]):
            a(m, 0xED, 0xA0 + 8 * i + j)
    # DD / FD
    for ix, p in (("ix", 0xDD), ("iy", 0xFD)):
        for i, r in enumerate(["bc", "de", ix, "sp"]):
            a("add %s,%s" % (ix, r), p, 9 + 16 * i)
        a("ld %s,{nn}" % ix, p, 0x21, "l", "h"); a("ld ({nn}),%s" % ix, p, 0x22, "l", "h"); a("ld %s,({nn})" % ix, p, 0x2A, "l", "h")
        a("inc %s" % ix, p, 0x23); a("dec %s" % ix, p, 0x2B)
        a("pop %s" % ix, p, 0xE1); a("push %s" % ix, p, 0xE5); a("ex (sp),%s" % ix, p, 0xE3); a("jp (%s)" % ix, p, 0xE9); a("ld sp,%s" % ix, p, 0xF9)
        m = "(%s{d})" % ix
        a("inc " + m, p, 0x34, "d"); a("dec " + m, p, 0x35, "d"); a("ld %s,{n}" % m, p, 0x36, "d", "n")
        for i, r in enumerate(R):
            if r != "(hl)":
                a("ld %s,%s" % (r, m), p, 0x46 + 8 * i, "d"); a("ld %s,%s" % (m, r), p, 0x70 + i, "d")
        for i, (n, q) in enumerate(ALU):
            a("%s %s%s" % (n, q, m), p, 0x86 + 8 * i, "d")
        for i, n in enumerate(ROT):
            a("%s %s" % (n, m), p, 0xCB, "d", 8 * i + 6)
        for k, n in enumerate(["bit", "res", "set"]):
            for b in range(8):
                a("%s %d,%s" % (n, b, m), p, 0xCB, "d", 0x40 + 0x40 * k + 8 * b + 6)
        for j, r in enumerate(R):
            if r != "(hl)":  # undocumented: result copied to a register
                for i, n in enumerate(ROT):
                    a("%s %s,%s" % (n, r, m), p, 0xCB, "d", 8 * i + j)
                for k, n in enumerate(["res", "set"]):
                    for b in range(8):
                        a("%s %s,%d,%s" % (n, r, b, m), p, 0xCB, "d", 0x80 + 0x40 * k + 8 * b + j)
        # undocumented halves
        h, l = ix + "h", ix + "l"
        for i, (n, q) in enumerate(ALU):
            a("%s %s%s" % (n, q, h), p, 0x84 + 8 * i); a("%s %s%s" % (n, q, l), p, 0x85 + 8 * i)
        for x, o in ((h, 0), (l, 8)):
            a("inc " + x, p, 0x24 + o); a("dec " + x, p, 0x25 + o); a("ld %s,{n}" % x, p, 0x26 + o, "n")
            for i, r in enumerate(["b", "c", "d", "e", h, l, None, "a"]):
                if r:
                    a("ld %s,%s" % (x, r), p, 0x60 + o + i)
                    if r not in (h, l):
                        a("ld %s,%s" % (r, x), p, 0x44 + 8 * i + (1 if o else 0))
    a("in f,(c)", 0xED, 0x70); a("out (c),0", 0xED, 0x71)
    # aliases: explicit accumulator, SL1
    for s, b in list(t):
        m, _, r = s.partition(" ")
        if m in ("sub", "and", "xor", "or", "cp"):
            a("%s a,%s" % (m, r), *b)
        if m == "sll":
            a("sl1 " + r, *b)
    return t


if __name__ == "__main__":
    print(len(table()))
