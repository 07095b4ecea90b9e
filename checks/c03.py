"""C03: every Z80 instruction form, random operands, against lib/z80.py."""
import random
from vlib import *
import encode
import z80

FORMS = z80.table()


def decorate_with(rng):
    def deco(texts):
        out, i = [], 0
        while i < len(texts):
            k = rng.random()
            if k < .12 and i + 1 < len(texts):
                out.append(" %s %s %s" % (texts[i], rng.choice(["\\", " \\ ", "\\"]), texts[i + 1]))
                i += 2
                continue
            if k < .2:
                out.append("L%d%s %s" % (i, rng.choice([":", ""]), texts[i]))
            elif k < .3:
                out.append("\t%s ; comment %s" % (texts[i], rng.choice(["", "\\ nop", "\"", "'", "(x,"])))
            elif k < .35:
                out += ["", "   ", " " + texts[i]]
            else:
                out.append(" " + texts[i])
            i += 1
        return out
    return deco


def batch(item, wk):
    seed, idx = item
    rng = random.Random("%s" % (seed,))
    names = encode.Names(rng)
    org = rng.choice([0x200, 0x4000, 0x9D95, 0xC000, 0xF000])
    pc, stmts = org, []
    for i in idx:
        s, b = encode.instance(rng, FORMS[i], pc, names)
        stmts.append((s, b, FORMS[i][0]))
        wk.obs.nontrivial((i, b))
        pc += len(b)
    wk.obs.sample({"source": stmts[0][0], "bytes": stmts[0][1].hex()})
    wk.obs.count("statements", len(stmts))
    encode.run_batch(wk, stmts, names.head(), names.tail(), org, decorate=decorate_with(rng))


def check(ctx):
    ctx.rule = ("one evaluation = one instruction statement whose bytes in the output file were compared with the model; every instruction form "
                "(%d) is used in every round with random operands, spelling and layout; distinct = distinct (form, encoded bytes)" % len(FORMS))
    ctx.build("san")
    items = []
    for rnd in range(ctx.n(40, 300)):
        idx = list(range(len(FORMS)))
        random.Random("%s/%s" % (ctx.seed, rnd)).shuffle(idx)
        for k in range(0, len(idx), 60):
            items.append(("%s/%d/%d" % (ctx.seed, rnd, k), idx[k:k + 60]))
    ctx.pmap(batch, items)
    ctx.counts["forms"] = len(FORMS)
    ctx.finish(minimum=1000, min_distinct=1000)
