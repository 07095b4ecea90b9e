"""C04: every eZ80 instruction form in both ADL states and with every suffix."""
import random
from vlib import *
import encode
import ez80

FORMS = ez80.table()
SFX = [None] * 8 + list(ez80.SUFFIX)


def batch(item, wk):
    seed, idx = item
    rng = random.Random("%s" % (seed,))
    names = encode.Names(rng)
    org = rng.choice([0x200, 0x4000, 0x9D95, 0xD1A881, 0x40000])
    pc, stmts, adl = org, [], True
    for i in idx:
        pre = ""
        if rng.random() < .15:
            adl = rng.random() < .5
            pre = "%s\n " % rng.choice([".assume adl=%d", ".ASSUME ADL = %d", ".assume  adl= %d"]) % adl
        sfx = rng.choice(SFX)
        if sfx is None:
            pb, wide, t = None, adl, ""
        else:
            pb, L, IL = ez80.suffix_byte(sfx, adl)
            wide, t = IL, sfx
        s, b = encode.instance(rng, FORMS[i], pc, names, wide=wide, prefix=pb, sfx=t)
        stmts.append((pre + s, b, "%s%s/adl%d" % (FORMS[i][0], t, adl), ".assume adl=%d\n %s" % (adl, s)))
        wk.obs.nontrivial((i, b, sfx, adl))
        wk.obs.count("sfx %s adl%d" % (sfx or "none", adl))
        pc += len(b)
    wk.obs.sample({"source": stmts[0][0], "bytes": stmts[0][1].hex()})
    encode.run_batch(wk, stmts, names.head(), names.tail(), org, args=["-E"])


def check(ctx):
    ctx.rule = ("one evaluation = one eZ80 statement whose bytes were compared with the model; every form (%d) is used in every round with a random "
                "suffix, ADL state, operands and spelling; distinct = distinct (form, suffix, ADL state, bytes)" % len(FORMS))
    ctx.build("san")
    items = []
    for rnd in range(ctx.n(150, 1000)):
        idx = list(range(len(FORMS)))
        random.Random("%s/%s" % (ctx.seed, rnd)).shuffle(idx)
        for k in range(0, len(idx), 60):
            items.append(("%s/%d/%d" % (ctx.seed, rnd, k), idx[k:k + 60]))
    ctx.pmap(batch, items)
    ctx.counts["forms"] = len(FORMS)
    ctx.finish(minimum=1000, min_distinct=1000)
