"""C29: a run writes the files it is asked for, all of them and no others, and leaves its
inputs alone."""
import random
import re
from c01 import donated, mutate, repo_texts, soup
from vlib import *


def snapshot(d):
    res = {}
    for root, ds, fs in os.walk(d):
        for f in fs + ds:
            p = os.path.join(root, f)
            q = os.path.relpath(p, d)
            st = os.lstat(p)
            if f in ds and not os.path.islink(p):
                res[q + "/"] = None
            else:
                with open(p, "rb") as h:
                    res[q] = (h.read(), st.st_ino, st.st_mtime_ns)
    return res


def stem(n):
    return re.sub(r"\.[^./]*$", "", n)


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    k = r.random()
    if k < .12:
        kind, files, args = "soup", {"t.asm": soup(r)}, ["t.asm", "t." + r.choice(["bin", "8xp", "85s", "hex", "8xk"])]
    elif k < .2:
        kind, files, args = "repo", {"t.asm": mutate(r, r.choice(repo_texts()), " nop\n")}, ["t.asm", "t.bin"]
    else:
        g = donated(r, wk)
        if g is None:
            return
        kind, files, args = "from-" + g[0], dict(g[1]), list(g[2])
    if any(a.startswith("-V") for a in args) or wk.ctx.hangs.value >= 3:
        return
    names, skip = [], False
    for a in args:
        if skip:
            skip = False
        elif a in ("-I", "-D"):
            skip = True
        elif not a.startswith("-"):
            names.append(a)
    if not names or names[0] not in files or len(names) > 2:
        return
    src = names[0]
    if len(names) == 2 and r.random() < .5:
        # another place for the output
        new = r.choice(["out", "sub.dir/o", "a.b.c", "o ut", "OUT", "d/e/f", "sub.dir/noext"]) + r.choice(["", os.path.splitext(names[1])[1]])
        args[len(args) - 1 - args[::-1].index(names[1])] = new
        names[1] = new
    dst = names[1] if len(names) == 2 else stem(src) + ".bin"
    for x in ("-T", "-L", "-O", "-C", "-S", "-A", "-E"):
        if r.random() < (.4 if x in ("-T", "-L") else .12) and x not in args:
            args.insert(0, x)
    if "-T" in args and r.random() < .1 and "-T" in args:
        pass
    d = os.path.join(wk.wdir, "c")
    if not os.path.isdir(d):
        os.makedirs(d)
    wipe(d)
    put(d, files)
    if os.path.dirname(dst):
        os.makedirs(os.path.join(d, os.path.dirname(dst)), exist_ok=True)
    # things that lie around
    old = {}
    ext = {"lst": stem(dst) + ".lst", "lab": stem(dst) + ".lab"}
    for n in [dst, ext["lst"], ext["lab"], stem(dst) + ".tmp", dst + ".bak", dst + "~", "t.inc", "temp", "core"]:
        if r.random() < .4 and n not in files and not os.path.lexists(os.path.join(d, n)):
            old[n] = b"old %d" % r.randrange(99)
    put(d, old)
    up = set(os.listdir(wk.wdir))
    before = snapshot(d)
    o.count("runs_san")
    x = spawn(wk.ctx.exes["san"], args, d, timeout=4)
    if x.timed_out:
        o.count("stopped_open_ended")
        return
    if wk.crashed(x, files, args):
        return
    after = snapshot(d)
    o.evals += 1
    o.count(kind)
    o.count("status_%s" % x.rc)
    changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
    text = "\n".join(v if isinstance(v, str) else v.decode("latin1") for v in files.values())
    pos = {os.path.normpath(dst): "output", os.path.normpath(ext["lst"]): "listing", os.path.normpath(ext["lab"]): "symbols"}
    wrote = {pos.get(n, n) for n in changed}
    want = {"output", "listing", "symbols"}
    if "-O" in args:
        want.discard("output")
    if "-T" not in args:
        want.discard("listing")
    if "-L" not in args:
        want.discard("symbols")
    # what lay there before leaves no trace in what is written
    there = [n for n in old if n in changed]
    if there and wk.crashed is not None and not any(x in text for x in (">>", "\\#")) and "getc" not in text.lower() and "include" not in text.lower():
        keep = dict(after)
        wipe(d)
        put(d, files)
        if os.path.dirname(dst):
            os.makedirs(os.path.join(d, os.path.dirname(dst)), exist_ok=True)
        y = spawn(wk.ctx.exes["san"], args, d, timeout=8)
        again = snapshot(d)
        o.count("replaced_files", len(there))
        for n in there:
            if not y.timed_out and keep.get(n) and (again.get(n) or [None])[0] != keep[n][0]:
                o.violation("mixed:" + pos.get(os.path.normpath(n), "other"), "%s differs when an older one was there:\n%r\n%r" % (n, keep[n][0][:200], (again.get(n) or [None])[0] and again[n][0][:200]), files, args)
                return
    echo = {n for n in wrote if n not in ("output", "listing", "symbols")}
    o.nontrivial((kind, x.rc, tuple(sorted(wrote)), tuple(args)))
    o.sample({"kind": kind, "args": args, "status": x.rc, "wrote": sorted(wrote)})
    # everything else was named by .echo > (which an input file may be, if the program says so)
    said = " ".join(re.findall(r"(?i)\.echo[^\n]*>[^\n]*", text))
    other = {n for n in echo if os.path.basename(n) not in said}
    if other:
        o.violation("other-files", "%s changed: %s" % (sorted(other), x.out[-300:]), files, args)
        return
    if set(os.listdir(wk.wdir)) != up:
        o.violation("outside", "made %s" % sorted(set(os.listdir(wk.wdir)) - up), files, args)
        return
    more = (wrote & {"output", "listing", "symbols"}) - want
    if more:
        o.violation("unasked:" + "+".join(sorted(more)), "%s written, status %s\n%s" % (sorted(more), x.rc, x.out[-300:]), files, args)
        return
    if x.rc in (0, 1, 2):
        less = want - wrote
        if less:
            o.violation("missing:" + "+".join(sorted(less)), "status %s, but %s not written\n%s" % (x.rc, sorted(less), x.out[-300:]), files, args)
        o.count("complete")
    else:
        o.count("fatal_wrote_" + "+".join(sorted(wrote & {"output", "listing", "symbols"})))
        if "Pass two" not in x.out and wrote & {"output", "listing", "symbols"}:
            o.violation("early", "stopped before the second pass, but wrote %s\n%s" % (sorted(wrote), x.out[-300:]), files, args)


def check(ctx):
    ctx.build("san")
    ctx.hangs = mp.get_context("fork").Value("i", 0)
    ctx.rule = "one evaluation = one program assembled among older files, with the folder compared before and after; distinct = distinct (files written, status, arguments)"
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(6000, 80000))])
    ctx.finish(minimum=3000, min_distinct=500)
