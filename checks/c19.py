"""C19: the same program gives the same result - on every run, in any memory, and with
any of the options that only ask for reports."""
import ctypes
import random
import re
from c01 import donated, mutate, repo_texts, soup
from vlib import *

REPORTS = ["-T", "-L", "-S", "-N"]


def messages(r):
    t = re.sub(r"\x1b\[[0-9;]*m", "", r.out).replace(r.dir, "@")
    t = re.sub(r"(?m)^Assembly time: [\d.]+ seconds\r?\n?", "", t)
    return t.replace("\r\n", "\n")


def outputs(r, before):
    res = {}
    for root, ds, fs in os.walk(r.dir):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), r.dir)
            b = r.file(p)
            if p not in before or before[p] != b:
                res[p] = b
    return res


def still(res):
    return {k: v for k, v in res.items() if not k.lower().endswith((".lst", ".lab"))}


def noaslr():
    ctypes.CDLL(None).personality(0x0040000)


def faulty(r):
    """Messages from everywhere: files, macros, buffers, joined and skipped lines in one another."""
    files, macros, k = {}, [], [0]
    fatal = r.choice([0, 0, 0, .2])

    def block(depth, n, where):
        out = []
        for _ in range(n):
            k[0] += 1
            i, x = k[0], r.random()
            if x < .3:
                s = [r.choice([" .db undef%d" % i, " ld a,300", " .dw 5/0" if r.random() < fatal else " .db 2,-200", "#ifdef __LINE\n .echo __LINE\n#endif", " .db __LINE", " foo%d" % i if r.random() < fatal else " .dw 5)", " .echo %d" % i, " jr $+500" if r.random() < fatal else " .db undef,5", " .dw ((%d" % i, " .db -300", " .error \"e%d\"" % i if r.random() < fatal else "dup: nop"])]
            elif x < .45:
                s = [r.choice([" nop", " .db 1 \\ .db 2", "", "; text", " .list", " .nolist", " .db \"a\" ; b", "_ .dw $", "l%d:" % i, " .db undef%d \\ .db 300" % i])]
            elif x < .55:
                s = ["#comment", " any", "thing %d" % i] + ["x"] * r.randrange(3) + ["#endcomment"]
            elif x < .63:
                s = ["#if %d" % r.randrange(2)] + block(depth + 1, 2, where) + r.choice([[], ["#else"] + block(depth + 1, 1, where)]) + ["#endif"]
            elif x < .72 and where != "macro" and depth < 3:
                m = "m%d" % i
                b = block(depth + 1, r.randrange(1, 5), "macro")
                s = ["#macro %s(p)" % m] + b + [" .db p", "#endmacro"]
                macros.append(m)
            elif x < .82 and macros:
                s = [" %s(%s)" % (r.choice(macros), r.choice(["5", "300", "undefp"]))]
            elif x < .88 and depth < 3:
                f = "f%d.inc" % i
                files[f] = "\n".join(block(depth + 1, r.randrange(1, 6), "file")) + r.choice(["\n", ""])
                s = ['#include "%s"' % f]
            elif depth < 3:
                s = []
                if r.random() < .7:
                    for t in "\n".join(block(depth + 1, r.randrange(1, 5), "buf")).split("\n"):
                        if "wr(" not in t:
                            s.append(' wr("%s")' % t.replace("\\", "\\\\").replace('"', '\\"'))
                s += [r.choice([" run()", " run()", " buf(1)", " clr()"])] if where != "buf" and "run()" not in "".join(m for m in s) and r.random() < .7 else []
            else:
                s = [" nop"]
            out += [a for t in s for a in t.split("\n")]
        return out
    files["t.asm"] = " buf(0)\n" + "\n".join(block(0, r.randrange(3, 25), "file")) + r.choice(["\n", ""])
    return files


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    k = r.random()
    if k < .2:
        kind, files, args = "faulty", faulty(r), ["t.asm", "t.bin"]
    elif k < .32:
        kind, files, args = "soup", {"t.asm": soup(r)}, ["t.asm", "t." + r.choice(["bin", "8xp", "85s", "hex"])]
    elif k < .38:
        kind, files, args = "repo", {"t.asm": mutate(r, r.choice(repo_texts()), " nop\n")}, ["t.asm", "t.bin"]
    else:
        g = donated(r, wk)
        if g is None:
            return
        kind, files, args = "from-" + g[0], g[1], g[2]
        texts = [n for n in files if not isinstance(files[n], bytes)]
        if texts and r.random() < .3:
            n = r.choice(texts)
            files[n] = mutate(r, files[n], soup(r))
    before = {k: v if isinstance(v, bytes) else v.encode("latin1") for k, v in files.items()}
    if any(b"\\#" in v for v in before.values()):   # a random number
        return
    if kind in ("soup", "repo", "faulty") or r.random() < .5:
        args = [a for a in args if a not in REPORTS and a != "-C"]
    env = {"GLIBC_TUNABLES": "glibc.malloc.perturb=0"}
    if wk.ctx.hangs.value >= 3:
        return

    def run(args, flavour="zeros", env=None, preexec=None, extra={}, n=8):
        d = os.path.join(wk.wdir, "c")
        if not os.path.isdir(d):
            os.makedirs(d)
        wipe(d)
        put(d, {**files, **extra})
        o.count("runs_" + flavour)
        x = spawn(wk.ctx.exes[flavour], args, d, timeout=n, env=env, preexec=preexec)
        return None if x.timed_out else (x, messages(x), outputs(x, before))
    base = run(args, env=env, n=4)
    if base is None:
        o.count("stopped_open_ended")   # (endless macros: no verdict)
        return
    a, am, ao = base
    if a.rc not in (0, 1, 2, 3):
        return                          # a matter of C01
    stale = {p: os.urandom(len(v) + 50) if 0 else bytes(r.getrandbits(8) for _ in range(40)) + v for p, v in ao.items()}
    append = any(b">>" in v or b"getc" in v.lower() or b"include" in v.lower() or b"import" in v.lower() for v in before.values())
    again = [("repeated", dict(env=env)),
             ("heap contents", dict(env={"GLIBC_TUNABLES": "glibc.malloc.perturb=%d" % r.randrange(1, 256)})),
             ("stack contents", dict(flavour="junk", env={"GLIBC_TUNABLES": "glibc.malloc.perturb=%d" % r.randrange(1, 256)})),
             ("address layout", dict(preexec=noaslr)),
             ("environment", dict(env={**env, **{"V%d" % i: "x" * r.randrange(2000) for i in range(r.randrange(9))}, "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX"]), "TZ": r.choice(["UTC", "Asia/Tokyo"])})),
             ("older outputs", dict(extra={} if append else stale))]
    r.shuffle(again)
    for what, kw in again[:4]:
        x = run(args, **kw)
        if x is None:
            o.inc.append("time-out")
            return
        if what == "older outputs" and not append:
            # a file that is not written on this run stays the old one
            same = all(p in ao and (v == ao[p]) for p, v in x[2].items())
        else:
            same = x[2] == ao
        o.count("again_" + what.replace(" ", "_"))
        if x[0].rc != a.rc or x[1] != am or not same:
            d = "status %s/%s" % (a.rc, x[0].rc) if x[0].rc != a.rc else "messages\n%s\n-----\n%s" % (am[-700:], x[1][-700:]) if x[1] != am else "files %s" % sorted(p for p in set(ao) | set(x[2]) if ao.get(p) != x[2].get(p))
            o.violation("again:%s" % what.replace(" ", "-"), "another run (%s) differs: %s" % (what, d), files, args)
            return
    o.evals += 1
    o.count(kind)
    o.nontrivial((tuple(ao.values()), a.rc, am[-200:]))
    # options that only add a report
    add = [x for x in REPORTS if r.random() < .5 and x not in args]
    if add and "-C" not in args and "-O" not in args:
        x = run(add + args, env=env)
        if x is None:
            o.inc.append("time-out")
            return
        m = re.sub(r"(?ms)^Number of labels: .*?^Total size: \d+\n", "", x[1])
        m0 = re.sub(r"(?ms)^Number of labels: .*?^Total size: \d+\n", "", am)
        if a.rc == 0 or True:
            o.count("with_reports")
            if x[0].rc != a.rc or still(x[2]) != still(ao) or (m != m0):
                d = "status %s/%s" % (a.rc, x[0].rc) if x[0].rc != a.rc else "messages\n%s\n-----\n%s" % (m0[-700:], m[-700:]) if m != m0 else "files %s" % sorted(p for p in set(ao) | set(x[2]) if ao.get(p) != x[2].get(p))
                o.violation("reports:" + "".join(add), "with %s: %s" % (" ".join(add), d), files, args)
    o.sample({"kind": kind, "args": args, "status": a.rc, "files": {p: len(v) for p, v in ao.items()}})


def check(ctx):
    ctx.build("zeros", "junk")
    ctx.hangs = mp.get_context("fork").Value("i", 0)
    ctx.rule = ("one evaluation = one program (of another check's generator, mutated, or random) assembled at least five times: in other heap, stack and address space contents, environments, over older "
                "output files, and with report options added; distinct = distinct (output files, status, messages)")
    ctx.assumptions = ["programs with the random escape \\# are left out", "programs that do not end within 4 s (endless macros) give no verdict"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(4000, 60000))])
    ctx.finish(minimum=2500, min_distinct=1000)
