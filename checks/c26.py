"""C26: a file that can't be read or written completely is never passed over in silence."""
import random
import re
import resource
import signal
from c01 import donated
from c19 import messages, outputs
from vlib import *


def run(wk, files, args, before=None, limit=None, n=20):
    """before(dir): prepares obstacles; limit: the largest size a file can get"""
    d = os.path.join(wk.wdir, "c")
    if not os.path.isdir(d):
        os.makedirs(d)
    for root, ds, fs in os.walk(d):
        for x in ds:
            os.chmod(os.path.join(root, x), 0o755)
    wipe(d)
    put(d, files)
    if before:
        before(d)

    def pre():
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    wk.obs.count("runs_san")
    return spawn(wk.ctx.exes["san"], args, d, timeout=n, preexec=pre)


def program(r, wk):
    """a good program with several outputs"""
    for _ in range(30):
        g = donated(r, wk)
        if g is None:
            return None
        files, args = g[1], [a for a in g[2] if a not in ("-O",)]
        if any(b"\\#" in (v if isinstance(v, bytes) else v.encode("latin1")) for v in files.values()):
            continue
        if any(a.startswith("-V") for a in args):
            continue
        break
    else:
        return None
    args = ["-N"] + [x for x in ("-L", "-T") if r.random() < .6 and x not in args] + [a for a in args if a != "-N"]
    main = next((a for a in args if a in files and isinstance(files[a], str)), None)
    if main is None:
        return None
    k = r.random()
    if k < .5:
        # text files written by the program
        t = files[main].rstrip("\n") + "\n"
        for i in range(r.randrange(1, 4)):
            t += ' .echo > "e%d.txt" "%s"\n' % (i, "y" * r.randrange(1, 150))
            for _ in range(r.choice([0, 0, 1, 8])):
                t += ' .echo >> "e%d.txt" "%s"\n' % (i, "z" * r.randrange(1, 150))
        files[main] = t
    if r.random() < .3:
        t = files[main].rstrip("\n") + "\n" + "".join(" .fill %d,%d\n" % (r.randrange(1, 6000), i) for i in range(r.randrange(1, 5)))
        files[main] = t
    return files, args


MSG = re.compile(r"(?im)error|couldn't|cannot|can't|unable|failed|no such")


def writes(r, wk):
    o = wk.obs
    g = program(r, wk)
    if g is None:
        return
    files, args = g
    before = {k: v if isinstance(v, bytes) else v.encode("latin1") for k, v in files.items()}
    a = run(wk, files, args)
    if a.timed_out or wk.crashed(a, files, args):
        return
    if a.rc not in (0, 1):
        return
    ao = outputs(a, before)
    if not ao:
        return
    o.evals += 1
    for _ in range(r.choice([2, 3, 4])):
        k = r.random()
        bad = set()              # outputs that can't be written
        obstacle = None
        limit = None
        if k < .45:
            biggest = max(len(v) for v in ao.values())
            limit = r.choice([r.randrange(biggest + 2), r.randrange(biggest + 2), len(r.choice(list(ao.values()))), max(0, len(r.choice(list(ao.values()))) - 1), 0])
            bad = {p for p, v in ao.items() if len(v) > limit}
            what = "limit %d" % limit
        else:
            p = r.choice(sorted(ao))
            kind = r.choice(["full", "full", "directory", "readonly", "dangling"] + (["nodir"] if "/" in p else []))
            what = "%s: %s" % (kind, p)
            if kind == "full" and not ao[p]:
                continue
            bad = {p}

            def obstacle(d, p=p, kind=kind):
                q = os.path.join(d, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if os.path.lexists(q):
                    return
                if kind == "full":
                    os.symlink("/dev/full", q)
                elif kind == "directory":
                    os.makedirs(q)
                elif kind == "readonly":
                    open(q, "w").write("old")
                    os.chmod(q, 0o444)
                elif kind == "dangling":
                    os.symlink("/nonexistent-%d/x" % os.getpid(), q)
                else:
                    if os.listdir(os.path.dirname(q)):
                        os.symlink("/dev/full", q)
                    else:
                        os.rmdir(os.path.dirname(q))
        x = run(wk, files, args, obstacle, limit)
        if x.timed_out:
            o.inc.append("time-out")
            return
        if x.sanitizer:
            wk.crashed(x, files, args)
            return
        good = {p: v for p, v in ao.items() if p not in bad}
        o.count("write_" + re.sub(r"[ :].*", "", what))
        o.nontrivial((what, len(ao), tuple(sorted(len(v) for v in ao.values()))))
        if not bad:
            if x.rc != a.rc or messages(x) != messages(a) or outputs(x, before) != ao:
                o.violation("enough", "%s is enough for all files, but status %s (%s)\n%s" % (what, x.rc, a.rc, x.out[-600:]), files, args)
            continue
        o.count("write_faults")
        if x.rc in (0, 1):
            o.violation("silent:" + re.sub(r"[ :].*", "", what) + ":" + "+".join(sorted({re.sub(r"^e\d\.txt$", "echo", os.path.splitext(p)[1] if not p.startswith("e") else p) for p in bad})),
                        "%s: %s can't be written completely, but exit status %s\n%s" % (what, sorted(bad), x.rc, x.out[-600:]), files, args)
        elif x.rc not in (2, 3):
            o.violation("status", "%s: exit status %s\n%s" % (what, x.rc, x.out[-600:]), files, args)
        elif not MSG.search(messages(x).replace(messages(a), "")):
            o.violation("message", "%s: status %s without a message\n%s" % (what, x.rc, x.out[-600:]), files, args)
    o.sample({"args": args, "outputs": {p: len(v) for p, v in ao.items()}})


def reads(r, wk):
    o = wk.obs
    n = r.randrange(1, 5)
    victim = r.choice(["main", "include", "include", "import", "import", "getc", "include2", "bitmap"])
    where = "" if victim == "main" else r.choice(["", "sub/"])
    pre = "".join(" nop\n" for _ in range(n))
    post = " ret\n.end\n" if r.random() < .2 else " ret\n"
    name = {"main": "t.asm", "bitmap": "p.bmp"}.get(victim, "v.inc")
    path = where + name
    files = {"t.asm": pre + post, path: " .db 1\n"}
    if victim == "include":
        files["t.asm"] = pre + '#include "%s"\n' % path + post
    elif victim == "import":
        files["t.asm"] = pre + '#import "%s"\n' % path + post
    elif victim == "getc":
        files["t.asm"] = pre + ' .db getc("%s",0)\n' % path + post
    elif victim == "bitmap":
        files["t.asm"] = pre + '#include "%s"\n' % path + post
    elif victim == "include2":
        files["m.inc"] = "; first\n" + '#include "%s"\n' % path + " nop\n"
        files["t.asm"] = pre + '#include "m.inc"\n' + post
    if victim == "main":
        files["t.asm"] = pre + post
    line = {"include2": r"\S*m\.inc:2"}.get(victim, r"t\.asm:%d" % (n + 1))
    how = r.choice(["missing", "directory", "locked", "unreadable", "dangling", "loop", "nodir"])
    if victim == "getc" and how in ("directory", "unreadable"):
        how = "missing"

    def obstacle(d):
        q = os.path.join(d, path)
        os.unlink(q)
        if how == "directory":
            os.makedirs(q)
        elif how == "locked":
            open(q, "w").write(" nop\n")
            os.chmod(q, 0)
        elif how == "unreadable":
            os.symlink("/proc/self/mem", q)
        elif how == "dangling":
            os.symlink("nowhere", q)
        elif how == "loop":
            os.symlink(name, q)
        elif how == "nodir" and where:
            os.rmdir(os.path.dirname(q))
    opts = [x for x in ("-T", "-L", "-A", "-E") if r.random() < .2]
    inc = ["-I", "."] if r.random() < .2 else []
    args = ["-N"] + opts + inc + ["t.asm", "t.bin"]
    x = run(wk, files, args, obstacle)
    if x.timed_out:
        o.violation("hang", "%s %s: no end" % (victim, how), files, args)
        return
    if x.sanitizer:
        wk.crashed(x, files, args)
        return
    o.evals += 1
    o.count("read_%s" % victim)
    o.count("read_%s" % how)
    o.nontrivial((victim, how, n, x.out))
    tag = "%s-%s" % (victim, how)
    if victim == "main":
        if x.rc != 3 or not MSG.search(x.out) or any(os.path.exists(os.path.join(x.dir, f)) for f in ("t.bin", "t.lst", "t.lab")):
            o.violation("input:" + tag, "status %s\n%s" % (x.rc, x.out[-600:]), files, args)
        return
    if x.rc not in (2, 3):
        o.violation("input:" + tag, "status %s\n%s" % (x.rc, x.out[-600:]), files, args)
    elif len(re.findall(r"(?m)^%s: error" % line, x.out)) != 1:
        o.violation("place:" + tag, "no error at %s\n%s" % (line, x.out[-600:]), files, args)


def case(item, wk):
    r = random.Random(item)
    (writes if r.random() < .75 else reads)(r, wk)


def check(ctx):
    ctx.build("san")
    ctx.rule = ("one evaluation = one program assembled two to five times with files that can't be written beyond a size (any byte count), on a full device, over directories, locked or missing places, "
                "or one program with an input that can't be read; distinct = distinct (fault, outputs)")
    ctx.assumptions = ["faults of the console itself are not injected"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(4000, 60000))])
    ctx.finish(minimum=1500, min_distinct=500)
