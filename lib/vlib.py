"""Shared machinery: build spasm from /repo's working tree, run it under
sanitizers in scratch directories, collect what the monitors observed, and turn
oracle disagreements into VIOLATION / KNOWN-FINDING lines and an evidence file.

Verdicts are three-valued: exit 0 (held on what was observed), exit 1 with a
VIOLATION line, anything else = the check itself failed (never a verdict)."""
import atexit
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPASM_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
FALLBACK_SRC = ("main opcodes pass_one pass_two utils export preop directive console "
                "expand_buf hash list parser storage errors bitmap modp_ascii opcodes_ez80").split()
DEFS = ["-DUSE_REUSABLES", "-DUNIXVER", "-DUSE_BUILTIN_FCREATE"]
NOBODY = 65534


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
FLAVOURS = {
    # sanitizer reports are fatal: one report = one aborted run
    "san": ("clang++", ["-g1", "-O1", "-w", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-lm", "-lgmp", "-lcrypto"]),
    "plain": ("g++", ["-O1", "-w"], ["-lm", "-lgmp", "-lcrypto"]),
    # fresh stack variables start as zeros / as a pattern
    "zeros": ("g++", ["-O1", "-w", "-ftrivial-auto-var-init=zero"], ["-lm", "-lgmp", "-lcrypto"]),
    "junk": ("clang++", ["-O2", "-w", "-ftrivial-auto-var-init=pattern"], ["-lm", "-lgmp", "-lcrypto"]),
    # run under valgrind's memcheck (MSan would need an instrumented C++ library)
    "memcheck": ("g++", ["-g1", "-O1", "-w", "-fno-omit-frame-pointer"], ["-lm", "-lgmp", "-lcrypto"]),
}


def source_list():
    mk = os.path.join(REPO, "Makefile")
    try:
        txt = open(mk).read().replace("\\\n", " ")
        m = re.search(r"^SRC\s*=\s*(.*)$", txt, re.M)
        names = [n for n in m.group(1).split() if n.endswith(".cpp")]
        if len(names) >= 5 and all(os.path.exists(os.path.join(REPO, n)) for n in names):
            return names
    except Exception:
        pass
    return [n + ".cpp" for n in FALLBACK_SRC]


def tree_hash():
    h = hashlib.sha256()
    for n in sorted(os.listdir(REPO)):
        if n.endswith((".cpp", ".h", ".hpp", ".c")) or n == "Makefile":
            h.update(n.encode() + b"\0")
            with open(os.path.join(REPO, n), "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build(flavour):
    """Content-addressed build of /repo's current sources under /verif/out."""
    cc, flags, libs = FLAVOURS[flavour]
    key = hashlib.sha256((tree_hash() + repr((flavour, FLAVOURS[flavour], DEFS))).encode()).hexdigest()[:20]
    dst = os.path.join(OUT, "build", key)
    exe = os.path.join(dst, "spasm")
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.join(OUT, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(OUT, "build"))
    os.chmod(tmp, 0o755)
    procs = []
    for s in source_list():
        o = os.path.join(tmp, os.path.basename(s)[:-4] + ".o")
        cmd = [cc] + flags + DEFS + ["-I", REPO, "-c", os.path.join(REPO, s), "-o", o]
        procs.append((o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    objs = []
    for o, cmd, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise HarnessError("build failed: %s\n%s" % (" ".join(cmd), out.decode("latin1")[-3000:]))
        objs.append(o)
    link = [cc] + [f for f in flags if f.startswith("-fsanitize")] + objs + ["-o", os.path.join(tmp, "spasm")] + libs
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError("link failed: %s\n%s" % (" ".join(link), p.stdout.decode("latin1")[-3000:]))
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# --------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:symbolize=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:symbolize=1",
}
BASE_ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "TERM": "dumb"}


class Result:
    __slots__ = ("rc", "out", "dir", "argv", "timed_out", "_err")

    def __init__(self, rc, out, d, argv, timed_out=False):
        self.rc, self.out, self.dir, self.argv, self.timed_out = rc, out, d, argv, timed_out

    def file(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    @property
    def sanitizer(self):
        """None, or a stable one-line signature of the sanitizer report / crash."""
        o = self.out
        m = re.search(r"(?:ERROR|WARNING): (AddressSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer): ([\w-]+)", o)
        kind = None
        if m:
            kind = m.group(2)
        else:
            m2 = re.search(r"^\S+?:\d+:\d+: runtime error: (.*)$", o, re.M)
            if m2:
                kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:70]
                kind = re.sub(r"\(aka .*?\)", "", kind).strip()
        if kind is None and self.rc == 99:
            m = re.search(r"^==\d+== ([A-Z][^\n]*)\n==\d+==    at 0x[0-9A-F]+: ([^\n]*?)(?: \(|$)", o, re.M)
            return "memcheck:%s@%s" % (re.sub(r"\d+|0x[0-9A-F]+", "N", m.group(1))[:60], re.sub(r"\(.*", "", m.group(2))) if m else "memcheck:?"
        if kind is None:
            if self.rc is not None and (self.rc < 0 or self.rc >= 128) and not self.timed_out:
                kind = "signal:%s" % self.rc
            else:
                return None
        fn = None
        for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+)", o):
            if f[1].startswith(REPO + "/"):
                fn = re.sub(r"\(.*", "", f[0])
                break
        return "%s@%s" % (kind, fn or "?")

    @property
    def text(self):
        return self.out


def spawn(exe, args, cwd, timeout=20, env=None, preexec=None, stdin=subprocess.DEVNULL):
    e = dict(BASE_ENV)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    argv = [exe] + list(args)
    if exe.endswith("-memcheck"):
        argv = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--read-inline-info=no"] + argv
    p = subprocess.Popen([a.encode("latin1") if isinstance(a, str) else a for a in argv], cwd=cwd, env=e, stdin=stdin, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, preexec_fn=preexec, start_new_session=False)
    try:
        out = p.communicate(timeout=timeout)[0]
        return Result(p.returncode, out.decode("latin1"), cwd, argv)
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0]
        return Result(None, out.decode("latin1", "replace")[:20000], cwd, argv, True)


def put(d, files):
    for n, c in files.items():
        p = os.path.join(d, n)
        if "/" in n:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(c if isinstance(c, bytes) else c.encode("latin1"))


def wipe(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


class SkipItem(Exception):
    """Raised once several runs have hung: the rest of the workload is skipped."""


# --------------------------------------------------------------------------
# check context
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        os.chmod(self.scratch, 0o755)
        self.main_pid = os.getpid()
        atexit.register(self._cleanup)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.viol = {}
        self.exes = {}
        self.inconclusive = []
        self.known = load_known(prop)
        self.rule = ""
        self.assumptions = []
        self._pool = None
        self.hangs = None

    # scaling by case count, never by time
    def n(self, quick, thorough=None):
        if self.tier == "thorough":
            return thorough if thorough is not None else quick * 10
        return quick

    def build(self, *flavours):
        for f in flavours:
            exe = build(f)
            dst = os.path.join(self.scratch, "spasm-" + f)
            if not os.path.exists(dst):
                shutil.copy(exe, dst)
                os.chmod(dst, 0o755)
            self.exes[f] = dst

    def _cleanup(self):
        if os.getpid() == self.main_pid:
            try:
                if self._pool:
                    self._pool.terminate()
            except Exception:
                pass
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- parallel execution -------------------------------------------------
    def pmap(self, fn, items, procs=8, chunk=None):
        """fn(item, workdir) -> (list of violations, counters dict, samples list, distinct set).
        Workers run unprivileged, each in its own scratch directory."""
        items = list(items)
        if not items:
            return []
        global _CTX, _FN
        _CTX, _FN = self, fn
        procs = min(procs, len(items))
        if chunk is None:
            chunk = max(1, min(16, len(items) // (procs * 4) or 1))
        ctx = mp.get_context("fork")
        if self.hangs is None:
            self.hangs = ctx.Value("i", 0)
        res = []
        with ctx.Pool(procs, initializer=_winit, initargs=(self.scratch,)) as pool:
            for r in pool.imap(_wrun, items, chunksize=chunk):
                if r[0] == "err":
                    raise HarnessError("worker: " + r[1])
                self._merge(r[1])
                res.append(r[2])
        return res

    def _merge(self, obs):
        self.evals += obs["evals"]
        self.distinct |= obs["distinct"]
        for k, v in obs["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for s in obs["samples"]:
            if len(self.samples) < 12:
                self.samples.append(s)
        for v in obs["viol"]:
            self._add_viol(v)
        self.inconclusive += obs["inc"]

    def _add_viol(self, v):
        self.viol.setdefault(v["key"], []).append(v)

    def local(self):
        """An observation sink for code that runs in the parent."""
        return Obs()

    def merge(self, obs):
        self._merge(obs.dump())

    # ---- verdict --------------------------------------------------------------
    def finish(self, minimum=1, min_distinct=2):
        self.counts = dict(sorted(self.counts.items()))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples[:8] or ["none"], "observed": self.counts,
               "inconclusive": len(self.inconclusive)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2)}
        unlisted = 0
        reported_known = set()
        lines = []
        for key in sorted(self.viol):
            vs = self.viol[key]
            kf = next((k for k in self.known if re.fullmatch(k["key"], key)), None)
            if kf:
                reported_known.add(kf["key"])
                continue
            unlisted += 1
            if unlisted <= 10:
                path = save_replay(self.prop, key, vs[0])
                print("  detail[%s] x%d: %s" % (key, len(vs), vs[0]["msg"][:1500]))
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        for kf in self.known:
            state = "" if kf["key"] in reported_known else " (not reproduced on this run)"
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, kf["what"], state))
        ev["violations"] = unlisted
        ev["coverage"]["known_findings_seen"] = len(reported_known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%s %s seed=%d: %d executions/cases, %d distinct non-trivial, %d inconclusive, %.1fs; observed %s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), len(self.inconclusive),
            time.time() - self.t0, json.dumps(self.counts)[:900]))
        for l in lines:
            print(l)
        sys.stdout.flush()
        if unlisted:
            sys.exit(1)
        if self.evals < minimum or len(self.distinct) < min_distinct:
            print("check error: the monitors observed too little (%d cases, %d distinct)" % (self.evals, len(self.distinct)))
            sys.exit(3)
        if len(self.inconclusive) > max(3, self.evals // 50):
            print("check error: too many inconclusive runs: %s" % self.inconclusive[:5])
            sys.exit(3)
        sys.exit(0)


class Obs:
    """What one worker call observed."""

    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.viol = []
        self.inc = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def nontrivial(self, key):
        h = hashlib.blake2b(repr(key).encode("latin1", "replace"), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, s, p=1.0):
        if len(self.samples) < 2:
            self.samples.append(s if len(str(s)) < 900 else str(s)[:900])

    def violation(self, key, msg, files=None, args=None, extra=None):
        key = re.sub(r"\s+", "_", key)
        if len(self.viol) < 20:
            self.viol.append({"key": key, "msg": msg, "files": files or {}, "args": args or [], "extra": extra})

    def dump(self):
        return {"evals": self.evals, "distinct": self.distinct, "counts": self.counts,
                "samples": self.samples, "viol": self.viol, "inc": self.inc}


_CTX = None
_FN = None
_WDIR = None
OBS = None


def _winit(scratch):
    global _WDIR
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    d = tempfile.mkdtemp(prefix="w", dir=scratch)
    os.chmod(d, 0o755)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    try:  # sanitizer frames are several times larger than ordinary ones
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        want = 256 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    _WDIR = d


def _wrun(item):
    obs = Obs()
    try:
        ret = _FN(item, Worker(_CTX, _WDIR, obs))
        return ("ok", obs.dump(), ret)
    except SkipItem:
        return ("ok", obs.dump(), None)
    except (OSError, MemoryError, HarnessError):
        return ("err", traceback.format_exc())
    except Exception:
        # the oracles read what the tool wrote: not being able to is a disagreement
        tb = traceback.format_exc()
        obs.violation("oracle-exception:" + tb.strip().splitlines()[-1][:60], tb + "\nitem=%.2000r" % (item,))
        return ("ok", obs.dump(), None)


class Worker:
    """Handed to worker functions: runs spasm in this worker's scratch dir."""

    def __init__(self, ctx, wdir, obs):
        self.ctx, self.wdir, self.obs = ctx, wdir, obs

    def run(self, files, args, flavour="san", clean=True, timeout=15, env=None, sub=None, preexec=None):
        """Write files, run spasm with args in the scratch dir; crash = violation signature available."""
        hangs = self.ctx.hangs
        if hangs is not None and hangs.value >= 3:
            raise SkipItem()
        d = os.path.join(self.wdir, sub) if sub else os.path.join(self.wdir, "c")
        if not os.path.isdir(d):
            os.makedirs(d)
        elif clean:
            wipe(d)
        put(d, files)
        r = spawn(self.ctx.exes[flavour], args, d, timeout=timeout, env=env, preexec=preexec)
        if r.timed_out:  # re-run once with a longer limit before it means anything
            r = spawn(self.ctx.exes[flavour], args, d, timeout=timeout * 3, env=env, preexec=preexec)
            if r.timed_out and hangs is not None:
                with hangs.get_lock():
                    hangs.value += 1
        self.obs.count("runs_" + flavour)
        return r

    def crashed(self, r, files, args):
        """True (and a violation recorded) when a run crashed or drew a sanitizer report."""
        s = r.sanitizer
        if s:
            self.obs.violation("crash:" + s, "sanitizer/crash %s\n%s" % (s, r.out[-1800:]), files, args)
            return True
        if r.timed_out:
            self.obs.violation("hang", "no termination within the watchdog (run twice)", files, args)
            return True
        return False


# --------------------------------------------------------------------------
# known findings, replays
# --------------------------------------------------------------------------
def load_known(prop):
    """known_findings.txt lines:  finding: property=C01 key=<regex> :: <what fails>"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append({"key": m.group(2), "what": m.group(3)})
    return res


def save_replay(prop, key, v):
    name = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]
    d = os.path.join(OUT, "replay", prop, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        put(d, v["files"])
    except Exception:
        pass
    with open(os.path.join(d, "REPLAY.txt"), "w") as f:
        f.write("property: %s\nkey: %s\ncommand (run in this directory, with a spasm built from /repo):\n  spasm %s\n\n%s\n" % (
            prop, key, " ".join(repr(a) for a in v["args"]), v["msg"]))
        if v.get("extra"):
            f.write("\n%s\n" % (v["extra"],))
    return os.path.join(d, "REPLAY.txt")


def main(prop, fn, level="exploration"):
    try:
        ctx = Ctx(prop, level)
        fn(ctx)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("check error")
        sys.exit(4)
