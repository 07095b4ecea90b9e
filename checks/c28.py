"""C28: layout carries no meaning - line ends, white space, comments, empty lines, regions,
joined and split statements."""
import random
import re
from c01 import donated, repo_texts
from c19 import messages, outputs
from vlib import *

PLAIN = re.compile(r"""(?:[^"'\\;]|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)')*\Z""")


class Layout:
    """rewrites the text of a file, remembers where its lines went"""

    def __init__(self, r, text, joins):
        self.r = r
        body = text[:-1] if text.endswith("\n") else text
        self.lines = body.split("\n")
        self.ends = text.endswith("\n")
        self.map = {}
        self.kinds = set()
        # lines within which nothing is touched
        self.frozen = set()
        depth = False
        for i, l in enumerate(self.lines):
            s = l.strip().lower()
            if re.match(r"#\s*comment\b", s):
                depth = True
            if depth or not PLAIN.match(self.code(l)) or "\r" in l or s.startswith("#defcont"):
                self.frozen.add(i)
            if re.match(r"#\s*endcomment\b", s):
                depth = False
        out = []
        style = r.choice(["blank", "space", "comment", "tabs", "mix", "mix", "mix", "join", "join", "join", "region"])
        if style == "join" and not joins:
            style = "mix"
        rate = r.choice([.1, .4, 1])
        i = 0
        opened = 0
        while i < len(self.lines):
            l = self.lines[i]
            safe = i not in self.frozen
            ok = safe and (i + 1 not in self.frozen)
            if style in ("blank", "mix") and r.random() < rate * .6 and safe and not self.cont(i):
                self.kinds.add("blank")
                for _ in range(r.choice([1, 1, 2, 5])):
                    out.append(r.choice(["", " ", "\t", "; note", "   ; a \"note\" \\ ld 'it", ";", "  "]))
            if style == "region" and r.random() < rate * .4 and safe and not self.cont(i):
                self.kinds.add("region")
                if opened and r.random() < .5:
                    out.append(r.choice(["#endregion", "#ENDREGION x"]))
                    opened -= 1
                else:
                    out.append(r.choice(["#region", "#region stuff", "#Region \"a b\""]))
                    opened += 1
            # (blanks after the expression count toward the longest expression allowed)
            if safe and l.strip() and len(l) < 180 and r.random() < rate:
                l = self.rewrite(l, style)
            self.map[i + 1] = len(out) + 1
            if style == "join" and ok and r.random() < rate and i + 1 < len(self.lines) and self.simple(l) and self.simple(self.lines[i + 1]):
                self.kinds.add("join")
                n = 1
                while i + 1 < len(self.lines) and i + 1 not in self.frozen and self.simple(self.lines[i + 1]) and n < 5 and len(l) < 150:
                    l = l.rstrip() + r.choice([" \\", "\\", " \\ "]) + self.lines[i + 1]
                    i += 1
                    n += 1
                    self.map[i + 1] = len(out) + 1
            out.append(l)
            i += 1
        out += ["#endregion"] * opened
        self.out = out
        nl = "\n"
        if r.random() < .35 and not any("\r" in l for l in out):
            nl = "\r\n"
            self.kinds.add("crlf")
        t = nl.join(out) + nl
        last = len(self.lines) - 1
        if r.random() < .3 and last not in self.frozen and not opened:
            t = nl.join(out)
            self.kinds.add("no final newline")
        elif r.random() < .3 and last not in self.frozen:
            t += r.choice(["\n", " ", "\n\n \t", "; end", "; end\n"])
        if r.random() < .15 and not t.startswith("BM"):
            t = "\xef\xbb\xbf" + t
            self.kinds.add("bom")
        self.text = t

    def code(self, l):
        """the line without its comment"""
        m = re.match(r"""(?:[^"';]|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)'|'(?!.))*""", l)
        return m.group(0)

    def cont(self, i):
        return i > 0 and re.match(r"\s*#\s*def(ine|cont)", self.lines[i], re.I) and re.match(r"\s*#\s*defcont", self.lines[i], re.I)

    def simple(self, l):
        s = l.strip()
        if re.match(r"(?i)#(if|ifdef|ifndef|elif|else|endif|undef|undefine)(\s[^\"'\\;{}]*)?$", s):
            return l.count("(") == l.count(")") and len(s) < 60
        return bool(re.match(r"[ \t]+[A-Za-z.][\w.]*(\s|$)", l)) and PLAIN.match(l) and not re.search(r"[\";\\#'{}]", l) and l.count("(") == l.count(")") and len(s) < 60 \
            and not re.match(r"(?i)\.(echo|end|addinstr|option|show|error|list|nolist)\b", s)

    def rewrite(self, l, style):
        r = self.r
        code = self.code(l)
        rest = l[len(code):]
        if not PLAIN.match(code) or "\\" in code:
            return l
        if style in ("tabs", "mix") and re.match(r"[ \t]+\S|[#.]", code) and r.random() < .7:
            self.kinds.add("indent")
            code = r.choice(["\t", "  ", "\t\t", " \t ", "    "] + [""] * 3 * (code.strip()[0] in "#.")) + code.lstrip(" \t")
            m = re.match(r"(\s*#\w+)[ \t]+(\S.*)", code)
            if m and r.random() < .4 and not re.match(r"(?i)\s*#(define|defcont|macro)", code):
                self.kinds.add("gap after #")
                code = m.group(1) + r.choice([" ", "\t", "   ", " \t"]) + m.group(2)
        if style in ("tabs", "mix") and r.random() < .7:
            # between the mnemonic and the operands of instructions and data
            m = re.match(r"([ \t]+)([A-Za-z.]\w*(?:\.\w+)?)([ \t]+)(\S.*)", code)
            if m and not re.match(r"(?i)\.(addinstr|echo|show|option|error)$", m.group(2)) and m.group(4)[0] not in "=(\"'":
                self.kinds.add("gap")
                code = m.group(1) + m.group(2) + r.choice([" ", "\t", "   ", " \t"]) + m.group(4)
        if style in ("space", "mix") and not rest and r.random() < .5:
            self.kinds.add("trailing on #" if re.match(r"\s*#", code) else "trailing")
            code = code.rstrip(" \t") + r.choice([" ", "\t", "   ", " \t \t"])
        if style in ("comment", "mix") and not rest and r.random() < .5 and code.strip():
            self.kinds.add("comment on #" if re.match(r"\s*#", code) else "comment")
            code = code + r.choice([" ; note", ";", "\t;; \"x", " ; a \\ nop", " ;#endif", ";'", " ; ld (("])
        return code + rest


def case(item, wk):
    r = random.Random(item)
    o = wk.obs
    if r.random() < .08:
        name, files, args = "repo", {"t.asm": r.choice(repo_texts()).replace("\r", "").replace("\x1a", "")}, r.choice([[], ["-E"]]) + ["t.asm", "t.bin"]
    else:
        g = donated(r, wk)
        if g is None:
            return
        name, files, args = g
    alltext = "\n".join(v if isinstance(v, str) else v.decode("latin1") for v in files.values())
    if re.search(r"(?i)__line|\\#|#\s*import|getc|-V", alltext + " ".join(args)):
        return
    args = [a for a in args if a not in ("-T", "-C")]
    enc = lambda f: {k: v if isinstance(v, bytes) else v.encode("latin1") for k, v in f.items()}
    a = wk.run(files, args)
    if wk.crashed(a, files, args):
        return
    ao = outputs(a, enc(files))
    new, maps, kinds = dict(files), {}, set()
    for n, v in files.items():
        if isinstance(v, str) and v and not v.startswith("BM"):
            l = Layout(r, v, a.rc == 0)
            new[n] = l.text
            maps[n] = l.map
            kinds |= l.kinds
    if not kinds:
        return
    b = wk.run(new, args)
    if wk.crashed(b, new, args):
        return
    bo = outputs(b, enc(new))
    am, bm = messages(a), messages(b)

    def moved(m):
        f, l = m.group(1), int(m.group(2))
        k = f.replace("@/c/", "").replace("@/", "")
        k = next((x for x in maps if k == x or k.endswith("/" + x)), None)
        return "%s:%s:" % (f, maps[k].get(l, l)) if k else m.group(0)
    am = re.sub(r"(?m)^([^\s:][^:\n]*):(\d+):", moved, am)
    # (white space around a quoted piece of the source is kept)
    am, bm = (re.sub(r"[ \t]*'[ \t]*", "'", re.sub(r"[ \t]+", " ", m)) for m in (am, bm))
    o.evals += 1
    for k in kinds:
        o.count(k)
    o.count("status_%s" % a.rc)
    o.nontrivial((name, tuple(sorted(kinds)), tuple(ao.values()), am))
    o.sample({"from": name, "kinds": sorted(kinds), "status": a.rc})
    if a.rc != b.rc or am != bm or ao != bo:
        d = [p for p in set(ao) | set(bo) if ao.get(p) != bo.get(p)]
        o.violation("layout", "%s; %s: status %s\n%s\n-- rewritten: status %s\n%s\n-- files that differ: %s" % (name, sorted(kinds), a.rc, am[-700:], b.rc, bm[-700:], d), new, args,
                    extra="\n=====\n".join("%s:\n%s" % kv for kv in files.items() if isinstance(kv[1], str)))


def check(ctx):
    ctx.build("san")
    ctx.rule = "one evaluation = one program (of another check's generator) assembled as it is and rewritten in layout, with outputs, messages (at the lines' new places) and status compared; distinct = distinct (kinds of change, results)"
    ctx.assumptions = ["lines with unbalanced quotes and #comment blocks are left alone", "listings are left to C17"]
    ctx.pmap(case, ["%s/%d" % (ctx.seed, i) for i in range(ctx.n(15000, 150000))])
    ctx.finish(minimum=5000, min_distinct=2000)
