"""Random expressions with an independent evaluator (32-bit wraparound,
strictly left to right, C-like truncating division)."""
M = 0xFFFFFFFF
OPS = ["<<", ">>", "&&", "||", "<=", ">=", "<", ">", "==", "=", "!=", "+", "-", "*", "/", "%", "^", "&", "|"]


class EvalError(Exception):
    def __init__(self, code):
        self.code = code


def w(v):
    v &= M
    return v - (1 << 32) if v & 0x80000000 else v


def apply(op, a, b):
    if op == "+": return w(a + b)
    if op == "-": return w(a - b)
    if op == "*": return w(a * b)
    if op in "/%":
        if b == 0:
            raise EvalError("SE203")
        if a == -(1 << 31) and b == -1:
            raise EvalError("SE205")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return w(q) if op == "/" else w(a - q * b)
    if op == "&": return w(a & b)
    if op == "|": return w(a | b)
    if op == "^": return w(a ^ b)
    if op == "<<": return w(a << (b & 31))
    if op == ">>": return a >> (b & 31)
    if op == "&&": return int(bool(a) and bool(b))
    if op == "||": return int(bool(a) or bool(b))
    if op == "<": return int(a < b)
    if op == ">": return int(a > b)
    if op == "<=": return int(a <= b)
    if op == ">=": return int(a >= b)
    if op in ("==", "="): return int(a == b)
    if op == "!=": return int(a != b)
    raise AssertionError(op)


CHARS = [("'%s'" % c, ord(c)) for c in
         "abcXYZ019 !#$%&()*+,-./:;<=>?@[]^_`{|}~\""] + [
    (r"'\n'", 10), (r"'\t'", 9), (r"'\r'", 13), (r"'\\'", 92), (r"'\0'", 0), (r"'\''", 39)]

INTERESTING = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535,
               65536, 65537, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF]


def literal(rng, v=None):
    """-> (text, value)"""
    k = rng.randrange(100)
    if v is None:
        if k < 8:
            return rng.choice(CHARS)
        v = rng.choice(INTERESTING) if rng.random() < .45 else rng.randrange(1 << rng.choice([2, 4, 8, 12, 16, 24, 32]))
    f = rng.randrange(7)
    if f == 0:
        t = ("$%x" if rng.random() < .5 else "$%X") % v
    elif f == 1:
        t = "%X" % v if rng.random() < .5 else "%x" % v
        t = ("0" + t if not t[0].isdigit() else t) + rng.choice("hH")
    elif f == 2 and v < 1 << 20:
        t = "%" + bin(v)[2:]
    elif f == 3 and v < 1 << 20:
        t = bin(v)[2:] + rng.choice("bB")
    elif f == 4:
        t = "%d" % v + rng.choice("dD")
    elif f == 5:
        t = "0" * rng.randrange(1, 4) + "%d" % v
    else:
        t = "%d" % v
    return t, w(v)


class Gen:
    def __init__(self, rng, names=None, pc=None):
        """names: dict name -> int32 value usable as terms; pc: value of '$' or None."""
        self.rng = rng
        self.names = names or {}
        self.pc = pc
        self.feat = set()

    def sp(self):
        return self.rng.choice(["", "", "", " ", "  ", "\t"])

    def term(self, depth):
        r = self.rng
        u = r.random()
        t, v = None, None
        if depth > 0 and u < .3:
            t, v = self.expr(depth - 1, r.randrange(1, 4))
            t = "(" + self.sp() + t + self.sp() + ")"
            self.feat.add("paren")
        elif self.names and u < .5:
            n = r.choice(sorted(self.names))
            t, v = n, w(self.names[n])
            self.feat.add("name")
        elif self.pc is not None and u < .55:
            t, v = "$", w(self.pc)
            self.feat.add("pc")
        else:
            t, v = literal(r)
            self.feat.add("char" if t[0] == "'" else "lit")
        if r.random() < .2:
            o = r.choice("~-+")
            v = {"~": w(~v), "-": w(-v), "+": v}[o]
            t = o + (t if r.random() < .8 else self.sp() + t)
            self.feat.add("un" + o)
        return t, v

    def expr(self, depth=3, n=None):
        r = self.rng
        if n is None:
            n = r.choice([1, 2, 2, 3, 3, 4, 5])
        t, v = self.term(depth)
        for _ in range(n - 1):
            for _try in range(6):
                op = r.choice(OPS)
                t2, v2 = self.term(depth)
                try:
                    nv = apply(op, v, v2)
                except EvalError:
                    continue
                gap = self.sp()
                if op == "!=" and not gap and (t[-1].isalnum() or t[-1] in "_.!?[]"):
                    gap = " "  # '!' can be part of a name
                t = t + gap + op + self.sp() + t2
                v = nv
                self.feat.add(op)
                break
        return t, v

    def small(self, depth=3, limit=200):
        while True:
            self.feat = set()
            t, v = self.expr(depth)
            if len(t) <= limit:
                return t, v


import re as _re
_TOK = _re.compile(r"\s*(?:(\$[0-9A-Fa-f]+)|([A-Za-z_][\w.]*)|(\d+)|(<<|>>|&&|\|\||<=|>=|==|!=|[-+*/%^&|<>=~(),]))")


def evaluate(text, env):
    """Evaluate expression text; env maps upper-case names to int values (or callables)."""
    toks, i = [], 0
    while i < len(text):
        if text[i:].isspace():
            break
        m = _TOK.match(text, i)
        if not m:
            raise ValueError("bad expression %r at %d" % (text, i))
        i = m.end()
        if m.group(1):
            toks.append(int(m.group(1)[1:], 16))
        elif m.group(2):
            if i < len(text) and text[i] == "(":
                toks.append(("call", m.group(2).upper()))
            else:
                v = env[m.group(2).upper()]
                toks.append(v() if callable(v) else v)
        elif m.group(3):
            toks.append(int(m.group(3)))
        else:
            toks.append(m.group(4))
    pos = 0

    def term():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if isinstance(t, tuple):
            a = []
            pos += 1
            while toks[pos] != ")":
                a.append(ex())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return env.call(t[1], a)
        if t in ("~", "-", "+"):
            v = term()
            return {"~": w(~v), "-": w(-v), "+": v}[t]
        if t == "(":
            v = ex()
            pos += 1
            return v
        return w(t)

    def ex():
        nonlocal pos
        v = term()
        while pos < len(toks) and toks[pos] not in (")", ","):
            op = toks[pos]
            pos += 1
            v = apply(op, v, term())
        return v
    return ex()


def simple(rng, names, depth=2, n=None):
    """Expression text over names, always defined (no division by zero)."""
    def term(d):
        k = rng.random()
        u = rng.choice(["-", "~"]) if rng.random() < .08 else ""
        if d and k < .2:
            return u + "(" + body(d - 1) + ")"
        if names and k < .7:
            return u + rng.choice(names)
        v = rng.choice(INTERESTING) if rng.random() < .3 else rng.randrange(1 << rng.choice([3, 8, 16]))
        return u + ("$%X" % v if rng.random() < .4 else "%d" % v)

    def body(d, m=None):
        s = term(d)
        for _ in range((m or rng.choice([1, 1, 2, 3])) - 1):
            op = rng.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "==", "<", ">", "<=", ">=", "/", "%", "+", "-", "&&", "||"])
            sp = rng.choice(["", "", " "])
            s += sp + op + sp + (str(rng.randrange(1, 300)) if op in "/%" else term(d))
        return s
    return body(depth, n)
