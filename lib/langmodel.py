"""A reference model of the language: random typed programs as trees, a renderer to
source text, and an evaluator written from the Meson language definition. Values are
Python int/bool/str/list/dict and are never shared, so any aliasing shows."""
import re

MAXI = (1 << 63) - 1


class MErr(Exception):
    """the program ends in an error at the statement being evaluated"""


class Skip(Exception):
    """the program does something the definition leaves open"""


BUDGET = [0]        # container elements copied since the last Interp was made


def copyv(v):
    if isinstance(v, (list, dict)):
        BUDGET[0] += 1 + len(v)
        if BUDGET[0] > 60000:
            raise Skip()
    if isinstance(v, list):
        return [copyv(x) for x in v]
    if isinstance(v, dict):
        return {k: copyv(x) for k, x in v.items()}
    return v


def ty(v):
    return {bool: "bool", int: "int", str: "str", list: "list", dict: "dict"}[type(v)]


def esc(c):
    return c if ord(c) >= 32 else "\\" + "abtnvfr"[ord(c) - 7] if 7 <= ord(c) <= 13 else "\\%d" % ord(c)


def show_top(v):
    return "".join(c if c in "\t\n\r" else esc(c) for c in v)


def show(v, ind=0, top=True):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return show_top(v) if top else "'" + "".join(esc(c) for c in v) + "'"
    p = "  " * (ind + 1)
    if isinstance(v, list):
        return "[\n" + p + (",\n" + p).join(show(x, ind + 1, False) for x in v) + "\n" + "  " * ind + "]"
    return "{\n" + p + (", \n" + p).join("'%s': %s" % (k, show(x, ind + 1, False)) for k, x in v.items()) + "\n" + "  " * ind + "}"


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def eq(a, b):
    if ty(a) != ty(b):
        raise Skip()
    return eqd(a, b)


def eqd(a, b):
    """deep, type-strict equality (False is not 0)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(eqd(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eqd(a[k], b[k]) for k in a)
    return a == b


def pathjoin(a, b):
    if b.startswith("/"):
        return b
    if a == "" or b == "":
        raise Skip()
    r = a + ("" if a.endswith("/") else "/") + b
    return r


def chk(i):
    if not -MAXI - 1 <= i <= MAXI:
        raise MErr("overflow")
    return i


ARITH = ("+", "-", "*", "/", "%")
PREC = {"?": 1, "or": 2, "and": 3, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "in": 4, "not in": 4,
        "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, "not": 7, "neg": 7, "post": 9, "lit": 10}


class Interp:
    def __init__(self):
        BUDGET[0] = 0
        self.vars = {}
        self.out = []
        self.steps = 0
        self.funcs = {}

    def ev(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Skip()
        return getattr(self, "e_" + n[0])(*n[1:])

    def e_lit(self, v, *_):
        return copyv(v)

    def e_var(self, name):
        if name not in self.vars:
            raise MErr("undefined " + name)
        return copyv(self.vars[name])

    def e_list(self, xs):
        return [self.ev(x) for x in xs]

    def e_dict(self, kvs):
        d = {}
        for k, v in kvs:
            kk = self.ev(k)
            vv = self.ev(v)
            if not isinstance(kk, str):
                raise MErr("key type")
            if kk in d:
                raise MErr("dup key")
            d[kk] = vv
        return d

    def e_fstr(self, parts):
        out = ""
        for p in parts:
            if len(out) > 20000:
                raise Skip()
            if isinstance(p, str):
                out += p
            else:
                v = self.ev(p)
                if isinstance(v, (list, dict)):
                    raise Skip()
                out += v if isinstance(v, str) else show(v)
        return out

    def e_trace(self, t, label, x):
        v = self.ev(x)
        if ty(v) != t:
            raise MErr("arg type")
        self.out.append("T%s %s" % (label, show(v)))
        return v

    def e_un(self, op, x):
        v = self.ev(x)
        if op == "not":
            if ty(v) != "bool":
                raise MErr("not")
            return not v
        if ty(v) != "int":
            raise MErr("neg")
        return chk(-v)

    def e_tern(self, c, a, b):
        v = self.ev(c)
        if ty(v) != "bool":
            raise MErr("cond")
        return self.ev(a if v else b)

    def e_idx(self, x, i):
        v = self.ev(x)
        k = self.ev(i)
        if isinstance(v, (list, str)):
            if ty(k) != "int":
                raise MErr("index type")
            if isinstance(v, str) and any(ord(c) > 127 for c in v):
                raise Skip()
            if not -len(v) <= k < len(v):
                raise MErr("bounds")
            return v[k]
        if isinstance(v, dict):
            if ty(k) != "str":
                raise MErr("key type")
            if k not in v:
                raise MErr("no key")
            return v[k]
        raise MErr("index")

    def e_get(self, name, dflt):
        d = self.ev(dflt) if dflt else None
        if name in self.vars:
            return copyv(self.vars[name])
        if dflt is None:
            raise MErr("undefined")
        return d

    def e_call(self, fn, args):
        return self.call(fn, [self.ev(a) for a in args])

    def call(self, fn, vals):
        params, body, ret, rline = self.funcs[fn]
        line = self.line
        save = self.vars
        self.vars = dict((k, copyv(v)) for k, v in self.captured.get(fn, {}).items())
        for (p, t), v in zip(params, vals):
            self.vars[p] = copyv(v)
        try:
            self.block(body)
            self.line = rline
            v = self.ev(ret)
            self.line = line
            return v
        finally:
            self.vars = save

    captured = {}

    def e_bin(self, op, l, r):
        a = self.ev(l)
        if op in ("and", "or"):
            if ty(a) != "bool":
                raise MErr(op)
            if a == (op == "or"):
                return a
            b = self.ev(r)
            if ty(b) != "bool":
                raise MErr(op)
            return b
        b = self.ev(r)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        ta, tb = ty(a), ty(b)
        if op in ("==", "!="):
            return eq(a, b) == (op == "==")
        if op in ("<", "<=", ">", ">="):
            if ta != "int" or tb != "int":
                if ta == tb == "str":
                    raise Skip()
                raise MErr(op)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if op in ("in", "not in"):
            if tb == "list":
                r = any(eqd(a, x) for x in b)
            elif tb == "dict":
                if ta != "str":
                    raise MErr("in")
                r = a in b
            elif tb == "str":
                if ta != "str":
                    raise MErr("in")
                r = a in b
            else:
                raise MErr("in")
            return r == (op == "in")
        if op == "+" and ta == "list":
            if len(a) > 3000 or tb == "list" and len(b) > 3000:
                raise Skip()
            return a + b if tb == "list" else a + [b]
        if op == "+" and ta == "dict":
            if tb != "dict":
                raise MErr("+")
            d = dict(a)
            d.update(b)
            return d
        if op in "+/" and ta == tb == "str" and len(a) + len(b) > 20000:
            raise Skip()
        if op == "+" and ta == "str" and tb == "str":
            return a + b
        if op == "/" and ta == "str" and tb == "str":
            return pathjoin(a, b)
        if ta != "int" or tb != "int":
            raise MErr(op)
        if op == "+":
            return chk(a + b)
        if op == "-":
            return chk(a - b)
        if op == "*":
            return chk(a * b)
        if b == 0:
            raise MErr("div")
        if a < 0 or b < 0:
            raise Skip()
        return a // b if op == "/" else a % b

    # statements: each is [kind, lines(lo,hi), ...]
    def block(self, b):
        for s in b:
            self.st(s)

    def st(self, s):
        self.line = s[1]
        k = s[0]
        if k == "set":
            self.vars[s[2]] = self.ev(s[3])
        elif k == "add":
            if s[2] not in self.vars:
                raise MErr("undefined")
            v = self.ev(s[3])
            self.vars[s[2]] = self.binop("+", copyv(self.vars[s[2]]), v)
        elif k == "setvar":
            self.vars[s[2]] = self.ev(s[3])
        elif k == "msg":
            self.out.append(" ".join([show(self.ev(x)) for x in s[2]]))
        elif k == "dump":
            for v in s[2]:
                if v in self.vars:
                    self.out.append(v + " " + show(self.vars[v]))
        elif k == "if":
            for cond, line, body in s[2]:
                self.line = line
                if cond is not None:
                    c = self.ev(cond)
                    if ty(c) != "bool":
                        raise MErr("cond")
                    if not c:
                        continue
                self.block(body)
                break
        elif k == "for":
            it = self.ev(s[3])
            names = s[2]
            if isinstance(it, list):
                if len(names) != 1:
                    raise MErr("vars")
                seq = [(copyv(x),) for x in it]
            elif isinstance(it, dict):
                if len(names) != 2:
                    raise MErr("vars")
                seq = [(k_, copyv(v)) for k_, v in it.items()]
            else:
                raise MErr("iter")
            for vals in seq:
                for n_, v in zip(names, vals):
                    self.vars[n_] = v
                try:
                    self.block(s[4])
                except Brk:
                    break
                except Cont:
                    continue
        elif k == "brk":
            raise Brk()
        elif k == "cont":
            raise Cont()
        elif k == "func":
            self.funcs[s[2]] = (s[3], s[4], s[5], s[8])
            self.captured = dict(self.captured)
            self.captured[s[2]] = dict((a, copyv(b)) for a, b in self.vars.items()) if s[6] else {}
        elif k == "expr":
            self.ev(s[2])
        else:
            raise AssertionError(k)

    def e_range(self, args):
        v = [self.ev(a) for a in args]
        if any(x < 0 for x in v) or (len(v) == 3 and v[2] < 1) or (len(v) > 1 and v[1] < v[0]):
            raise Skip()
        return list(range(*v))

    def e_meth(self, name, x, args):
        v = self.ev(x)
        a = [self.ev(y) for y in args]
        if (ty(v), name) not in METH:
            raise MErr("no method")
        for y, w in zip(a, ARGT.get((ty(v), name), ())):
            if ty(y) != w:
                raise MErr("arg type")
        if name == "join" and any(ty(y) != "str" for y in a[0]):
            raise MErr("arg type")
        if name == "join" and sum(map(len, a[0])) + len(v) * len(a[0]) > 20000:
            raise Skip()
        return METH[(ty(v), name)](v, *a)


def m_get(d, k, dflt=None):
    if ty(k) != "str":
        raise MErr("type")
    if k in d:
        return d[k]
    if dflt is None:
        raise MErr("no key")
    return dflt


def m_getl(l, i, dflt=None):
    if -len(l) <= i < len(l):
        return l[i]
    if dflt is None:
        raise MErr("bounds")
    return dflt


METH = {
    ("list", "length"): len, ("list", "contains"): lambda l, x: l_contains(l, x), ("list", "get"): m_getl,
    ("dict", "keys"): lambda d: list(d), ("dict", "has_key"): lambda d, k: k in d, ("dict", "get"): m_get,
    ("int", "to_string"): str, ("int", "is_even"): lambda i: i % 2 == 0, ("int", "is_odd"): lambda i: i % 2 == 1,
    ("bool", "to_int"): int, ("bool", "to_string"): lambda b, t="true", f="false": t if b else f,
    ("str", "to_upper"): str.upper, ("str", "strip"): lambda s: s.strip(" \t\n\r\f\v"),
    ("str", "startswith"): str.startswith, ("str", "endswith"): str.endswith, ("str", "contains"): lambda s, x: x in s,
    ("str", "join"): lambda s, l: s.join(l),
}


ARGT = {("list", "get"): ("int",), ("dict", "has_key"): ("str",), ("dict", "get"): ("str",), ("bool", "to_string"): ("str", "str"),
        ("str", "startswith"): ("str",), ("str", "endswith"): ("str",), ("str", "contains"): ("str",), ("str", "join"): ("list",)}


def l_contains(l, x):
    return any(eqd(x, y) or (isinstance(y, list) and l_contains(y, x)) for y in l)


class Brk(Exception):
    pass


class Cont(Exception):
    pass


ESCS = [("\\n", "\n"), ("\\'", "'"), ("\\\\", "\\"), ("\\t", "\t"), ("\\x41", "A"), ("\\101", "A"), ("\\60", "0"),
        ("\\7", "\x07"), ("\\u00e9", "\u00e9"), ("\\U0001F600", "\U0001F600"), ("\\q", "\\q"), ("\\a", "\x07"), ("\\x7a", "z"),
        ("\\b", "\b"), ("\\f", "\f"), ("\\v", "\v"), ("\\r", "\r"), ("\\1018", "A8"), ("\\u0041b", "Ab"), ("\\x4142", "A42"),
        ("\\18", "\x018"), ("\\ ", "\\ ")]


class Render:
    def __init__(self, rng, trace):
        self.r = rng
        self.trace = trace
        self.lines = [""]

    def line(self):
        return len(self.lines)

    def ex(self, n, prec=0):
        """source of n, parenthesised if it binds weaker than prec"""
        r = self.r
        k = n[0]
        p = 10
        if k == "lit":
            v = n[1]
            if len(n) > 2:
                s = n[2]
            elif isinstance(v, bool):
                s = "true" if v else "false"
            elif isinstance(v, int):
                q = r.random()
                if v < 0:
                    s, p = "-%d" % -v, 7
                else:
                    s = ("0x%x" % v if q < .1 else "0b%s" % bin(v)[2:] if q < .15 else "0o%o" % v if q < .2 else
                         "0X%X" % v if q < .22 else str(v))
            elif isinstance(v, str):
                s = self.strlit(v)
            elif isinstance(v, list):
                s = self.ex(("list", [("lit", x) for x in v]))
            else:
                s = self.ex(("dict", [(("lit", a), ("lit", b)) for a, b in v.items()]))
        elif k == "var":
            s = n[1]
        elif k == "list":
            s = "[" + self.nl() + ("," + self.sp()).join(self.ex(x) for x in n[1]) + (r.choice(["", "", ","]) if n[1] else "") + "]"
        elif k == "dict":
            s = "{" + self.nl() + ("," + self.sp()).join(self.ex(a) + r.choice([": ", ":", " : "]) + self.ex(b) for a, b in n[1]) + "}"
        elif k == "fstr":
            s = "f'" + "".join(x.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") if isinstance(x, str)
                               else "@%s@" % x[1] for x in n[1]) + "'"
        elif k == "trace":
            s = "t_%s('%s', %s)" % (n[1], n[2], self.ex(n[3]))
        elif k == "un":
            p = 7
            s = ("not " if n[1] == "not" else "-") + self.ex(n[2], 9)
        elif k == "tern":
            p = 1
            s = "%s ? %s : %s" % (self.ex(n[1], 2), self.ex(n[2], 1), self.ex(n[3], 1))
        elif k == "idx":
            p = 9
            s = "%s[%s]" % (self.ex(n[1], 9), self.ex(n[2]))
        elif k == "get":
            p = 9
            s = "get_variable('%s'%s)" % (n[1], ", " + self.ex(n[2]) if n[2] else "")
        elif k == "range":
            p = 9
            s = "range(%s)" % ", ".join(self.ex(x) for x in n[1])
        elif k == "call":
            p = 9
            s = "%s(%s)" % (n[1], (", " + self.nl()).join(self.ex(x) for x in n[2]))
        elif k == "meth":
            p = 9
            x = self.ex(n[2], 9)
            if n[2][0] == "lit" and isinstance(n[2][1], int) and not isinstance(n[2][1], bool):
                x = "(" + x + ")"
            s = "%s.%s(%s)" % (x, n[1], ", ".join(self.ex(y) for y in n[3]))
        elif k == "bin":
            op = n[1]
            p = PREC[op]
            nonassoc = p == 4
            s = self.ex(n[2], p + 1 if nonassoc else p) + self.osp(op) + self.ex(n[3], p + 1)
        else:
            raise AssertionError(k)
        if p < prec or (r.random() < .06 and k not in ("lit",)):
            s = "(" + self.nl() + s + self.nl() + ")"
        return s

    def nl(self):
        return self.r.choice(["", "", "", "", "", "\n", "  "]) if self.multi else ""

    def sp(self):
        return self.r.choice([" ", "", "\n", " # c\n"] if self.multi else [" ", " ", ""])

    def osp(self, op):
        if op.isalpha() or " " in op:
            return " " + op + " "
        return self.r.choice([" " + op + " "] * 3 + [op, "  " + op + " "])

    def strlit(self, v):
        r = self.r
        if r.random() < .2 and "'''" not in v and not v.endswith("'") and "\r" not in v and (self.multi or "\n" not in v) \
                and not any(ord(c) < 32 and c != "\n" for c in v):
            return "'''" + v + "'''"
        out = ""
        for c in v:
            o = ord(c)
            if c == "\\":
                out += "\\\\"
            elif c == "'":
                out += "\\'"
            elif c == "\n":
                out += "\\n"
            elif o < 32 or o == 127:
                out += r.choice(["\\%03o", "\\x%02x"]) % o
            elif o < 127 and r.random() < .03:
                out += r.choice(["\\%03o", "\\x%02x", "\\u%04x"]) % o
            else:
                out += c
        return "'" + out + "'"

    def emit(self, text, ind):
        lo = len(self.lines)
        self.lines[-1] += " " * (self.r.choice([4, 4, 2, 1]) * ind if not self.tab else 0) + ("\t" * ind if self.tab else "") + text
        n = text.count("\n")
        hi = lo + n
        joined = self.lines.pop().split("\n")
        self.lines += joined
        if self.r.random() < .06:
            self.lines[-1] += self.r.choice(["  # comment", " ", "\t"])
        self.lines.append("")
        if self.r.random() < .05:
            self.lines[-1] = self.r.choice(["# a comment 'x'", "", "    "])
            self.lines.append("")
        return (lo, hi)

    def stmts(self, b, ind=0):
        for s in b:
            k = s[0]
            if k == "set":
                s[1] = self.emit("%s = %s" % (s[2], self.ex(s[3])), ind)
            elif k == "add":
                s[1] = self.emit("%s += %s" % (s[2], self.ex(s[3])), ind)
            elif k == "setvar":
                s[1] = self.emit("set_variable('%s', %s)" % (s[2], self.ex(s[3])), ind)
            elif k == "msg":
                s[1] = self.emit("message(%s)" % ", ".join(self.ex(x) for x in s[2]), ind)
            elif k == "expr":
                s[1] = self.emit(self.ex(s[2]), ind)
            elif k == "dump":
                for v in s[2]:
                    s[1] = self.emit("message('%s', %s)" % (v, v), ind)
            elif k == "if":
                for i, c in enumerate(s[2]):
                    if c[0] is None:
                        c[1] = self.emit("else", ind)
                    else:
                        c[1] = self.emit("%s %s" % ("elif" if i else "if", self.ex(c[0])), ind)
                    self.stmts(c[2], ind + 1)
                self.emit("endif", ind)
            elif k == "for":
                s[1] = self.emit("foreach %s : %s" % (", ".join(s[2]), self.ex(s[3])), ind)
                self.stmts(s[4], ind + 1)
                self.emit("endforeach", ind)
            elif k == "brk":
                s[1] = self.emit("break", ind)
            elif k == "cont":
                s[1] = self.emit("continue", ind)
            elif k == "func":
                s[1] = self.emit("func %s(%s) -> %s" % (s[2], ", ".join("%s %s" % p for p in s[3]), s[7]), ind)
                self.stmts(s[4], ind + 1)
                s.append(self.emit("return %s" % self.ex(s[5]), ind + 1))
                self.emit("endfunc", ind)

    multi = True
    tab = False


TRACERS = "".join("func t_%s(l str, x %s) -> %s\n    message('T' + l, x)\n    return x\nendfunc\n" % (t, u, u)
                  for t, u in (("int", "int"), ("bool", "bool"), ("str", "str"), ("list", "list[any]"), ("dict", "dict[any]")))

STRV = ["", "a", "b", "ab", "abc", "x y", "it's", "back\\slash", "new\nline", "\u00e9", "a/b", "1", "@a@", "@", "#no", "true",
        "\t", "'", "''", "\\n", "v1.2"]
KEYS = ["a", "b", "k", "x y", "0", "\u00e9"]


class Gen:
    def __init__(self, rng, tracers=True, bad=0.03, names=None):
        self.r = rng
        self.tracers = tracers
        self.bad = bad
        self.env = {}          # variable -> type
        self.d = 0
        self.loop = 0
        self.tn = 0
        self.fns = {}

    def typ(self, d=0):
        r = self.r
        k = r.random()
        if d > 1 or k < .3:
            return r.choice(["int", "int", "bool", "str"])
        return r.choice(["int", "bool", "str", ("list", self.typ(d + 1)), ("dict", self.typ(d + 1)), ("list", "int")])

    def lit(self, t):
        r = self.r
        if t == "int":
            return ("lit", r.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, 100, 255, 1000000007, MAXI, MAXI - 1, -1, -5] if r.random() < .3
                                    else [0, 1, 2, 3, 4, 5, 9, 12]))
        if t == "bool":
            return ("lit", r.random() < .5)
        if t == "str":
            if r.random() < .12:
                pieces = [r.choice(ESCS) for _ in range(r.randrange(1, 4))]
                src, val = "", ""
                for s, v in pieces:
                    # a following hex/octal digit would extend \x4 or \7: separate them
                    src, val = src + s + "-", val + v + "-"
                return ("lit", val, "'" + src + "'")
            return ("lit", r.choice(STRV))
        if t[0] == "list":
            return ("list", [self.expr(t[1]) for _ in range(r.randrange(4))])
        ks = r.sample(KEYS, r.randrange(4))
        return ("dict", [(("lit", k), self.expr(t[1])) for k in ks])

    def var(self, t):
        c = [v for v, u in self.env.items() if u == t]
        return ("var", self.r.choice(c)) if c else None

    def expr(self, t):
        r = self.r
        self.d += 1
        try:
            if self.bad and r.random() < self.bad:
                return self.badexpr()
            n = self.expr_(t)
            if self.tracers and r.random() < .05:
                self.tn += 1
                n = ("trace", t if isinstance(t, str) else t[0], str(self.tn), n)
            return n
        finally:
            self.d -= 1

    def badexpr(self):
        r = self.r
        b, s, i, l = ("lit", True), ("lit", "s"), ("lit", 3), ("list", [("lit", 1)])
        return r.choice([
            ("bin", "+", i, s), ("bin", "+", s, i), ("bin", "-", s, s), ("bin", "*", l, i), ("bin", "/", i, ("lit", 0)),
            ("bin", "%", i, ("lit", 0)), ("un", "not", i), ("un", "neg", s), ("bin", "and", i, b), ("bin", "or", ("lit", False), i),
            ("bin", "and", b, s), ("bin", "or", ("lit", False), s), ("idx", l, ("lit", 1)), ("idx", l, ("lit", -2)), ("idx", l, b),
            ("idx", ("dict", [(s, i)]), ("lit", "t")), ("idx", ("dict", [(s, i)]), i), ("idx", s, ("lit", 1)), ("idx", i, i),
            ("tern", i, i, i), ("bin", "<", i, b), ("bin", ">=", l, i), ("bin", "in", i, i), ("bin", "in", i, s),
            ("var", "nosuchvar"), ("bin", "+", ("lit", MAXI), ("lit", 1)), ("bin", "*", ("lit", MAXI), ("lit", 2)),
            ("bin", "-", ("lit", -MAXI), ("lit", 2)), ("dict", [(("lit", "a"), i), (("lit", "a"), i)]), ("dict", [(i, i)]),
            ("bin", "+", b, b), ("bin", "+", ("dict", []), l), ("meth", "get", ("dict", []), [s]), ("get", "nosuchvar", None),
            ("bin", "in", l, ("dict", [])), ("bin", "+", ("dict", [(s, i)]), i)])

    def expr_(self, t):
        r = self.r
        k = r.random()
        if self.d > 4 or k < .25:
            v = self.var(t)
            return v if v and r.random() < .7 else self.lit(t)
        if k < .31:
            return ("tern", self.expr("bool"), self.expr(t), self.expr(t))
        if k < .37:
            v = self.var(("list", t))
            return ("idx", v, ("lit", r.choice([0, 0, 1, -1]))) if v else ("idx", ("list", [self.expr(t) for _ in range(r.randrange(1, 4))]),
                                                                          ("lit", r.choice([0, -1])))
        if k < .42:
            v = self.var(("dict", t))
            if v and r.random() < .5:
                return ("meth", "get", v, [("lit", r.choice(KEYS)), self.expr(t)])
            ks = r.sample(KEYS, 2)
            return ("idx", ("dict", [(("lit", x), self.expr(t)) for x in ks]), ("lit", r.choice(ks)))
        if k < .45:
            v = self.var(t)
            if v:
                return ("get", v[1], self.expr(t) if r.random() < .5 else None)
            return ("get", "nosuch", self.expr(t))
        fs = [f for f, sg in self.fns.items() if sg[1] == t]
        if fs and k < .6:
            f = r.choice(fs)
            return ("call", f, [self.expr(x) for x in self.fns[f][0]])
        return getattr(self, "x_" + (t if isinstance(t, str) else t[0]))(t)

    def x_int(self, t):
        r = self.r
        k = r.random()
        if k < .7:
            op = r.choice(["+", "+", "-", "-", "*", "/", "%"])
            rhs = self.expr("int")
            if op in "/%" and r.random() < .85:
                rhs = ("lit", r.choice([1, 2, 3, 7]))
            return ("bin", op, self.expr("int"), rhs)
        if k < .8:
            return ("un", "neg", self.expr("int"))
        if k < .9:
            return ("meth", "length", self.expr(("list", self.typ(2))), [])
        return ("meth", "to_int", self.expr("bool"), [])

    def x_bool(self, t):
        r = self.r
        k = r.random()
        if k < .35:
            return ("bin", r.choice(["and", "or"]), self.expr("bool"), self.expr("bool"))
        if k < .45:
            return ("un", "not", self.expr("bool"))
        if k < .6:
            return ("bin", r.choice(["<", "<=", ">", ">="]), self.expr("int"), self.expr("int"))
        if k < .75:
            u = self.typ(1)
            return ("bin", r.choice(["==", "!="]), self.expr(u), self.expr(u))
        if k < .9:
            u = self.typ(2)
            q = r.random()
            if q < .5:
                return ("bin", r.choice(["in", "not in"]), self.expr(u), self.expr(("list", u)))
            if q < .75:
                return ("bin", r.choice(["in", "not in"]), self.expr("str"), self.expr(("dict", u)))
            return ("bin", r.choice(["in", "not in"]), self.expr("str"), self.expr("str"))
        if k < .95:
            return ("meth", r.choice(["startswith", "endswith", "contains"]), self.expr("str"), [self.expr("str")])
        return ("meth", "has_key", self.expr(("dict", self.typ(2))), [self.expr("str")])

    def x_str(self, t):
        r = self.r
        k = r.random()
        if k < .35:
            return ("bin", "+", self.expr("str"), self.expr("str"))
        if k < .45:
            return ("bin", "/", self.expr("str"), self.expr("str"))
        if k < .65:
            parts = []
            for _ in range(r.randrange(1, 5)):
                v = self.var(r.choice(["int", "str", "bool"]))
                if v and r.random() < .6:
                    parts.append(v)
                else:
                    parts.append(r.choice(["x", " ", "@", "@ @", "q@1@", "a'b", "\\", "\n", "@@"]))
            # adjacency of a lone @ and a variable is ambiguous to read: keep them apart
            txt = "".join(p if isinstance(p, str) else "@%s@" % p[1] for p in parts)
            if re.findall(r"@([a-zA-Z_]\w*)@", txt) == [p[1] for p in parts if not isinstance(p, str)] and \
                    re.sub(r"@[a-zA-Z_]\w*@", "\0", txt) == "".join(p if isinstance(p, str) else "\0" for p in parts):
                return ("fstr", parts)
            return ("lit", "amb")
        if k < .75:
            return ("meth", "to_string", self.expr("int"), [])
        if k < .85:
            return ("meth", "to_string", self.expr("bool"), [self.lit("str"), self.lit("str")] if r.random() < .5 else [])
        if k < .93:
            return ("meth", "join", self.lit("str"), [self.expr(("list", "str"))])
        return ("meth", "strip", self.expr("str"), [])

    def x_list(self, t):
        r = self.r
        k = r.random()
        if k < .5:
            return ("bin", "+", self.expr(t), self.expr(t))
        if k < .65 and isinstance(t[1], str):
            return ("bin", "+", self.expr(t), self.expr(t[1]))
        if k < .75 and t[1] == "str":
            return ("meth", "keys", self.expr(("dict", self.typ(2))), [])
        return ("list", [self.expr(t[1]) for _ in range(r.randrange(4))])

    def x_dict(self, t):
        if self.r.random() < .5:
            return ("bin", "+", self.expr(t), self.expr(t))
        return self.lit(t)

    def stmt(self, d):
        r = self.r
        k = r.random()
        if k < .38:
            t = self.typ()
            name = r.choice(["a", "b", "c", "d", "x", "y", "_v", "n1"])
            if name in self.env and (self.inner or r.random() < .5):
                t = self.env[name]
            e = self.expr(t)
            if not self.inner:
                self.env[name] = t
            elif name not in self.env:
                return ["msg", None, [e]]
            return [r.choice(["set"] * 5 + ["setvar"]), None, name, e]
        if k < .48:
            c = [v for v, t in self.env.items() if t != "bool"]
            if c:
                v = r.choice(c)
                t = self.env[v]
                if isinstance(t, tuple) and t[0] == "list" and isinstance(t[1], str) and r.random() < .4:
                    t = t[1]
                return ["add", None, v, self.expr(t)]
        if k < .70 or d > 3:
            return ["msg", None, [self.expr(self.typ()) for _ in range(r.choice([1, 1, 1, 2]))]]
        if k < .86:
            br = [[self.expr("bool"), None, self.block(d + 1)]]
            while r.random() < .35:
                br.append([self.expr("bool"), None, self.block(d + 1)])
            if r.random() < .5:
                br.append([None, None, self.block(d + 1)])
            return ["if", None, br]
        q = r.random()
        t = self.typ(1)
        save = dict(self.env)
        names = [r.choice(["i", "j", "k", "x"])]
        if q < .25:
            it = ("range", [("lit", x) for x in r.choice([[3], [0], [1, 4], [0, 7, 3], [2, 2], [1, 10, 4]])])
            t = "int"
        elif q < .7:
            it = self.expr(("list", t))
        else:
            it = self.expr(("dict", t))
            names = ["key", names[0]]
            self.env["key"] = "str"
        if names[-1] in save and save[names[-1]] != t:
            names[-1] = "it%d" % d
        self.env[names[-1]] = t
        self.loop += 1
        body = self.block(d + 1, True)
        self.loop -= 1
        self.env = save
        return ["for", None, names, it, body]

    inner = 0

    def block(self, d, loop=False):
        r = self.r
        self.inner += 1
        b = [self.stmt(d) for _ in range(r.randrange(1, 4))]
        if self.loop and r.random() < .3:
            b.append(["if", None, [[self.expr("bool"), None, [[r.choice(["brk", "cont"]), None]]]]])
            b.append(self.stmt(d + 1))
        elif self.loop and r.random() < .1:
            b.append([r.choice(["brk", "cont"]), None])
        self.inner -= 1
        return b

    def func(self):
        """a user-defined function of the embedded language"""
        r = self.r
        name = "f%d" % len(self.fns)
        simple = lambda: r.choice(["int", "bool", "str", ("list", "int"), ("dict", "str")])
        ps = [("p%d" % i, simple()) for i in range(r.randrange(0, 4))]
        rt = simple()
        save, self.env, sl, self.loop = self.env, dict(ps), self.loop, 0
        sf, self.fns = self.fns, {}
        self.inner += 1
        body = [self.stmt(2) for _ in range(r.randrange(1, 3))] + [["msg", None, [("lit", name)] + [("var", p) for p, _ in ps]]]
        ret = self.expr(rt)
        self.inner -= 1
        self.env, self.loop, self.fns = save, sl, sf
        tn = lambda t: t if isinstance(t, str) else "%s[%s]" % t
        self.fns[name] = ([t for _, t in ps], rt)
        return ["func", None, name, [(p, tn(t)) for p, t in ps], body, ret, False, tn(rt)]


def make(rng, n, tracers=True, bad=.003, final_dump=True, funcs=True):
    """-> (source, expected messages, error line range or None), or None if the definition leaves it open"""
    g = Gen(rng, tracers, bad)
    prog = []
    for _ in range(n):
        if tracers and funcs and rng.random() < .1:
            prog.append(g.func())
        else:
            prog.append(g.stmt(0))
    if final_dump:
        prog.append(["dump", None, sorted(g.env)])
    return run(rng, prog, tracers)


def run(rng, prog, tracers=True, head=""):
    rd = Render(rng, tracers)
    rd.tab = rng.random() < .1
    rd.multi = rng.random() < .5
    rd.lines = (head + (TRACERS if tracers else "")).split("\n")
    rd.stmts(prog)
    src = "\n".join(rd.lines)
    it = Interp()
    err = None
    try:
        it.block(prog)
    except MErr as e:
        err = (it.line, str(e))
    except (Brk, Cont):
        raise AssertionError("loop control")
    except Skip:
        return None
    if sum(map(len, it.out)) > 60000:
        return None
    return src, it.out, err


def compare(text, fname, out, err, rc):
    """None if muon's merged output of the program agrees with the model, else what differs"""
    m = re.search(r"^(?:.*/)?%s:(\d+):(\d+): error " % re.escape(fname), text, re.M)
    body = text[:m.start()] if m else text
    got = norm(re.sub(r"(?m)^message: ", "message: ", body))
    want = norm("".join("message: %s \n" % o for o in out))
    if err is None:
        if rc != 0:
            return "expected success, got rc=%s %s" % (rc, m.group(0) if m else text[-300:])
        if got != want:
            return "messages differ:\n got  %s\n want %s" % diffat(got, want)
        return None
    if rc == 0:
        return "expected an error (%s) at line %s, got success" % (err[1], err[0])
    if got != want:
        return "messages before the error differ:\n got  %s\n want %s" % diffat(got, want)
    if not m:
        return "error without a location: " + text[-300:]
    lo, hi = err[0]
    if not lo <= int(m.group(1)) <= hi:
        return "error reported at line %s, expected line %d..%d (%s)" % (m.group(1), lo, hi, err[1])
    return None


def diffat(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 60):i + 200], b[max(0, i - 60):i + 200]
