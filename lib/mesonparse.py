"""A small parser of build files of our own: text -> tree, used to compare what a file says
before and after formatting. Parentheses, layout, comments and trailing commas leave no trace
in the tree; the arguments of files() are kept as a sorted list with lone arrays unwrapped."""
import re

TOK = re.compile(r"""(?P<sp>[ \t\r]+|\\[ \t]*\r?\n)|(?P<c>\#[^\n]*)|(?P<nl>\n)|(?P<s>f?'''.*?'''|f?'(?:[^\\'\n]|\\.)*')
|(?P<n>0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|\d+)|(?P<i>[A-Za-z_]\w*)|(?P<o>->|\+=|==|!=|<=|>=|[-+*/%<>=.,:?()\[\]{}|])""", re.S | re.X)
KW = {"if", "elif", "else", "endif", "foreach", "endforeach", "and", "or", "not", "in", "true", "false", "continue", "break", "testcase", "endtestcase"}
KWF = KW | {"func", "endfunc", "return"}


class Bad(Exception):
    pass


def tokens(text, keep_nl=False):
    """[(kind, text, position)], newlines inside brackets dropped; and the comments"""
    out, com, depth, i = [], [], 0, 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Bad("character %r at %d" % (text[i], i))
        k = m.lastgroup
        t = m.group()
        if k == "c":
            com.append(t.rstrip())
        elif k == "nl":
            if depth == 0 and out and out[-1][0] != "nl":
                out.append(("nl", "\n", i))
        elif k != "sp":
            if t in ("(", "[", "{") and k == "o":
                depth += 1
            elif t in (")", "]", "}") and k == "o":
                depth -= 1
            out.append((k, t, i))
        i = m.end()
    if out and out[-1][0] != "nl":
        out.append(("nl", "\n", len(text)))
    return out, com


def canon(ts):
    """a type with the members of its unions in a fixed order"""
    def union(i):
        out = []
        while True:
            n = ts[i]
            i += 1
            if i < len(ts) and ts[i] == "[":
                sub, i = union(i + 1)
                n += "[" + sub + "]"
                i += 1
            out.append(n)
            if i < len(ts) and ts[i] == "|":
                i += 1
                continue
            return "|".join(sorted(out)), i
    return union(0)[0] if ts else None


class P:
    def __init__(self, toks, ext):
        self.t, self.p, self.kw, self.sorted = toks, 0, KWF if ext else KW, False

    def peek(self, *xs):
        k, t, _ = self.t[self.p] if self.p < len(self.t) else ("eof", "", 0)
        return k not in ("s", "eof") and t in xs

    def acc(self, *xs):
        if self.peek(*xs):
            self.p += 1
            return self.t[self.p - 1][1]
        return None

    def exp(self, x):
        if not self.acc(x):
            raise Bad("expected %r at token %d %r" % (x, self.p, self.t[self.p:self.p + 3]))

    def kind(self):
        return self.t[self.p][0] if self.p < len(self.t) else "eof"

    def block(self, *end):
        out = []
        while True:
            while self.acc("\n"):
                pass
            if self.kind() == "eof":
                if end:
                    raise Bad("no end")
                return out
            if end and self.peek(*end):
                return out
            out.append(self.stmt())
            if self.kind() != "eof":
                self.exp("\n")

    def stmt(self):
        if self.acc("if"):
            arms = []
            c = self.expr()
            self.exp("\n")
            while True:
                b = self.block("elif", "else", "endif")
                arms.append((c, b))
                if self.acc("elif"):
                    c = self.expr()
                    self.exp("\n")
                elif self.acc("else"):
                    arms.append(("else", self.block("endif")))
                    self.exp("endif")
                    break
                else:
                    self.exp("endif")
                    break
            return ("if", arms)
        if self.acc("foreach"):
            v = [self.ident()]
            if self.acc(","):
                v.append(self.ident())
            self.exp(":")
            e = self.expr()
            self.exp("\n")
            b = self.block("endforeach")
            self.exp("endforeach")
            return ("foreach", v, e, b)
        if self.acc("testcase"):
            e = self.expr()
            b = self.block("endtestcase")
            self.exp("endtestcase")
            return ("testcase", e, b)
        for w in ("continue", "break"):
            if self.acc(w):
                return (w,)
        if "func" in self.kw and self.acc("func"):
            n = self.ident()
            self.exp("(")
            a = self.args(")", True)
            ret = []
            if self.acc("->"):
                while not self.peek("\n"):
                    ret.append(self.t[self.p][1])
                    self.p += 1
            b = self.block("endfunc")
            self.exp("endfunc")
            return ("func", n, a, canon(ret), b)
        if "return" in self.kw and self.acc("return"):
            return ("return", None if self.peek("\n") else self.expr())
        e = self.expr()
        o = self.acc("=", "+=")
        if o:
            return (o, e, self.expr())
        return e

    def ident(self):
        if self.kind() != "i":
            raise Bad("identifier")
        self.p += 1
        return self.t[self.p - 1][1]

    def args(self, close, types=False):
        out = []
        while not self.acc(close):
            e = self.expr()
            ty = []
            if types:
                d = 0
                while d or not self.peek(",", ":", close):
                    d += 1 if self.peek("[") else -1 if self.peek("]") else 0
                    ty.append(self.t[self.p][1])
                    self.p += 1
            ty = canon(ty)
            if self.acc(":"):
                if types and self.peek(",", close):
                    out.append((e, ty, ":", None))
                else:
                    out.append((e, ty, ":", self.expr()))
            else:
                out.append((e, ty))
            if not self.acc(","):
                self.exp(close)
                break
        return out

    def expr(self):
        c = self.orx()
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            return ("?:", c, a, self.expr())
        return c

    def left(self, sub, *ops):
        l = sub()
        while True:
            o = self.acc(*ops)
            if not o:
                return l
            l = (o, l, sub())

    def orx(self):
        return self.left(self.andx, "or")

    def andx(self):
        return self.left(self.cmp, "and")

    def cmp(self):
        l = self.add()
        while True:
            o = self.acc("==", "!=", "<", "<=", ">", ">=", "in")
            if not o and self.peek("not"):
                q = self.p
                self.p += 1
                if self.acc("in"):
                    o = "not in"
                else:
                    self.p = q
            if not o:
                return l
            l = (o, l, self.add())

    def add(self):
        return self.left(self.mul, "+", "-")

    def mul(self):
        return self.left(self.unary, "*", "/", "%")

    def unary(self):
        o = self.acc("not", "-")
        if o:
            return ("u" + o, self.unary())
        return self.postfix()

    def postfix(self):
        k, t, _ = self.t[self.p] if self.p < len(self.t) else ("eof", "", 0)
        if self.acc("("):
            e = self.expr()
            self.exp(")")
        elif self.acc("["):
            e = ("[]", self.args("]"))
        elif self.acc("{"):
            e = ("{}", self.args("}"))
        elif k in ("s", "n") or k == "i" and (t not in self.kw or t in ("true", "false")):
            self.p += 1
            e = (k, t)
        else:
            raise Bad("unexpected %r" % t)
        while True:
            if self.acc("("):
                a = self.args(")")
                if e == ("i", "files"):
                    while len(a) == 1 and len(a[0]) == 2 and a[0][0][0] == "[]":
                        a = a[0][0][1]
                    s = sorted(a, key=repr)
                    if len(s) > 1:
                        self.sorted = True
                    a = s
                e = ("call", e, a)
            elif self.acc("."):
                n = self.ident()
                self.exp("(")
                e = ("meth", e, n, self.args(")"))
            elif self.acc("["):
                i = self.expr()
                self.exp("]")
                e = ("idx", e, i)
            else:
                return e


def parse(text, ext=False):
    """(tree, comments, whether a files() call may have been reordered)"""
    t, com = tokens(text)
    p = P(t, ext)
    tree = p.block()
    return tree, com, p.sorted
