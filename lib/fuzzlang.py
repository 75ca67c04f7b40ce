"""Hostile workloads for the muon language front end: random programs (mostly of the
wrong types), random calls of every function and method, and mutators of texts."""
import re

ESC = ["\\n", "\\'", "\\\\", "\\x41", "\\xff", "\\x00", "\\101", "\\400", "\\8", "\\u00e9", "\\U0001F600", "\\N{DASH}",
       "\\u12", "\\0", "\\777", "\\", "@", "@0@", "@a@", "@ a@", "@@", "${a}", "%s", "\t", "é", "\x7f", "#", "\x01"]
STRS = ["", "a", "b", "abc", "x y", "1", "-1", "007", "0x10", "1.2.3", ">=1.0", "<", "!=", "a,b,,c", "a/b", "../a",
        "/", "//", "/usr/lib", ".", "foo.c", "-lfoo", "true", "@0@ @1@", "@99999999999@", "@-1@", "a\\nb\\r\\nc",
        "é€", "c", "cpp", "m", "enabled", "auto", "b_lto", "CC", "native", "build", "host", "AB_C-d", "x" * 300,
        "'", "\\", "none", "#include <stdio.h>", "int main(void){return 0;}", "echo", "true", "cat", "a:b", "a=b", "=", ":",
        "O", "rwxr-xr-x", "rws--x--T"]
INTS = ["0", "1", "2", "3", "-1", "-2", "5", "10", "64", "255", "256", "0x7f", "0o17", "0b101",
        "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
        "-9223372036854775807", "9223372036854775808", "99999999999999999999", "00", "0x", "1_0"]
SMALL = ["0", "1", "2", "3", "4", "-1", "10"]
VARS = ["a", "b", "c", "d", "e", "f", "meson", "x", "build_machine", "host_machine", "y", "_", "fs", "cc"]
BINOPS = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "in", "not in", "and", "or"]
TOKENS = ["(", ")", "[", "]", "{", "}", ",", ":", "?", ".", "=", "+=", "-", "not", "if", "elif", "else", "endif", "foreach",
          "endforeach", "break", "continue", "in", "and", "or", "true", "false", "\n", "\n\n", "'", "'''", "f'", "f'''", "#",
          "# c\n", "\\\n", "\\", "\t", " ", "\0", "testcase", "endtestcase", "func", "endfunc", "return", "->", "==", "!=",
          "<", ">", ">=", "%", "*", "/", "+", "@", "$", "&", "|", "!", "\"", ";", "\r\n", "\xff", "é", "func f() -> any\n",
          "list[", "dict[", "glob[", "listify[", "any", "int", "str", "# fmt: off\n", "# fmt:on\n", "$(", "1", "'a'", "x"]


class Gen:
    def __init__(self, rng, methods, funcs, extended=False):
        self.r = rng
        self.methods = methods          # list of (type, name, kwargs)
        self.funcs = funcs              # list of (name, kwargs)
        self.extended = extended
        self.depth = 0
        self.loop = 0
        bad = rng.random() < .08     # most programs should get past the lexer
        self.bad = bad
        self.ints = INTS if bad else [i for i in INTS if i not in (
            "9223372036854775808", "99999999999999999999", "00", "0x", "1_0")]
        self.esc = ESC if bad else [e for e in ESC if e not in ("\\u12", "\\", "\\N{DASH}", "\x7f", "\x01", "\t", "\\8")]

    def string(self):
        r = self.r
        k = r.random()
        if k < .6:
            return "'" + r.choice(STRS).replace("\\", "\\\\").replace("'", "\\'") + "'"
        s = "".join(r.choice(self.esc + STRS[:12]) for _ in range(r.randrange(5))).replace("\\'", "").replace("'", "")
        if not self.bad:
            s = re.sub(r"(?<!\\)((?:\\\\)*)\\$", r"\1", s)
        if k < .8:
            if s.endswith("\\") and self.bad:
                s += "\\"
            return r.choice(["", "f"]) + "'" + s.replace("\n", "") + "'"
        return r.choice(["", "f"]) + "'''" + s + r.choice(["", "\n", "''" if self.bad else "x"]) + "'''"

    def leaf(self):
        r = self.r
        k = r.random()
        if k < .35:
            return self.string()
        if k < .55:
            return r.choice(self.ints)
        if k < .65:
            return r.choice(["true", "false"])
        if k < .9:
            return r.choice(VARS)
        return r.choice(["[]", "{}", "disabler()", "[[]]", "[[[1]]]", "configuration_data()", "environment()",
                         "files('x.meson')", "range(3)", "{'a': 1}", "['a', 'b']"])

    def args(self, kws=(), n=None):
        r = self.r
        out = []
        for _ in range(n if n is not None else r.choice([0, 0, 1, 1, 1, 2, 2, 3, 5])):
            out.append(self.expr())
        kw = []
        for _ in range(r.choice([0, 0, 0, 0, 1, 2, 3])):
            name = r.choice(list(kws) + ["a", "kwargs", "required"]) if kws else r.choice(["a", "kwargs", "fallback"])
            kw.append("%s: %s" % (name, self.expr()))
        if r.random() < .03:
            r.shuffle(kw)
            out = kw + out
        else:
            out = out + kw
        return r.choice([", ", ",", ",\n  "]).join(out) + (r.choice(["", "", "", ","]) if out else "")

    def expr(self):
        r = self.r
        self.depth += 1
        try:
            if self.depth > 5 or r.random() < .32:
                return self.leaf()
            k = r.random()
            if k < .22:
                if r.random() < .9 and not self.bad:
                    return "(%s %s %s)" % (self.expr(), r.choice(BINOPS), self.expr())
                return "%s %s %s" % (self.expr(), r.choice(BINOPS), self.expr())
            if k < .28:
                return "(%s)" % self.expr()
            if k < .33:
                return r.choice(["not ", "-", "- "]) + (self.expr() if self.bad else "(%s)" % self.expr())
            if k < .41:
                return "[%s]" % ", ".join(self.expr() for _ in range(r.randrange(5)))
            if k < .47:
                return "{%s}" % ", ".join("%s: %s" % (r.choice([self.string(), self.expr()]), self.expr())
                                          for _ in range(r.randrange(4)))
            if k < .55:
                return "%s[%s]" % (self.expr(), r.choice([self.expr(), r.choice(SMALL)]))
            if k < .59:
                return "%s ? %s : %s" % (self.expr(), self.expr(), self.expr())
            if k < .82 and self.methods:
                t, n, kws = r.choice(self.methods)
                return "%s.%s(%s)" % (self.recv(t), n, self.args(kws))
            n, kws = r.choice(self.funcs)
            if n == "range":
                return "range(%s)" % ", ".join(r.choice(SMALL) for _ in range(r.randrange(1, 4)))
            return "%s(%s)" % (n, self.args(kws))
        finally:
            self.depth -= 1

    def recv(self, t):
        r = self.r
        if r.random() < .12:
            return r.choice(["(%s)" % self.expr(), self.leaf()])
        m = {"str": self.string, "int": lambda: "(%s)" % r.choice(self.ints), "bool": lambda: "true",
             "list": lambda: "[%s]" % ", ".join(self.expr() for _ in range(r.randrange(4))),
             "dict": lambda: "{'a': %s, 'b': %s}" % (self.expr(), self.expr()),
             "disabler": lambda: "disabler()", "env": lambda: r.choice(["environment()", "e"]),
             "cfg_data": lambda: r.choice(["configuration_data()", "d"]),
             "source_set": lambda: "import('sourceset').source_set()", "module": lambda: "import('fs')",
             "meson": lambda: "meson", "build_machine": lambda: "build_machine"}
        if t in m:
            return m[t]()
        if t.startswith("import("):
            return t
        return r.choice(VARS)

    def stmt(self, d=0):
        r = self.r
        k = r.random()
        if k < .40:
            return "%s %s %s\n" % (r.choice(VARS), r.choice(["=", "=", "=", "+="]), self.expr())
        if k < .62:
            return "message(%s)\n" % self.args(n=r.randrange(1, 3))
        if k < .72 or d > 3:
            t = r.choice(self.methods) if self.methods else None
            if t and r.random() < .6:
                return "%s.%s(%s)\n" % (self.recv(t[0]), t[1], self.args(t[2]))
            n, kws = r.choice(self.funcs)
            return "%s(%s)\n" % (n, self.args(kws, n=r.randrange(1, 3)) if n != "range" else "2")
        if k < .82:
            s = "if %s\n%s" % (self.expr(), self.block(d + 1))
            if r.random() < .4:
                s += "elif %s\n%s" % (self.expr(), self.block(d + 1))
            if r.random() < .4:
                s += "else\n" + self.block(d + 1)
            return s + "endif\n"
        if k < .94 or not self.extended:
            it = r.choice(["[1, 2, 3]", "range(3)", "{'a': 1, 'b': 2}", self.expr()])
            self.loop += 1
            s = "foreach %s : %s\n%s" % (r.choice(["x", "y", "x, y"]), it, self.block(d + 1))
            self.loop -= 1
            return s + "endforeach\n"
        ar = ", ".join("%s %s%s" % (v, r.choice(["any", "int", "str", "list[any]", "dict[any]", "listify[str]", "glob[any]",
                                                 "func", "bool|str" if self.bad else "bool"]), r.choice(["", "", ": " + self.leaf()]))
                       for v in r.sample(["a", "b", "c", "x"], r.randrange(4)))
        return "func %s(%s)%s\n%s%sendfunc\n" % (r.choice("fgh"), ar, r.choice(["", " -> any", " -> int"]), self.block(d + 1),
                                                r.choice(["", "return %s\n" % self.expr()]))

    def block(self, d):
        r = self.r
        s = "".join(self.stmt(d) for _ in range(r.randrange(0 if self.bad else 1, 4)))
        if self.loop and r.random() < .15:
            s += r.choice(["break\n", "continue\n"])
        if r.random() < .06:
            s += r.choice(["# comment\n", "\n\n", "# fmt: off\n", "# fmt: on\n", "\\\n"])
        return s

    PRE = "a = 1\nb = 'str'\nc = [1, 'two', [3]]\nd = configuration_data({'k': 1, 's': 'v'})\ne = environment()\n" \
          "x = {'k': [1], 'z': 'y'}\ny = true\n_ = []\n"

    def program(self, n):
        return self.PRE + "".join(self.stmt() for _ in range(n))


def parse_signatures(text):
    """'muon internal dump_funcs' output -> (methods, funcs) as (type, name, kwargs)/(name, kwargs), plus details."""
    sigs = []
    cur = None
    sect = None
    for l in text.splitlines():
        if not l.strip():
            continue
        if not l.startswith(" "):
            cur = {"name": l.strip(), "posargs": [], "varargs": None, "optargs": [], "kwargs": {}, "returns": None}
            sigs.append(cur)
            sect = None
        elif l.startswith("  ") and not l.startswith("    "):
            sect = l.strip().rstrip(":")
        else:
            v = l.strip()
            if sect == "kwargs":
                k, _, t = v.partition(": ")
                cur["kwargs"][k] = t
            elif sect in ("posargs", "optargs"):
                cur[sect].append(v)
            elif sect in ("varargs", "returns"):
                cur[sect] = v
    return sigs


TOK = re.compile(rb"f?'''|f?'(?:\\.|[^'\\\n])*'|\w+|\n|[ \t]+|\+=|==|!=|<=|>=|->|.", re.S)


def mutate(rng, data, others):
    """One mutant of bytes data; others: list of bytes to splice from."""
    k = rng.randrange(9)
    if k == 0 and data:      # byte edits
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            p = rng.randrange(len(b))
            c = rng.randrange(4)
            if c == 0:
                b[p] = rng.randrange(256)
            elif c == 1:
                b[p] ^= 1 << rng.randrange(8)
            elif c == 2:
                del b[p:p + rng.randrange(1, 6)]
            else:
                b[p:p] = bytes([rng.choice(b"()[]{}'\"\\@#\n\0\xff,.:?=+-*/%<>! f0x")])
            if not b:
                b = bytearray(b"\n")
        return bytes(b)
    toks = TOK.findall(data)
    if not toks:
        return rng.choice(TOKENS).encode()
    if k == 1:               # delete a token range
        p = rng.randrange(len(toks))
        del toks[p:p + rng.choice([1, 1, 2, 5, 30])]
    elif k == 2:             # duplicate a token range
        p = rng.randrange(len(toks))
        q = p + rng.choice([1, 2, 5, 20])
        toks[p:p] = toks[p:q] * rng.choice([1, 1, 2, 10])
    elif k == 3:             # insert tokens
        for _ in range(rng.choice([1, 2, 3])):
            toks.insert(rng.randrange(len(toks) + 1), rng.choice(TOKENS).encode("latin1"))
    elif k == 4:             # swap tokens
        for _ in range(rng.choice([1, 2, 4])):
            p, q = rng.randrange(len(toks)), rng.randrange(len(toks))
            toks[p], toks[q] = toks[q], toks[p]
    elif k == 5 and others:  # splice
        o = TOK.findall(rng.choice(others)) or [b"\n"]
        p, q = rng.randrange(len(toks)), rng.randrange(len(o))
        toks[p:p + rng.choice([0, 3, 10])] = o[q:q + rng.choice([3, 10, 40])]
    elif k == 6:             # truncate
        toks = toks[:rng.randrange(len(toks))]
    elif k == 7:             # replace literals
        for i in range(len(toks)):
            if rng.random() < .1:
                if toks[i][:1] in (b"'",) or toks[i].isdigit():
                    toks[i] = rng.choice([rng.choice(INTS[:22]).encode(), b"'" + rng.choice(STRS).replace("\\", "\\\\").replace("'", "").encode() + b"'"])
    else:
        lines = b"".join(toks).split(b"\n")
        rng.shuffle(lines) if rng.random() < .3 else lines.insert(rng.randrange(len(lines)), rng.choice(lines))
        return b"\n".join(lines)
    return b"".join(toks)
