"""Random build files as token lists, and random ways to lay tokens out."""
import re

KEYWORDS = {"if", "elif", "else", "endif", "foreach", "endforeach", "and", "or", "not", "in", "true", "false", "continue", "break", "func", "endfunc", "return", "testcase", "endtestcase"}
NL = "\n"
IDS = ["a", "b", "foo", "src_files", "x1", "cc", "command", "very_long_identifier_name_number_one"]
FUNCS = ["foo", "message", "executable", "files", "files", "dependency", "run", "custom_target", "set_variable"]
METHS = ["get", "found", "split", "method_with_a_long_name", "to_string", "files"]
KWS = ["sources", "command", "dependencies", "install", "include_directories", "a", "files", "native"]


class Gen:
    def __init__(self, r, extended=False):
        self.r, self.ext = r, extended
        self.budget = 0

    def string(self):
        r = self.r
        k = r.random()
        if k < .5:
            return "'" + r.choice(["a", "src/main.c", "main.c", "b.c", "z/a.c", "a/z.c", "-o", "--flag", "@INPUT@", "-DX=1", "long string that takes up a lot of room on the line", "", "#x", "é"]) + "'"
        if k < .65:
            return "'" + r.choice(["it\\'s", "a\\nb", "\\\\", "c:\\\\x", "\\x41", "(", "]", "a, b", "x # y", " ", "\\\\\\'", "tab\\t"]) + "'"
        if k < .75:
            return "f'" + r.choice(["@a@", "x@b@y", "@", "\\'@a@", "", "@foo@/@a@"]) + "'"
        if k < .9:
            return "'''" + r.choice(["a", "two\nlines", "it's", "\n  indented\n", "\\n", "# no comment\n", "''x", "", "\t", "trailing  \n", "a" * 90]) + "'''"
        return "f'''" + r.choice(["@a@\n", "x", "@b@'s"]) + "'''"

    def atom(self):
        r = self.r
        k = r.random()
        if k < .4:
            return [self.string()]
        if k < .55:
            return [r.choice(["0", "1", "42", "0x1F", "0o17", "0b11", "1000000"])]
        if k < .62:
            return [r.choice(["true", "false"])]
        return [r.choice(IDS)]

    def args(self, kw=True, dict_=False, arr=False, typed=False):
        r = self.r
        n = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 7])
        out = []
        kwn = 0 if not kw else r.choice([0, 0, 1, 2, 3])
        parts = []
        if dict_:
            for _ in range(n):
                parts.append(self.expr(2) + [":"] + self.expr(0))
        else:
            for _ in range(n):
                parts.append(self.expr(0))
            if not arr:
                for _ in range(kwn):
                    parts.append([r.choice(KWS), ":"] + self.expr(0))
        for i, p in enumerate(parts):
            if i:
                out.append(",")
            out += p
        if parts and r.random() < .2:
            out.append(",")
        return out

    def primary(self):
        """something that can be followed by . and ["""
        r = self.r
        self.budget -= 1
        k = r.random()
        if self.budget < 0 or k < .35:
            out = self.atom()
        elif k < .5:
            out = ["["] + self.args(arr=True) + ["]"]
        elif k < .6:
            out = ["{"] + self.args(dict_=True) + ["}"]
        elif k < .7:
            out = ["("] + self.expr(0) + [")"]
        elif k < .74:
            out = ["files", "(", "["] + self.args(arr=True) + ["]", ")"]
        else:
            f = r.choice(FUNCS)
            out = [f, "("] + self.args(kw=f != "files") + [")"]
        while self.budget > 0 and r.random() < .22:
            if r.random() < .6:
                if re.match(r"^\d", out[-1]):
                    break
                out += [".", r.choice(METHS), "("] + self.args() + [")"]
            else:
                out += ["["] + self.expr(0) + ["]"]
        return out

    def expr(self, lvl=0):
        r = self.r
        self.budget -= 1
        if self.budget < 0:
            return self.atom()
        k = r.random()
        # levels of precedence: 0 ternary, 1 or, 2 and .. the grammar of the reference
        if lvl <= 0 and k < .06:
            return self.expr(1) + ["?"] + self.expr(1) + [":"] + self.expr(0 if r.random() < .3 else 1)
        if lvl <= 1 and k < .12:
            return self.expr(2) + ["or"] + self.expr(2) + (["or"] + self.expr(2) if r.random() < .3 else [])
        if lvl <= 2 and k < .18:
            return self.expr(3) + ["and"] + self.expr(3) + (["and"] + self.expr(3) if r.random() < .3 else [])
        if lvl <= 3 and k < .24:
            return self.expr(4) + r.choice([["=="], ["!="], ["<"], ["<="], [">"], [">="], ["in"], ["not", "in"]]) + self.expr(4)
        if lvl <= 4 and k < .34:
            return self.expr(4) + [r.choice("+-")] + self.expr(5)
        if lvl <= 5 and k < .42:
            return self.expr(5) + [r.choice("*/%")] + self.expr(6)
        if k < .48:
            return [r.choice(["-", "not"])] + self.primary()
        return self.primary()

    def stmt(self, d, loop=False, func=False):
        r = self.r
        self.budget = r.choice([3, 6, 12, 25])
        k = r.random()
        if k < .35 or d <= 0:
            return [r.choice(IDS), r.choice(["=", "=", "+="])] + self.expr() + [NL]
        if k < .6:
            self.budget += 3
            f = r.choice(FUNCS)
            out = [f, "("] + self.args(kw=f != "files") + [")"]
            if r.random() < .3:
                out += [".", r.choice(METHS), "("] + self.args() + [")"]
            return out + [NL]
        if k < .75:
            out = ["if"] + self.expr() + [NL] + self.block(d - 1, loop, func)
            while r.random() < .3:
                self.budget = 6
                out += ["elif"] + self.expr() + [NL] + self.block(d - 1, loop, func)
            if r.random() < .4:
                out += ["else", NL] + self.block(d - 1, loop, func)
            return out + ["endif", NL]
        if k < .88:
            return ["foreach"] + ([r.choice(IDS)] if r.random() < .6 else ["k", ",", "v"]) + [":"] + self.expr() + [NL] + self.block(d - 1, True, func) + ["endforeach", NL]
        if loop and k < .93:
            return [r.choice(["break", "continue"]), NL]
        if self.ext and not func and k < .97:
            ps = []
            for i in range(r.choice([0, 1, 2, 3])):
                ps += ([","] if ps else []) + ["p%d" % i, r.choice(["str", "int", "any", "list[str]", "dict[any]"])]
            for i in range(r.choice([0, 0, 1, 2])):
                ps += ([","] if ps else []) + ["k%d" % i, r.choice(["str", "int", "bool"]), ":"] + [r.choice(["'d'", "1", "true"])]
            t = r.choice([[], ["->", "str"], ["->", "list[str|int]"], ["->", "dict[any]|list[int|bool]"], ["->", "list[list[str]]|int"]])
            return ["func", "fn%d" % r.randrange(5), "("] + ps + [")"] + t + [NL] + self.block(d - 1, False, True) + ["endfunc", NL]
        if func and k < .99:
            return ["return"] + self.expr() + [NL]
        return [r.choice(IDS), "="] + self.expr() + [NL]

    def block(self, d, loop=False, func=False):
        out = []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            out += self.stmt(d, loop, func)
        return out

    def program(self, n=None):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 3, 5, 8]) if n is None else n):
            out += self.stmt(2)
        return out


def layout(r, toks, comments=True, wild=.15):
    """Text for the tokens; wild: how often anything unusual is put between two."""
    out = []
    depth = 0
    cn = [0]
    wild = r.choice([0, wild / 4, wild, wild * 3])
    ind = 0

    def comment():
        cn[0] += 1
        return "#" + r.choice(["", " ", "  ", "\t", "!", "#"]) + r.choice(["c%d", "comment number %d", "c%d 'quoted", "c%d %%s é", "c%d )]}", "%d" + "x" * 70]) % cn[0] + r.choice(["", "", "", " ", "#"])
    prev = NL
    for i, t in enumerate(toks):
        if t == NL:
            if comments and r.random() < wild:
                out.append(r.choice([" ", "  ", "", "\t"]) + comment())
            elif r.random() < wild / 3:
                out.append(" ")
            out.append("\n")
            while r.random() < wild * 1.5:
                if comments and r.random() < .6:
                    out.append(" " * r.choice([0, 0, 2, 4, 9]) + comment() + "\n")
                else:
                    out.append(r.choice(["\n", "\n", "\n\n", " \n", "\t\n"]))
            prev = t
            continue
        if prev != NL:
            # between two tokens
            need = (re.match(r"[\w']", t) and re.search(r"\w$", prev))
            tight = t in (",", ")", "]", ".", ":", "(", "[") and not (t in "([" and prev in KEYWORDS) or prev in ("(", "[", ".", "{") or t == "}"
            sp = "" if tight else " "
            if t in ("(", "[") and not (re.match(r"[\w')\]}]", prev[-1:]) and prev not in KEYWORDS):
                sp = " " if prev not in ("(", "[", "{") else ""
            x = r.random()
            if x < wild:
                c = r.random()
                if depth and c < .45:
                    sp = r.choice(["\n", "\n  ", "\n\n", " \n\t", "\n\n\n "])
                elif depth and comments and c < .75:
                    sp = r.choice([" ", "", "\n"]) + comment() + "\n" + r.choice(["", "  ", "\n", comment() + "\n"])
                elif c < .85:
                    sp = r.choice(["  ", "\t", " " * 30])
                elif c < .92:
                    sp = r.choice([" \\\n", " \\\n  "])
                elif not need:
                    sp = ""
            if need and not sp:
                sp = " "
            if prev == "-" and t == ">" or (prev + t) in ("==", "+=", "!=", "<=", ">=", "->"):
                sp = sp or " "
            out.append(sp)
        else:
            out.append(" " * r.choice([0, 0, 0, 2, 4, 3]))
        out.append(t)
        if t in ("(", "[", "{"):
            depth += 1
        elif t in (")", "]", "}"):
            depth -= 1
        prev = t
    s = "".join(out)
    k = r.random()
    if k < .08:
        s = s.rstrip("\n")
    elif k < .12:
        s += r.choice(["\n", "\n\n", "  ", "  \n"])
    return s


STR = re.compile(r"f?'''(?:[^\\]|\\.)*?'''|f?'(?:[^\\'\n]|\\.)*'", re.S)


def comments(text):
    """the comments of a build file, read with a scanner of our own"""
    out, i = [], 0
    rx = re.compile(r"(f?'''.*?''')|(f?'(?:[^\\'\n]|\\.)*')|(#[^\n]*)", re.S)
    for m in rx.finditer(text):
        if m.group(3):
            out.append(m.group(3).rstrip())
    return out
