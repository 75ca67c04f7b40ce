"""An independent reader of ninja manifests: edges with evaluated variables."""
import os, re


class Edge:
    __slots__ = ("rule", "outs", "imp_outs", "ins", "imp", "order", "vars", "n")


def lex_paths(s, i, env, stops):
    """read paths from s[i:] until a stop character; returns (paths, i)"""
    out = []
    while True:
        while i < len(s) and s[i] == " ":
            i += 1
        if i >= len(s) or s[i] in stops:
            return out, i
        cur = ""
        while i < len(s) and s[i] not in " " + stops:
            if s[i] == "$":
                t, i = var(s, i, env)
                cur += t
            else:
                cur += s[i]
                i += 1
        out.append(os.path.normpath(cur) if cur else cur)


def var(s, i, env):
    c = s[i + 1]
    if c in "$ :":
        return c, i + 2
    if c == "{":
        j = s.index("}", i)
        return env(s[i + 2:j]), j + 1
    m = re.match(r"[A-Za-z0-9_-]+", s[i + 1:])
    if not m:
        raise ValueError("bad $ escape in %r" % s)
    return env(m.group()), i + 1 + m.end()


def expand(s, env):
    out, i = "", 0
    while i < len(s):
        if s[i] == "$":
            t, i = var(s, i, env)
            out += t
        else:
            out += s[i]
            i += 1
    return out


class Manifest:
    def __init__(self, text):
        self.glob, self.rules, self.edges, self.defaults = {}, {}, [], []
        text = re.sub(r"(?<!\$)((?:\$\$)*)\$\n *", r"\1", text)
        lines = [l for l in text.split("\n")]
        i = 0
        top = lambda k: self.glob.get(k, "")
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith("#"):
                continue
            body = []
            while i < len(lines) and (lines[i].startswith(" ") or (lines[i].startswith("#") and False)):
                if lines[i].strip() and not lines[i].lstrip().startswith("#"):
                    k, v = lines[i].split("=", 1)
                    body.append((k.strip(), v.lstrip(" ")))
                i += 1
            if l.startswith("rule "):
                self.rules[l[5:].strip()] = dict(body)
            elif l.startswith("pool "):
                pass
            elif l.startswith("default "):
                self.defaults += lex_paths(l, 8, top, "")[0]
            elif l.startswith("build "):
                e = Edge()
                e.outs, j = lex_paths(l, 6, top, ":|")
                e.imp_outs = []
                if l[j] == "|":
                    e.imp_outs, j = lex_paths(l, j + 1, top, ":")
                j += 1
                m = re.compile(r" *([A-Za-z0-9_.-]+)").match(l, j)
                e.rule = m.group(1)
                # edge variables are seen by the paths of the edge
                e.vars = {}
                for k, v in body:
                    e.vars[k] = expand(v, top)
                env = lambda k: e.vars.get(k, top(k))
                e.ins, j = lex_paths(l, m.end(), env, "|")
                e.imp, e.order = [], []
                if l[j:j + 1] == "|" and l[j:j + 2] != "||":
                    e.imp, j = lex_paths(l, j + 1, env, "|")
                if l[j:j + 2] == "||":
                    e.order, j = lex_paths(l, j + 2, env, "|")
                e.n = len(self.edges)
                self.edges.append(e)
            elif "=" in l:
                k, v = l.split("=", 1)
                self.glob[k.strip()] = expand(v.lstrip(" "), top)
            else:
                raise ValueError("unknown line %r" % l)
        self.by_out = {}
        for e in self.edges:
            for o in e.outs + e.imp_outs:
                if o in self.by_out:
                    raise ValueError("two edges make %s" % o)
                self.by_out[o] = e

    def get(self, e, key):
        """the value of a variable of the edge's rule"""
        def q(p):
            return p if re.fullmatch(r"[A-Za-z0-9_+./@%:,=-]+", p) else "'" + p.replace("'", "'\\''") + "'"

        def env(k, depth=0):
            if k == "in":
                return " ".join(map(q, e.ins))
            if k == "out":
                return " ".join(map(q, e.outs))
            if k in e.vars:
                return e.vars[k]
            r = self.rules.get(e.rule, {})
            if k in r and depth < 20:
                return expand(r[k], lambda x: env(x, depth + 1))
            return self.glob.get(k, "")
        return env(key)

    def command(self, e):
        return "" if e.rule == "phony" else self.get(e, "command")

    def closure(self):
        """for each edge the set of edges it is ordered after"""
        memo = {}

        def go(e):
            todo = [(e, iter(e.ins + e.imp + e.order))]
            acc = {e.n: set()}
            while todo:
                x, it = todo[-1]
                for p in it:
                    d = self.by_out.get(p)
                    if d is None:
                        continue
                    if d.n in memo:
                        acc[x.n] |= memo[d.n] | {d.n}
                    elif d.n in acc:
                        raise ValueError("cycle through %s" % p)
                    else:
                        acc[d.n] = set()
                        todo.append((d, iter(d.ins + d.imp + d.order)))
                        break
                else:
                    todo.pop()
                    memo[x.n] = acc.pop(x.n)
                    if todo:
                        acc[todo[-1][0].n] |= memo[x.n] | {x.n}
        for e in self.edges:
            if e.n not in memo:
                go(e)
        return memo
