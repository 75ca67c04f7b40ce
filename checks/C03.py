#!/usr/bin/env python3
"""C03: values are immutable: no assignment changes another variable.

Monitor: alias-heavy programs dump every live variable after every statement; each dump is
compared with a value-semantics model in which nothing is ever shared, so a change seen through
any other name, element, loop variable, argument, default or captured reference is a mismatch at
the first statement where it becomes observable."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm

LL = ["l0", "l1", "l2", "l3"]      # list of int
NN = ["n0", "n1", "n2"]            # list of lists of int
DD = ["d0", "d1", "d2"]            # dict of lists of int
MM = ["m0", "m1"]                  # list of dicts of lists
CC = ["c0", "c1", "c2"]            # configuration data


class I3(lm.Interp):
    def __init__(self):
        super().__init__()
        self.conf = {}
        self.seen = self.total = 0

    def st(self, s):
        if s[0] == "raw":
            self.line = s[1]
            s[3](self)
        else:
            super().st(s)
        while self.seen < len(self.out):
            self.total += len(self.out[self.seen])
            self.seen += 1
        if self.total > 12000:
            raise lm.Skip()


class R3(lm.Render):
    def stmts(self, b, ind=0):
        for s in b:
            if s[0] == "raw":
                for l in s[2].split("\n"):
                    s[1] = self.emit(l, ind)
            else:
                super().stmts([s], ind)


class G3:
    def __init__(self, rng, funcs):
        self.r = rng
        self.fn = {}
        self.funcs = funcs
        self.k = 10
        self.live = set()
        self.infn = False

    def lit(self):
        self.k += 1
        return ("lit", self.k)

    def v(self, names):
        c = [x for x in names if x in self.live]
        return ("var", self.r.choice(c)) if c else None

    def L(self, d=0):
        r = self.r
        k = r.random()
        alt = None
        if k < .3 or d > 2:
            alt = self.v(LL + self.locals_l)
        elif k < .42:
            n = self.v(NN)
            alt = n and ("idx", n, ("lit", r.choice([0, -1])))
        elif k < .5:
            x = self.v(DD)
            alt = x and ("idx", x, ("lit", "a"))
        elif k < .55:
            x = self.v(DD)
            alt = x and ("meth", "get", x, [("lit", "a")] if r.random() < .5 else [("lit", r.choice("abcz")), self.L(d + 1)])
        elif k < .6:
            n = self.v(NN)
            alt = n and ("meth", "get", n, [("lit", 0)])
        elif k < .66:
            x = self.v(LL)
            alt = x and ("get", x[1], None if r.random() < .5 else self.L(d + 1))
        elif k < .72:
            alt = ("tern", ("lit", r.random() < .5), self.L(d + 1), self.L(d + 1))
        elif k < .78:
            m = self.v(MM)
            alt = m and ("idx", ("idx", m, ("lit", 0)), ("lit", "a"))
        elif k < .86:
            alt = ("bin", "+", self.L(d + 1), r.choice([self.lit(), ("list", [self.lit()]), self.L(d + 1)]))
        elif k < .96 and self.fn and d < 2:
            f = r.choice(sorted(self.fn))
            alt = ("call", f, [self.L(d + 1), self.N(d + 1), self.D(d + 1)][:self.fn[f]])
        return alt or ("list", [self.lit()])

    locals_l = []

    def N(self, d=0):
        r = self.r
        k = r.random()
        if k < .4 and self.v(NN):
            return self.v(NN)
        if k < .55 and d < 2:
            return ("bin", "+", self.N(d + 1), ("list", [self.L(d + 1)]))
        return ("list", [self.L(d + 1) for _ in range(r.randrange(1, 3))])

    def D(self, d=0):
        r = self.r
        k = r.random()
        if k < .4 and self.v(DD):
            return self.v(DD)
        if k < .5 and self.v(MM):
            return ("idx", self.v(MM), ("lit", 0))
        if k < .6 and d < 2:
            return ("bin", "+", self.D(d + 1), self.D(d + 1))
        return ("dict", [(("lit", x), self.L(d + 1)) for x in ["a"] + r.sample(["b", "c"], r.randrange(2))])

    def M(self):
        r = self.r
        if r.random() < .4 and self.v(MM):
            return self.v(MM)
        return ("list", [self.D(1) for _ in range(r.randrange(1, 3))])

    def assign(self, local=False):
        """one assignment-like statement (a target that exists or a new one at top level)"""
        r = self.r
        names, mk = r.choice([(LL, self.L), (LL, self.L), (NN, self.N), (DD, self.D), (MM, self.M)])
        e = mk()
        if local:
            t = self.v(names)
            if not t:
                return None
            t = t[1]
        else:
            t = r.choice(names)
        if r.random() < .5 and t in self.live:
            if names is LL:
                e = r.choice([self.lit(), ("list", [self.lit()]), self.L(1)])
            elif names is NN:
                e = ("list", [self.L(1)]) if r.random() < .8 else self.N(1)
            elif names is DD:
                e = ("dict", [(("lit", r.choice("abc")), self.L(1))]) if r.random() < .7 else self.D(1)
            else:
                e = ("list", [self.D(1)])
            return ["add", None, t, e]
        if not local:
            self.live.add(t)
        return [r.choice(["set", "set", "set", "setvar"]), None, t, e]

    def loop(self, d):
        r = self.r
        k = r.random()
        saved = self.locals_l
        if k < .1:
            a = r.randrange(4)
            it, names, val = ("range", [("lit", a), ("lit", a + r.randrange(1, 4)), ("lit", r.choice([1, 1, 2]))]), ["y"], None
        elif k < .5:
            it, names, val = self.N(), ["x"], "x"
            self.locals_l = saved + ["x"]
        elif k < .8:
            it, names, val = self.D(), ["kk", "x"], "x"
            self.locals_l = saved + ["x"]
        else:
            it, names, val = self.L(), ["y"], None
        self.live |= set(names)
        body = []
        if val:
            body.append(["add", None, "x", self.lit()])
        if names == ["y"]:
            t = self.v(LL)
            body.append(r.choice([t and ["add", None, t[1], ("var", "y")],
                                  t and ["add", None, t[1], ("list", [("var", "y")])]]))
        for _ in range(r.randrange(1, 4)):
            body.append(self.inner(d))
            body.append(self.dump())
        if val and r.random() < .5:
            body.append(["add", None, "x", ("list", [self.lit()])])
        body.append(self.dump())
        self.live -= set(names)
        self.locals_l = saved
        return ["for", None, names, it, [b for b in body if b]]

    def inner(self, d):
        r = self.r
        if d < 2 and r.random() < .2:
            return self.loop(d + 1)
        if r.random() < .15:
            return ["if", None, [[("lit", r.random() < .7), None, [self.assign(True) or self.dump()]]]]
        return self.assign(True)

    def dump(self):
        return ["dump", None, sorted(self.live)]

    def func(self):
        r = self.r
        name = "f%d" % len(self.fn)
        n = r.randrange(1, 4)
        ps = [("p", "list[any]"), ("q", "list[any]"), ("w", "dict[any]")][:n]
        body = [["add", None, "p", self.lit()]]
        cap = self.v(LL) if r.random() < .5 else None
        if cap:
            body.append(["set", None, "u", cap])
            body.append(["add", None, "u", ("var", "p")])
            body.append(["msg", None, [("var", "u"), cap]])
        if n > 1:
            body += [["add", None, "q", ("list", [("var", "p")])], ["add", None, "p", self.lit()], ["msg", None, [("var", "q")]]]
        if n > 2:
            body += [["add", None, "w", ("dict", [(("lit", "a"), ("var", "p"))])], ["add", None, "p", self.lit()],
                     ["msg", None, [("var", "w"), ("var", "p")]]]
        body += [["set", None, "t", ("list", [])], ["add", None, "t", self.lit()], ["msg", None, [("var", "t")]]]
        if cap and r.random() < .4:
            ret = cap
        elif n > 1 and r.random() < .4:
            ret = ("idx", ("var", "q"), ("lit", 0))
        else:
            ret = ("var", "p")
        self.fn[name] = n
        return ["func", None, name, ps, body, ret, True, "list[any]"]

    def conf(self):
        r = self.r
        c, e = r.choice(CC), r.choice(CC)
        k = r.random()
        have = c in self.live_c
        self.k += 1
        v = self.k
        if not have or k < .15:
            self.live_c.add(c)

            def f(i):
                i.conf[c] = {"z": v}
            return ["raw", None, "%s = configuration_data({'z': %d})" % (c, v), f]
        if k < .45 and e in self.live_c:
            def f(i):
                i.conf[c] = dict(i.conf[e])
            return ["raw", None, "%s = %s" % (c, e) if r.random() < .7 else "set_variable('%s', %s)\n%s = %s" % (c, e, c, c), f]
        if k < .6 and e in self.live_c and e != c:
            def f(i):
                i.conf[c].update(i.conf[e])
            return ["raw", None, "%s.merge_from(%s)" % (c, e), f]
        key = r.choice("xyz")

        def f(i):
            i.conf[c][key] = v
        return ["raw", None, "%s.set('%s', %d)" % (c, key, v), f]

    def confdump(self):
        names = sorted(self.live_c)

        def f(i):
            for c in names:
                i.out.append("%s %s %s %s" % ((c,) + tuple(str(i.conf[c].get(k, -1)) for k in "xyz")))
        return ["raw", None, "\n".join("message('%s', %s)" % (c, ", ".join("%s.get('%s', -1)" % (c, k) for k in "xyz"))
                                       for c in names) or "message('none')", f if names else (lambda i: i.out.append("none"))]

    live_c = None

    def program(self, n):
        self.live_c = set()
        out = [["set", None, "l0", ("list", [self.lit()])]]
        self.live.add("l0")
        for _ in range(n):
            k = self.r.random()
            if k < .6:
                s = self.assign()
            elif k < .75:
                s = self.loop(0)
            elif k < .87 or not self.funcs:
                s = self.conf()
                out += [s, self.confdump()]
                continue
            else:
                s = self.func()
            out += [s, self.dump()]
        return out


# values handed out by the system itself: changing what was obtained must not change the source
GETTERS = ["get_option('arr')", "meson.project_license()", "sp.get_variable('spl')", "cd.keys()", "['lit', 'lit2']", "dd.keys()",
           "'a b'.split()", "nested[0]", "dd['k']", "get_variable('base')", "meson.get_external_property('prop')", "fs_list",
           "dep.get_variable(internal: 'v', default_value: 'q').split('q')", "sp.get_variable('spd')['k']", "files('a.txt', 'b.txt')"]


def getters_case(rng):
    gs = rng.sample(GETTERS, rng.randrange(2, 6))
    src = ("project('p', license: ['MIT', 'X'])\nsp = subproject('s')\ncd = configuration_data({'k1': 1, 'k2': 2})\n"
           "dd = {'k': ['a'], 'j': ['b']}\nnested = [['n']]\nbase = ['b0']\nfs_list = import('fs').parent('x/y').split('/')\n"
           "dep = declare_dependency(variables: {'v': 'aqb'})\n")
    for i, g in enumerate(gs):
        src += "message('G%d', %s)\n" % (i, g)
    names = []
    for q in range(rng.randrange(3, 12)):
        i = rng.randrange(len(gs))
        k = rng.random()
        x = "'x%d'" % q if not gs[i].startswith("files") else "files('c.txt')"
        if k < .4:
            src += "v%d = %s\nv%d += [%s]\n" % (q, gs[i], q, x)
        elif k < .5:
            src += "v%d = [%s]\nforeach e : v%d\n  e += [%s]\nendforeach\n" % (q, gs[i], q, x)
        elif k < .6:
            src += "set_variable('v%d', %s)\nv%d += [%s]\n" % (q, gs[i], q, x)
        elif k < .7:
            src += "foreach e : [%s, %s]\n  e += %s\nendforeach\n" % (gs[i], gs[i], x)
        elif k < .8:
            src += "v%d = {'k': %s}\nv%d += {'k': []}\n" % (q, gs[i], q)
        elif k < .9:
            src += "v%d = true ? %s : []\nv%d += [%s]\n" % (q, gs[i], q, x)
        else:
            src += "w = %s\nv%d = w\nv%d += [%s]\nw += [%s]\n" % (gs[i], q, q, x, x)
        src += "message('G%d', %s)\n" % (i, gs[i])
    for i, g in enumerate(gs):
        src += "message('G%d', %s)\n" % (i, g)
    return src, len(gs)


def body(ck):
    ck.rule = ("alias-heavy programs over lists, dicts and configuration data with a dump of every variable after every "
               "statement, compared with a sharing-free model; distinct by source, non-trivial if at least one container has "
               "two names when it is changed (always the case by construction)")
    build_fork("asan")
    jobs = []
    for i in range(ck.n(5000, 60000)):
        rng = ck.rng("alias", i)
        fn = rng.random() < .6
        g = G3(rng, fn)
        prog = g.program(rng.choice([4, 8, 14]))
        rd = R3(rng, False)
        rd.lines = [""]
        rd.multi = rng.random() < .2
        proj = not fn and rng.random() < .3
        if proj:
            rd.lines = ["project('p')", ""]
        rd.stmts(prog)
        it = I3()
        err = None
        try:
            it.block(prog)
        except lm.MErr as e:
            err = (it.line, str(e))
        except lm.Skip:
            ck.count("too_long")
            continue
        src = "\n".join(rd.lines)
        nm = "meson.build" if proj else "f.meson"
        jobs.append(Job(["setup", "b"] if proj else ["internal", "eval", "f.meson"], {nm: src}, tag=(nm, src, it.out, err), timeout=40))

    def judge(j, d=None):
        fname, src, out, err = j.tag
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation("crash:%s" % (k or "timeout"), j.res.all[-2000:], j.files)
            return
        text = j.res.text
        if fname == "meson.build":
            text = re.sub(r"\A.*?^configuring 'p'[^\n]*\n", "", text, flags=re.S | re.M)
            text = re.sub(r"\nsetup complete\n\Z", "\n", text)
        w = lm.compare(text, fname, out, err, j.res.rc)
        if w:
            ck.violation("alias:" + re.sub(r"\d+", "N", w.split("\n")[0])[:50], w + "\n" + text[-500:], j.files)
        ck.case(src, sample=src[:600] if len(src) % 53 == 0 else None)
        ck.count("variable_states_compared", len(out))
    run_jobs(ck, jobs, fn=judge)

    jobs = []
    for i in range(ck.n(500, 5000)):
        src, n = getters_case(ck.rng("get", i))
        jobs.append(Job(["setup", "b"], {
            "meson.build": src, "meson_options.txt": "option('arr', type: 'array', value: ['o1', 'o2'])\n", "a.txt": "", "b.txt": "",
            "c.txt": "", "n.ini": "[properties]\nprop = ['p1', 'p2']\n",
            "subprojects/s/meson.build": "project('s')\nspl = ['s1']\nspd = {'k': ['s2']}\n"}, tag=src, timeout=60))

    def judge2(j, d=None):
        k = crashed(j.res)
        if k or j.res.timeout or j.res.rc not in (0, 1):
            ck.violation("crash:%s" % (k or "timeout"), j.res.all[-2000:], j.files)
            return
        if "get_external_property" in j.tag and j.res.rc:
            ck.count("no_property")
            return
        if j.res.rc:
            ck.violation("getter-error", j.res.text[-800:], j.files)
            return
        seen = {}
        for g, v in re.findall(r"message: (G\d+) (.*?)(?=\nmessage: |\Z|\n\nsetup complete)", j.res.text, re.S):
            v = re.sub(r"\s+", " ", v).strip()
            if g in seen and seen[g] != v:
                ck.violation("getter", "%s was %s, later %s" % (g, seen[g], v), j.files)
            seen.setdefault(g, v)
            ck.count("getter_reads")
        ck.case(j.tag)
    for j in jobs:
        if "get_external_property" in j.tag:
            j.argv = ["setup", "b"]
    run_jobs(ck, jobs, fn=judge2)

    # defaults and literals are fresh at every evaluation
    jobs = []
    for i in range(ck.n(60, 400)):
        rng = ck.rng("def", i)
        k = rng.randrange(2, 5)
        t = rng.choice(["list[any]", "dict[any]"])
        lit, add = ("['d']", "['x']") if t[0] == "l" else ("{'d': 1}", "{'x': 2}")
        src = "func f(a %s: %s) -> %s\n  t = %s\n  message('A', a, t)\n  a += %s\n  t += %s\n  return a\nendfunc\n" % (t, lit, t, lit, add, add)
        src += "foreach i : range(%d)\n  r = %s\n  r += %s\n  q = %s\n  message('B', q)\n  q += %s\nendforeach\n" % (
            k, rng.choice(["f()", "f(a: %s)" % lit]), add, lit, add)
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": src}, tag=(src, k)))

    def judge3(j, d=None):
        a = re.findall(r"message: A (.*?)(?=\nmessage: )", j.res.text, re.S)
        b = re.findall(r"message: B (.*?)(?=\nmessage: |\Z)", j.res.text, re.S)
        if j.res.rc or len(a) != j.tag[1] or len(set(x.strip() for x in a)) != 1 or len(set(x.strip() for x in b)) != 1:
            ck.violation("default-or-literal", j.res.text[-1500:], j.files)
        ck.case(j.tag[0])
    run_jobs(ck, jobs, fn=judge3)
    ck.assumptions = ["+= on a captured variable of an enclosing scope is left out: a script module shares it by design"]
    ck.finish(min_evals=1500)


if __name__ == "__main__":
    main("C03", body)
