#!/usr/bin/env python3
"""C25: a disabler propagates through everything that touches it.

Random programs in which disablers meet every operator, call and statement are compared with a model
(messages are the effects); every built-in call of spec/signatures.json is made with a disabler in each
argument slot, and the build directory must be the one of the project without these calls."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import C29


class Dis:
    def __repr__(self):
        return "DIS"


DIS = Dis()


class Gen:
    """Expressions are (type, source, evaluator); evaluators run against self.vars and append effects."""

    def __init__(self, r):
        self.r, self.n, self.vars, self.opt, self.req, self.vt = r, 0, {}, set(), [], {}
        self.optional = 0

    def eff(self, i):
        if self.optional:
            self.opt.add(i)
        else:
            self.req.append(i)

    def maybe(self, f):
        self.optional += 1
        try:
            return f()
        finally:
            self.optional -= 1

    def id(self):
        self.n += 1
        return self.n

    def ops(self, fs):
        """evaluates all operands; DIS if any is"""
        vs = [f() for f in fs]
        return DIS if any(v is DIS for v in vs) else vs

    def args(self, fs):
        """arguments after a disabled one may or may not be evaluated"""
        out, bad = [], False
        for f in fs:
            v = self.maybe(f) if bad else f()
            bad = bad or has(v)
            out.append(v)
        return DIS if bad else out

    def dis(self):
        r = self.r
        k = r.randrange(5)
        names = [x for x, t in self.vt.items() if t == "dis"]
        if k == 0 or not names:
            return "disabler()", lambda: DIS
        if k == 1:
            return "get_variable('%s')" % r.choice(names), lambda: DIS
        return r.choice(names), lambda: DIS

    def ex(self, t, d):
        r = self.r
        if r.random() < (.16 if d else .3):
            s, f = self.dis()
            if r.random() < .25:
                return self.ondis(s, f, d)
            return s, f
        if d <= 0:
            return self.leaf(t)
        k = r.randrange(14)
        if k <= 2:
            return self.leaf(t)
        if k == 3:                        # an effect around a value
            i = self.id()
            a, f = self.ex(t, d - 1)

            def e(i=i, f=f):
                v = self.args([lambda: f()])
                if v is DIS:
                    return DIS
                self.eff(i)
                return v[0]
            return "e(%d, %s)" % (i, a), e
        if k == 4:
            c, cf = self.ex("bool", d - 1)
            a, af = self.ex(t, d - 1)
            b, bf = self.ex(t, d - 1)

            def tern():
                v = cf()
                return DIS if v is DIS else af() if v else bf()
            return "(%s ? %s : %s)" % (c, a, b), tern
        if k == 5:                        # element of a list or dict that may hold disablers
            n = r.randrange(1, 4)
            xs = [self.ex(t, d - 1) for _ in range(n)]
            j = r.randrange(n)
            if r.random() < .5:
                src = "[%s]" % ", ".join(x[0] for x in xs)
                if r.random() < .3:
                    src = "(%s + [%s])" % (src, self.leaf(t)[0])
                idx, xf = str(j if r.random() < .7 else j), None
                if r.random() < .2:
                    idx, xf = self.dis()
                if r.random() < .2 and xf is None:
                    src, idx = "%s.get(%d)" % (src, j), None
            else:
                src = "{%s}" % ", ".join("'k%d': %s" % (m, x[0]) for m, x in enumerate(xs))
                idx, xf = "'k%d'" % j, None
                if r.random() < .2:
                    idx, xf = self.dis()

            def index():
                vs = [f() for _, f in xs]
                return DIS if xf else vs[j]
            return (src if idx is None else "%s[%s]" % (src, idx)), index
        if k == 6:                        # a call with positional, keyword and nested arguments
            i = self.id()
            n = r.randrange(1, 4)
            a, af = self.ex("int", d - 1)
            parts, fs = [str(i), a], [af]
            if n > 1:
                b, bf = self.ex("str", d - 1)
                form = r.choice(["b: %s", "b: [%s]", "b: [['x'], [1, [%s]]]", "kwargs: {'b': %s}", "kwargs: {'b': [1, %s]}"])
                parts.append(form % b)
                fs.append(bf)
            if n > 2 and not parts[-1].startswith("kwargs"):
                b, bf = self.ex("bool", d - 1)
                parts.append("c: " + b)
                fs.append(bf)
            res = self.leaf(t)

            def call():
                if self.args(fs) is DIS:
                    return DIS
                self.eff(i)
                return res[1]()
            return "(w(%s) == 1 ? %s : %s)" % (", ".join(parts), res[0], res[0]), call
        if k == 7:                        # get_variable with a fallback; found(); is_disabler
            if t == "bool":
                a, f = self.ex(r.choice(["int", "str", "bool"]), d - 1)

                def isd():
                    return f() is DIS
                return "is_disabler(%s)" % a, isd
            a, f = self.ex(t, d - 1)
            return "get_variable('nope', %s)" % a, f
        if t == "int":
            if k <= 9:
                return self.nary(" %s " % r.choice("+-*"), ["int", "int"], {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
                                                                      "*": lambda a, b: a * b}, d)
            if k == 10:
                a, f = self.ex("int", d - 1)
                return "(-%s)" % a, lambda: DIS if (v := f()) is DIS else -v
            if k == 11:
                a, f = self.lst(d)
                return "%s.length()" % a, lambda: DIS if (v := f()) is DIS else len(v)
            a, f = self.ex("str", d - 1)
            return "%s.split('Q').length()" % par(a), lambda: DIS if (v := f()) is DIS else v.count("Q") + 1
        if t == "bool":
            if k == 8:
                op = r.choice(["==", "!=", "<", "<=", ">", ">="])
                return self.nary(" %s " % op, ["int", "int"], {op: lambda a, b: eval("%d %s %d" % (a, op, b))}, d)
            if k == 9:
                op = r.choice(["==", "!="])
                return self.nary(" %s " % op, ["str", "str"], {op: lambda a, b: (a == b) == (op == "==")}, d)
            if k == 10:
                a, f = self.ex("bool", d - 1)
                return "(not %s)" % a, lambda: DIS if (v := f()) is DIS else not v
            if k == 11:
                op = r.choice(["and", "or"])
                a, f = self.ex("bool", d - 1)
                b, g = self.ex("bool", d - 1)

                def logic():
                    v = f()
                    if v is DIS or v == (op == "or"):
                        return v
                    return g()
                return "(%s %s %s)" % (a, op, b), logic
            if k == 12:
                op = r.choice(["in", "not in"])
                a, f = self.ex("int", d - 1)
                # a list that only holds a disabler is not itself one, so only sound lists here
                b = r.choice(["[1, 2, 3]", "[]", "[7, 0]"])
                dl = self.dis() if r.random() < .3 else None

                def inn():
                    v = f()
                    return DIS if v is DIS or dl else (v in json.loads(b)) == (op == "in")
                return "(%s %s %s)" % (a, op, dl[0] if dl else b), inn
            return self.nary(None, ["str", "str"], {"startswith": lambda a, b: a.startswith(b), "contains": lambda a, b: b in a}, d)
        if k == 8:
            return self.nary(" + ", ["str", "str"], {"+": lambda a, b: a + b}, d)
        if k == 9:
            a, f = self.ex("int", d - 1)
            return "%s.to_string()" % par(a), lambda: DIS if (v := f()) is DIS else str(v)
        if k == 10:
            a, f = self.ex(r.choice(["int", "str"]), d - 1)
            b, g = self.ex(r.choice(["int", "str"]), d - 1)
            return "'<@0@|@1@>'.format(%s, %s)" % (a, b), lambda: DIS if (v := self.args([f, g])) is DIS else "<%s|%s>" % tuple(v)
        if k == 11:
            a, f = self.lst(d)
            return "','.join(%s)" % a, lambda: DIS if has(v := f()) else ",".join(map(str, v))
        names = [x for x, ty in self.vt.items() if ty in ("str", "dis")]
        if k == 12 and names:
            x = r.choice(names)
            return "f'[@%s@]'" % x, lambda: DIS if self.vars[x] is DIS else "[%s]" % self.vars[x]
        return self.nary(" / ", ["str", "str"], {"/": lambda a, b: a.rstrip("/") + "/" + b if a and b and not b.startswith("/") else None}, d)

    def ondis(self, s, f, d):
        r = self.r
        for _ in range(r.randrange(1, 3)):
            k = r.randrange(4)
            arg = self.ex(r.choice(["int", "str"]), d - 1) if d > 0 and r.random() < .5 else ("", lambda: 0)

            def go(f=f, g=arg[1]):
                f()
                self.maybe(g)
                return DIS
            if k == 0:
                s, f = "%s[%s]" % (s, arg[0] or "0"), go
            else:
                s, f = "%s.%s(%s)" % (s, r.choice(["get", "foo", "found_it", "length", "version", "to_string", "get_variable", "as_system"]), arg[0]), go
        return s, f

    def lst(self, d):
        xs = [self.ex("str", d - 1) for _ in range(self.r.randrange(1, 3))]
        if self.r.random() < .15:
            return self.dis()
        return "[%s]" % ", ".join(x[0] for x in xs), lambda: [f() for _, f in xs]

    def nary(self, op, ts, fns, d):
        a, f = self.ex(ts[0], d - 1)
        b, g = self.ex(ts[1], d - 1)
        if op is None:
            name = self.r.choice(sorted(fns))

            def meth():
                x = f()
                if x is DIS:
                    self.maybe(g)
                    return DIS
                v = self.args([g])
                return DIS if v is DIS else fns[name](x, v[0])
            return "%s.%s(%s)" % (par(a), name, b), meth
        fn = fns[op.strip()]

        def binop():
            v = self.ops([f, g])
            if v is DIS:
                return DIS
            x = fn(*v)
            if x is None or isinstance(x, int) and abs(x) > 1 << 50 or isinstance(x, str) and len(x) > 4000:
                raise OverflowError
            return x
        return "(%s%s%s)" % (a, op, b), binop

    def leaf(self, t):
        r = self.r
        names = [x for x, ty in self.vt.items() if ty == t]
        if names and r.random() < .5:
            x = r.choice(names)
            return x, lambda: self.vars[x]
        v = r.randrange(10) if t == "int" else r.random() < .5 if t == "bool" else r.choice(["a", "bQ", "xQyQ", "zz"])
        return (str(v) if t == "int" else ("true" if v else "false") if t == "bool" else "'%s'" % v), lambda: v


def par(a):
    return a if re.fullmatch(r"\w+|'[^']*'|\(.*\)|\w+\(.*\)", a) else "(%s)" % a


def has(v):
    return v is DIS or isinstance(v, list) and any(map(has, v))


HEAD = """func e(id int, x any) -> any
  message('E', id)
  return x
endfunc
func w(id int, a any, b any:0, c any:0) -> int
  message('E', id)
  return 1
endfunc
func idf(x any) -> any
  return x
endfunc
d0 = disabler()
"""


def program(r):
    g = Gen(r)
    g.vars, g.vt = {"d0": DIS}, {"d0": "dis"}
    L, exp = [HEAD], []

    def dump(x, ind=""):
        i = g.id()
        L.append("%smessage('V', %d, is_disabler(%s) ? 'DIS' : %s)" % (ind, i, x, x))
        v = g.vars[x]
        exp.append((i, "DIS" if v is DIS else show(v)))
        g.eff(("V", i))

    for _ in range(r.randrange(8, 20)):
        k = r.randrange(10)
        t = r.choice(["int", "bool", "str"])
        snap = dict(g.vars), dict(g.vt), len(g.req), set(g.opt), len(L), len(exp)
        try:
            if k <= 4:
                s, f = g.ex(t, 4)
                x = "v%d" % r.randrange(6)
                v = f()
                setv = r.random() < .25
                L.append("set_variable('%s', %s)" % (x, s) if setv else "%s = %s" % (x, s))
                g.vars[x] = v
                g.vt[x] = "dis" if v is DIS else t
                dump(x)
            elif k == 5:
                names = [x for x, ty in g.vt.items() if ty in ("int", "str")]
                names += [x for x, ty in g.vt.items() if ty == "dis" and x != "d0"]
                if not names:
                    continue
                x = r.choice(names)
                ty = g.vt[x] if g.vt[x] != "dis" else "int"
                s, f = g.ex(ty, 3)
                v = f()
                L.append("%s += %s" % (x, s))
                if g.vars[x] is DIS or v is DIS:
                    g.vars[x], g.vt[x] = DIS, "dis"
                else:
                    g.vars[x] += v
                dump(x)
            elif k <= 7:
                n, done, kw = r.randrange(1, 4), False, "if"
                new = None
                for _ in range(n):
                    c, cf = g.ex("bool", 3)
                    i = g.id()
                    L.append("%s %s\n  message('E', %d)" % (kw, c, i))
                    kw = "elif"
                    if not done:
                        v = cf()
                        if v is DIS:
                            done = True
                        elif v:
                            g.eff(i)
                            done = True
                if r.random() < .6:
                    i = g.id()
                    L.append("else\n  message('E', %d)" % i)
                    if not done:
                        g.eff(i)
                L.append("endif")
            elif k == 8:
                # a loop over values of which some are disablers
                xs = [g.ex("int", 2) for _ in range(r.randrange(1, 4))]
                i, j = g.id(), g.id()
                L.append("foreach it : [%s]\n  e(%d, it)\n  if it > 4\n    message('E', %d)\n  endif\nendforeach" % (", ".join(x[0] for x in xs), i, j))
                for v in [f() for _, f in xs]:
                    if v is not DIS:
                        g.eff(i)
                        if v > 4:
                            g.eff(j)
            else:
                # calls for their effect only
                s, f = g.ex(r.choice(["int", "str"]), 3)
                i = g.id()
                form = r.choice(["message('E', %d, %s)", "message(['E', %d, [%s]])", "assert(false, 'm%d'.format(%s))", "error('E', %d, %s)"])
                v = f()
                if v is not DIS and not form.startswith("message("):
                    raise OverflowError
                if v is not DIS:
                    g.eff(i)
                if form.startswith("message(["):
                    if v is not DIS:
                        raise OverflowError
                L.append(form % (i, s))
        except OverflowError:
            g.vars, g.vt = snap[0], snap[1]
            del g.req[snap[2]:], L[snap[4]:], exp[snap[5]:]
            g.opt = snap[3]
    i = g.id()
    L.append("message('E', %d)" % i)
    g.eff(i)
    return "\n".join(L) + "\n", g, exp


def show(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


def language(ck):
    jobs = []
    for i in range(ck.n(6000, 100000)):
        src, g, exp = program(ck.rng("lang", i))
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": src}, tag=(g, exp, src)))

    def judge(j, d):
        g, exp, src = j.tag
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation("crash:" + str(k or "timeout"), j.res.text[-2000:], j.files)
            return
        got, vals = [], {}
        for m in re.finditer(r"^message: ([EV]) (\d+)(?: (.*))?$", j.res.text, re.M):
            i = int(m.group(2))
            got.append(i if m.group(1) == "E" else ("V", i))
            if m.group(1) == "V":
                vals[i] = m.group(3).rstrip(" ")
        err = re.search(r"^.*error.*\n.*$", j.res.text, re.M)
        ck.case(src)
        if j.res.rc != 0:
            ck.violation("error", "a program in which disablers meet valid operations failed\n%s\n%s" % (err and err.group(0), src[len(HEAD):][-1500:]), j.files)
            return
        need = [x for x in got if x not in g.opt]
        if need != g.req:
            at = next((n for n, (a, b) in enumerate(zip(need + [None], g.req + [None])) if a != b), 0)
            ck.violation("effects", "effects observed %r..., expected %r... (from position %d)\n%s" % (
                need[at:at + 3], g.req[at:at + 3], at, src[len(HEAD):][-2500:]), j.files)
            return
        for i, want in exp:
            ck.count("values")
            if vals.get(i) != want:
                ck.violation("value", "dump %d shows %r, expected %r\n%s" % (i, vals.get(i), want, src[len(HEAD):][-2500:]), j.files)
                return
        ck.count("effects_seen", len(need))
    run_jobs(ck, jobs, fn=judge)


# functions that observe a disabler, or return one without looking at their arguments
OBSERVERS = {"is_disabler", "set_variable", "get_variable", "is_variable", "disabler", "unset_variable"}


def slots(s, r):
    """calls of s with a disabler in one argument"""
    D = lambda: r.choice(["d", "disabler()", "d.foo()", "get_variable('d')"])
    N = lambda: r.choice(["[%s]", "[['s'], [%s]]", "['s', %s]"]) % D()
    out = []
    for i in range(len(s.pos) + len(s.opt) + (1 if s.var else 0)):
        t, _ = s.ptype(i)
        if t is None:
            continue
        pos = list(s.bpos)
        while len(pos) < i:
            pos.append(C29.good(r, s.ptype(len(pos))[0]))
        if None in pos:
            continue
        for v in (D(), N()):
            q = list(pos)
            q[i:i + 1] = [v]
            out.append(s.call(pos=q))
    for k in sorted(s.kw):
        kw = dict(s.bkw)
        kw.pop(k, None)
        kw[k] = r.choice([D, N])()
        out.append(s.call(kw=kw))
        kw.pop(k)
        out.append(s.call(kw=kw, extra="kwargs: {'%s': %s}" % (k, r.choice([D, N])())))
    if s.kw and not s.bkw:
        out.append(s.call(extra="kwargs: d"))
    return out


def builtins(ck):
    sigs = [C29.Sig(s) for s in json.load(open(os.path.join(VERIF, "spec", "signatures.json")))]
    sigs = [s for s in sigs if s.base is not None and s.name not in OBSERVERS and not s.callee.startswith("disabler()")]
    calls = {False: [], True: []}
    for s in sigs:
        r = ck.rng("b", s.name)
        for _ in range(ck.n(1, 6)):
            for c in slots(s, r):
                calls[s.cproj or C29.needs_c(c)].append((s.name, c))
    files = dict(C29.FILES)
    files["sd/meson.build"] = "message('EFFECT subdir')\n"
    files["subprojects/other/meson.build"] = "project('other')\nmessage('EFFECT subproject')\n"
    jobs = []
    for c, cs in calls.items():
        ck.rng("o", c).shuffle(cs)
        n = 25
        # these must come before any target, so they go into projects of their own
        early = [x for x in cs if x[0].startswith(("add_global", "add_project"))]
        early = [x for x in early if not re.search(r"\b(prog|sh|en|cd|rr|fo|inc|al|ct|gen|m|py|ss|ssa|sp|dep|kv|pk|exe|lib|bl|cc|run|a_c)\b",
                                                   re.sub(r"'[^']*'|\w+: ", "", x[1][x[1].index("("):]))]
        rest = [x for x in cs if not x[0].startswith(("add_global", "add_project"))]
        head = "project('p'%s, version: '1.0')\nd = disabler()\n" % (", 'c'" if c else "")
        objs = C29.OBJS + (C29.COBJS if c else "")
        groups = [(("early", c), early[i:i + n], "", objs) for i in range(0, len(early), n)]
        groups += [(("late", c), rest[i:i + n], objs, "") for i in range(0, len(rest), n)]
        groups += [(("early", c), [], "", objs), (("late", c), [], objs, "")]
        for ref, part, before, after in groups:
            f = dict(files)
            f["meson.build"] = head + before + "".join(line(i, x) for i, x in enumerate(part)) + after + "message('END')\n"
            jobs.append(Job(["setup", "build"], f, tag=[ref, part, None], timeout=120))

    def judge(j, d):
        j.tag[2] = tree(d)
        t = j.res.text
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation("builtin:crash:" + str(k or "timeout"), t[-2000:], j.files)
            j.tag[2] = None
            return
        part = j.tag[1]
        if j.res.rc != 0 or "END" not in t:
            m = re.search(r"meson\.build:(\d+):\d+: error", t, re.M)
            src = j.files["meson.build"].split("\n")
            at = src[int(m.group(1)) - 1] if m else "?"
            ck.violation("builtin:error:" + re.sub(r"^r\d+ = |\(.*", "", at), "a call with a disabler among its arguments failed\n%s\n%s" % (at, t[-1200:]), j.files)
            j.tag[2] = None
            return
        if "EFFECT" in t:
            ck.violation("builtin:effect", "a call with a disabler among its arguments ran\n%s" % t[-1500:], j.files)
        got = dict(re.findall(r"^message: R (\d+) (true|false)", t, re.M))
        for i, (name, call) in enumerate(part):
            ck.case(call)
            ck.count("builtin_calls")
            if got.get(str(i)) != "true":
                ck.violation("builtin:" + name, "%s did not yield a disabler" % call, j.files)
    run_jobs(ck, jobs, config="plain", fn=judge, chunk=8)
    ref = {j.tag[0]: j.tag[2] for j in jobs if not j.tag[1]}
    for j in jobs:
        key, part, got = j.tag
        if part and got is not None and ref.get(key) is not None:
            diff = sorted(k for k in set(got) | set(ref[key]) if got.get(k) != ref[key].get(k))
            ck.count("trees_compared")
            if diff:
                ck.violation("builtin:tree", "calls with a disabler among their arguments changed %s\n%s\n%s" % (
                    diff[:5], delta(got.get(diff[0]), ref[key].get(diff[0])), "\n".join(x[1] for x in part)), j.files)


def delta(a, b):
    a, b = ((x or b"").decode("utf-8", "replace").splitlines() for x in (a, b))
    return "\n".join([x for x in a if x not in b][:5] + ["--"] + [x for x in b if x not in a][:5])[:1500]


def line(i, x):
    return "r%d = %s\nmessage('R', %d, is_disabler(r%d))\n" % (i, x[1], i, i)


def tree(d):
    out = {}
    for root, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, d)
            if rel == "meson.build" or "/.muon/" in rel or "muon-private/log" in rel or rel.endswith(".log") or os.path.islink(p):
                continue
            out[rel] = read(p).replace(d.encode(), b"@ROOT@")
    return out


def body(ck):
    ck.rule = "one case is a distinct program, or a distinct built-in call with a disabler in one argument"
    language(ck)
    builtins(ck)
    ck.assumptions = ["whether arguments after a disabled one, and arguments of a disabler's methods, are evaluated is left open",
                      "a container holding a disabler is not itself one; is_disabler, get_variable, set_variable and is_variable observe"]
    ck.finish(min_evals=2000)


if __name__ == "__main__":
    main("C25", body)
