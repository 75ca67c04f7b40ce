#!/usr/bin/env python3
"""C26: source sets select exactly the sources their rules select.

Random histories of add, add_all, apply and queries over several source sets are run next to a model; every
result is printed and compared element by element, every misuse must be refused."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SRC = ["s%d.c" % i for i in range(9)]
FSRC = ["f%d.c" % i for i in range(5)]
KEYS = ["A", "B", "C", "D", "E F", "g"]
VALS = [("true", 1), ("false", 0), ("1", 1), ("0", 0), ("-1", 1), ("''", 0), ("'x'", 1), ("'0'", 1), ("'false'", 1), ("42", 1)]


class Err(Exception):
    pass


class Open(Exception):
    """left open by the definition"""


class SS:
    def __init__(self):
        self.rules, self.frozen = [], False


def uniq(a):
    out = []
    for x in a:
        if x not in out:
            out.append(x)
    return out


def collect(ss, en, everything, src, dep):
    for keys, wdeps, items, els in ss.rules:
        nf = [x for x in wdeps if not x[1]]
        ok = not nf
        if nf and any(en(k, True) is None for k in keys):
            raise Open
        if ok:
            for k in keys:
                if not en(k, False):
                    ok = False
                    break
        if ok:
            dep += [x[0] for x in wdeps]
            for t, v in items:
                if t == "src":
                    src.append(v)
                elif t == "dep":
                    dep.append(v[0])
                else:
                    collect(v, en, everything, src, dep)
            if not everything:
                continue
        src += els


class Gen:
    def __init__(self, r):
        self.r = r
        self.L = ["project('p')", "ssm = import('sourceset')", "c = configuration_data()"]
        self.sets = {}
        self.deps = [("d%d" % i, r.random() < .75) for i in range(6)]
        for n, f in self.deps:
            self.L.append("%s = %s" % (n, "declare_dependency(version: '%s')" % n if f else "dependency('not-there-%s', required: false)" % n))
        self.L.append("ct = custom_target('ct', output: ['ct.c'], command: ['touch', '@OUTPUT@'])")
        self.L.append("gen = generator(find_program('touch'), output: '@BASENAME@.gen.c', arguments: ['@OUTPUT@'])")
        self.L.append("gl = gen.process('s0.c')")
        self.want = []
        for i in range(r.randrange(2, 6)):
            self.L.append("ss%d = ssm.source_set()" % i)
            self.sets["ss%d" % i] = SS()
        self.n = 0

    def srcs(self, lo=0, dep=True):
        """(source text, items)"""
        r = self.r
        t, items = [], []
        for _ in range(r.randrange(lo, 5)):
            k = r.randrange(8)
            if k <= 3:
                x = r.choice(SRC)
                t.append(quote(x))
                items.append(("src", x))
            elif k == 4:
                x = r.sample(FSRC, r.randrange(1, 3))
                t.append("files(%s)" % ", ".join(map(quote, x)))
                items += [("src", y) for y in x]
            elif k == 5 and dep:
                x = r.choice(self.deps)
                t.append(x[0])
                items.append(("dep", x))
            elif k == 6:
                x = r.choice(["ct", "gl"])
                t.append(x)
                items.append(("src", x))
            else:
                x = [r.choice(SRC) for _ in range(r.randrange(0, 3))]
                t.append("[%s]" % ", ".join("[%s]" % quote(y) if r.random() < .3 else quote(y) for y in x))
                items += [("src", y) for y in x]
        return t, items

    def when(self):
        r = self.r
        keys, deps, t = [], [], []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            if r.random() < .65:
                x = r.choice(KEYS)
                keys.append(x)
                t.append(quote(x))
            else:
                x = r.choice(self.deps)
                deps.append(x)
                t.append(x[0])
        return t, keys, deps

    def lst(self, t):
        if len(t) == 1 and self.r.random() < .5:
            return t[0]
        return "[%s]" % ", ".join(t)

    def show(self, arr, what, items):
        """prints the elements of an array one by one"""
        self.n += 1
        L = self.L
        L.append("foreach x : %s" % arr)
        if what == "src":
            # strings, files and targets print differently
            L.append("  if x == ct\n    message('R%d', 'ct')\n  elif x == gl\n    message('R%d', 'gl')\n  else\n    message('R%d', '@0@'.format(x))\n  endif" % (self.n, self.n, self.n))
        else:
            L.append("  message('R%d', x.version())" % self.n)
        L.append("endforeach\nmessage('END%d')" % self.n)
        found = dict(self.deps)
        self.want.append((self.n, [x if found.get(x, True) else "unknown" for x in items]))

    def apply(self, name, conf, strict):
        ss = self.sets[name]
        ss.frozen = True

        def en(k, probe):
            if k not in conf:
                if probe:
                    return None if strict else 0
                if strict:
                    raise Err
                return 0
            return conf[k]
        src, dep = [], []
        collect(ss, en, False, src, dep)
        return uniq(src), uniq(dep)

    def step(self):
        r = self.r
        name = r.choice(sorted(self.sets))
        ss = self.sets[name]
        k = r.randrange(26)
        if k <= 14:
            if ss.frozen and r.random() < .99:
                return
            j = r.randrange(3)
            if j == 0:
                t, items = self.srcs(1)
                rule = ([], [], items, [])
                call = "%s.add(%s)" % (name, ", ".join(t))
                if not items:
                    rule = None
            else:
                w, keys, deps = self.when()
                t, items = self.srcs(0 if j == 2 else 1)
                e, els = self.srcs(0, False) if r.random() < .4 else ([], [])
                kw = ["when: " + self.lst(w)] if w or r.random() < .2 else []
                if t or r.random() < .3:
                    kw.append("if_true: " + self.lst(t))
                if e:
                    kw.append("if_false: " + self.lst(e))
                r.shuffle(kw)
                call = "%s.add(%s)" % (name, ", ".join(kw))
                rule = (keys, deps, items, [v for _, v in els])
            self.L.append(call)
            if ss.frozen:
                raise Err
            if rule:
                ss.rules.append(rule)
        elif k <= 23:
            if ss.frozen and r.random() < .97:
                return
            others = [x for x in sorted(self.sets) if x != name or r.random() < .03]
            if not others:
                return
            sub = r.sample(others, r.randrange(1, 1 + min(2, len(others))))
            w, keys, deps = self.when()
            if r.random() < .3 or not w:
                keys, deps = [], []
                self.L.append("%s.add_all(%s)" % (name, self.lst(sub)))
            else:
                self.L.append("%s.add_all(when: %s, if_true: %s)" % (name, self.lst(w), self.lst(sub)))
            if ss.frozen or name in sub:
                raise Err
            for x in sub:
                self.sets[x].frozen = True
            ss.rules.append((keys, deps, [("ss", self.sets[x]) for x in sub], []))
        elif k == 24:
            self.conf(name)
        else:
            if not ss.rules and r.random() < .7:
                return
            if r.random() < .5:
                src, dep = [], []
                ss.frozen = True
                collect(ss, lambda k, p: 1, True, src, dep)
                if r.random() < .5:
                    self.show(name + ".all_sources()", "src", uniq(src))
                else:
                    self.show(name + ".all_dependencies()", "dep", uniq(dep))

    def conf(self, name):
        r = self.r
        conf, vals = {}, {}
        for k in KEYS:
            if r.random() < .985:
                vals[k] = r.choice(VALS)
                conf[k] = vals[k][1]
        strict = r.random() < .7
        self.n += 1
        cn = "conf%d" % self.n
        if r.random() < .5:
            self.L.append("%s = {%s}" % (cn, ", ".join("%s: %s" % (quote(k), v[0]) for k, v in vals.items())))
        else:
            self.L.append("%s = configuration_data({%s})" % (cn, ", ".join("%s: %s" % (quote(k), v[0]) for k, v in vals.items())))
        self.L.append("a%d = %s.apply(%s%s)" % (self.n, name, cn, ", strict: false" if not strict else r.choice(["", ", strict: true"])))
        a = "a%d" % self.n
        src, dep = self.apply(name, conf, strict)
        self.show(a + ".sources()", "src", src)
        self.show(a + ".dependencies()", "dep", dep)


def gen(r):
    while True:
        g = Gen(r)
        g.err = False
        try:
            for _ in range(r.randrange(6, 50)):
                g.step()
            for n in sorted(g.sets):
                if r.random() < .8:
                    g.conf(n)
        except Err:
            g.err = True
        except Open:
            continue
        g.L.append("message('DONE')")
        if g.err:
            g.at = len([1 for l in g.L[:-1] for _ in l.split("\n")])
        return g


BAD = [("ss.add('a', when: 'X')", 1), ("ss.add('a', if_true: 'b')", 1), ("ss.add('a', if_false: 'b')", 1), ("ss.add_all(s2, when: 'X')", 1), ("ss.add_all(s2, if_true: s3)", 1),
       ("ss.add(s2)", 1), ("ss.add(when: 'X', if_true: s2)", 1), ("ss.add_all('a.c')", 1), ("ss.add_all(when: 'X', if_true: 'a.c')", 1), ("ss.add(when: true, if_true: 'a')", 1),
       ("ss.add(1)", 1), ("ss.add_all(s2)\ns2.add('a')", 2), ("ss.add_all(s2)\ns2.add_all(s3)", 2), ("ss.add_all(when: 'X', if_true: [s3, s2])\ns2.add('q')", 2),
       ("ss.apply({})\nss.add('a')", 2), ("ss.apply({})\nss.add_all(s2)", 2), ("ss.all_sources()\nss.add('a')", 2), ("ss.all_dependencies()\nss.add('a')", 2),
       ("ss.all_sources()\nss.add_all(s2)", 2), ("ss.all_dependencies()\nss.add_all(s2)", 2), ("ss.add_all(ss)\nss.apply({})", 1), ("ss.add_all(s2)\ns2.add_all(ss)", 2),
       ("ss.add(when: 'X', if_true: 'a')\nss.apply({})", 2), ("ss.add(when: 'X', if_true: 'a')\nss.apply({}, strict: true)", 2), ("ss.add(when: 'X', if_true: 'a')\nss.apply(configuration_data())", 2),
       ("s2.add(when: 'X', if_true: 'a')\nss.add_all(s2)\nss.apply({})", 3), ("s2.add(when: 'X', if_true: 'a')\ns3.add_all(s2)\nss.add_all(when: [], if_true: s3)\nss.apply({})", 4),
       ("ss.apply()", 1), ("ss.apply('x')", 1), ("ss.apply({}, {})", 1), ("ss.apply({}, strict: 'true')", 1), ("ss.all_sources(1)", 1),
       ("ss.add(when: 'X', if_false: d)", 1), ("ss.add_all(when: 'X', if_true: s2, if_false: s3)", 1)]
GOOD = ["ss.add(when: 'X', if_true: 'a')\nss.apply({}, strict: false)", "ss.add(when: ['Y', 'X'], if_true: 'a')\nss.apply({'Y': false})", "ss.add()\nss.apply({})", "ss.add_all()\nss.apply({})",
        "ss.add_all(s2)\nss.add('x')\nss.add_all(s3)\nss.apply({})\nss.apply({'a': 1})\nss.all_sources()\ns2.apply({})", "ss.apply({'a': []})", "ss.add([], [[]])", "ss.add_all(s2, s2)\nss.apply({})"]


def batch(ck, muon, prog, files, want, at, show):
    d = ck.tmp("p")
    for n in SRC + FSRC + ["a", "a.c"]:
        write(os.path.join(d, n), "")
    write(os.path.join(d, "meson.build"), prog)
    subprocess.run(["chown", "-R", "65534:65534", d])
    res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=90)
    if res.timeout:
        res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=300)
    k = crashed(res)
    shutil.rmtree(d, ignore_errors=True)
    if k or res.timeout:
        ck.violation("crash:" + (k or "hang"), "%s\n%s" % (res.text[-2500:], show), files)
        return None
    return res


def one(ck, i, muon):
    g = gen(ck.rng("p", i))
    prog = "\n".join(g.L) + "\n"
    files = {"meson.build": prog}
    res = batch(ck, muon, prog, files, None, None, prog)
    if res is None:
        return
    ck.case(prog)
    txt = res.text
    if ("DONE" in txt) == g.err or (res.rc != 0) != g.err:
        ck.violation("refused" if not g.err else "accepted", "exit %s, %s\n%s\n%s" % (res.rc, "an error was due at the last statement" if g.err else "no error was due", txt[-1500:], prog), files)
        return
    if g.err:
        m = re.search(r"meson\.build:(\d+):\d+: error", txt)
        ck.count("refusals")
        if not m or int(m.group(1)) != g.at:
            ck.violation("refused-elsewhere", "error at line %s, due at line %d\n%s\n%s" % (m and m.group(1), g.at, txt[-1500:], prog), files)
            return
    for n, items in g.want:
        if not re.search(r"END%d\s" % n, txt):
            continue
        got = [re.sub(r"^.*/|[>']", "", x).strip() for x in re.findall(r"message: R%d (.*)" % n, txt)]
        ck.count("results")
        ck.count("elements", len(items))
        if got != items:
            ck.violation("selection", "result R%d is %s, the rules select %s\n%s" % (n, got, items, prog), files)


def fixed(ck, muon):
    head = "project('p')\nm = import('sourceset')\nss = m.source_set()\ns2 = m.source_set()\ns3 = m.source_set()\nd = declare_dependency()\n"
    for body, line in BAD:
        prog = head + body + "\nmessage('DONE')\n"
        res = batch(ck, muon, prog, {"meson.build": prog}, None, None, body)
        ck.case(body)
        if res is None:
            continue
        ck.count("refusals")
        m = re.search(r"meson\.build:(\d+):\d+: error", res.text)
        if res.rc == 0 or "DONE" in res.text or not m or int(m.group(1)) != 6 + line:
            ck.violation("misuse:" + body, "must be refused at statement %d: exit %s\n%s\n%s" % (line, res.rc, body, res.text[-800:]))
    for body in GOOD:
        prog = head + body + "\nmessage('DONE')\n"
        res = batch(ck, muon, prog, {"meson.build": prog}, None, None, body)
        ck.case(body)
        if res is not None and (res.rc != 0 or "DONE" not in res.text):
            ck.violation("use:" + body, "must be accepted: exit %s\n%s\n%s" % (res.rc, body, res.text[-800:]))


def body(ck):
    ck.rule = "one case is one history of calls on source sets"
    muon = build("asan")
    ck.map(lambda i: one(ck, i, muon), range(ck.n(1500, 20000)))
    fixed(ck, muon)
    ck.assumptions = ["a key missing under strict in a rule that a not-found dependency already excludes may or may not be an error",
                      "a string and a file object of one name are not mixed"]
    ck.finish(min_evals=300)


if __name__ == "__main__":
    main("C26", body)
