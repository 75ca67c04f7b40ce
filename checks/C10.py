#!/usr/bin/env python3
"""C10: options resolve by precedence and only to valid values.

Projects with subprojects declare random options and set them from random sources; a model of the
precedence order says the value each project must see (or the few that are allowed where the order is not
defined), and the generated program compares with get_option().  A second part assigns one invalid value
through one source and expects a refusal."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["a", "opt", "with-dash", "under_score", "UPPER", "x1", "long" * 12, "enable", "name", "val", "feat"]
STR = ["", "v", "two words", "a=b", "x:y", "é", "'q'", "back\\slash", "a,b", "-Dx", "%s", "true", "0", "[x]", "@X@", "x" * 500]
ELEM = ["e", "f1", "two words", "é", "a=b", "c:d", "g.h", "-l"]
BUILTIN_PP = {"warning_level": ["0", "1", "2", "3", "everything"], "default_library": ["static", "shared", "both"], "c_std": ["none", "c99", "gnu11", "c11"]}
BUILTIN_GL = {"buildtype": ["plain", "debug", "debugoptimized", "release", "minsize"], "wrap_mode": ["nofallback", "nodownload", "forcefallback"],
              "layout": ["mirror"], "b_ndebug": ["true", "false", "if-release"]}


class Opt:
    def __init__(self, r, name, like=None):
        self.name = name
        self.type = like.type if like else r.choice(["string", "boolean", "combo", "integer", "array", "feature"])
        self.choices = self.min = self.max = None
        if like:
            self.choices, self.min, self.max = like.choices, like.min, like.max
        elif self.type == "combo":
            self.choices = r.sample(STR[1:], r.randrange(1, 6))
        elif self.type == "array" and r.random() < .5:
            self.choices = r.sample(ELEM, r.randrange(1, 6))
        elif self.type == "integer":
            if r.random() < .5:
                self.min = r.randrange(-10, 10)
            if r.random() < .5:
                self.max = (self.min or 0) + r.randrange(0, 1000)
        self.explicit = self.type == "integer" or r.random() < .7
        self.default = self.value(r) if self.explicit else {"string": "", "boolean": True, "feature": "auto"}.get(self.type) \
            if self.type not in ("combo", "array") else self.choices[0] if self.type == "combo" else list(self.choices or [])
        self.yields = False

    def value(self, r):
        t = self.type
        if t == "string":
            return r.choice(STR)
        if t == "boolean":
            return r.random() < .5
        if t == "combo":
            return r.choice(self.choices)
        if t == "integer":
            lo = self.min if self.min is not None else -(10 ** r.randrange(1, 12))
            hi = self.max if self.max is not None else max(lo, 0) + 10 ** r.randrange(1, 12)
            return r.choice([lo, hi, r.randint(lo, hi)])
        if t == "array":
            c = self.choices or ELEM
            return r.sample(c, r.randrange(0, min(len(c), 4) + 1))
        return r.choice(["enabled", "disabled", "auto"])

    def decl(self, r, value=None):
        kw = ["type: '%s'" % self.type]
        if self.explicit or value is not None:
            kw.append("value: " + (value if value is not None else lit(self.default)))
        if self.choices is not None:
            kw.append("choices: " + lit(self.choices))
        if self.min is not None:
            kw.append("min: %d" % self.min)
        if self.max is not None:
            kw.append("max: %d" % self.max)
        if self.yields or r.random() < .1:
            kw.append("yield: " + lit(self.yields))
        if r.random() < .2:
            kw.append("description: 'it is ''that'''" if 0 else "description: 'what it does'")
        r.shuffle(kw)
        return "option(%s, %s)" % (quote(self.name), ", ".join(kw))

    def text(self, r, v):
        """a spelling for the command line or default_options"""
        if self.type == "boolean":
            return lit(v)
        if self.type == "array":
            if not v:
                return r.choice(["", "[]"])
            if r.random() < .5 and all("," not in x for x in v) and not v[0].startswith("["):
                return ",".join(v)
            return "[" + r.choice([", ", ","]).join(quote(x) for x in v) + "]"
        return str(v)

    def invalid(self, r):
        t = self.type
        if t == "boolean":
            return r.choice(["maybe", "", "1", "True ", "yes", "2"])
        if t == "combo":
            return r.choice(["not a choice", self.choices[0] + "x", "" if "" not in self.choices else "nope", self.choices[0].upper() + "_"])
        if t == "integer":
            c = ["", "x", "1x", "1.5", "--1", "0x1g", "99999999999999999999", "-99999999999999999999"]
            if self.min is not None:
                c += [str(self.min - 1)] * 4
            if self.max is not None:
                c += [str(self.max + 1)] * 4
            return r.choice(c)
        if t == "array":
            c = ["[", "['a'", "[1]", "['a', 2]", "[['a']]", "[undefined_thing]"]
            if self.choices:
                c = c[:2] + ["nope", self.choices[0] + ",nope" if "," not in self.choices[0] else "nope", "['nope']"] * 2
            return r.choice(c)
        if t == "feature":
            return r.choice(["on", "", "true", "Enabled", "enable", "enabledx"])
        return None


def lit(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v) if isinstance(v, int) else \
        "[" + ", ".join(map(lit, v)) + "]" if isinstance(v, list) else quote(v)


def test_expr(name, typ, vals):
    g = "get_option(%s)" % quote(name)
    if typ == "feature":
        g = "(%s.enabled() ? 'enabled' : %s.disabled() ? 'disabled' : 'auto')" % (g, g)
    return "(%s)" % " or ".join("%s == %s" % (g, lit(v)) for v in vals)


class World:
    def __init__(self, r):
        self.r = r
        nsub = r.choice([0, 1, 1, 2])
        self.projs = [None] + ["s%d" % i for i in range(nsub)]
        self.opts = []                   # per project: {name: Opt}
        root = {n: Opt(r, n) for n in r.sample(NAMES, r.randrange(1, 8))}
        self.opts.append(root)
        for _ in range(nsub):
            o = {}
            for n in r.sample(NAMES, r.randrange(1, 7)):
                same = n in root and r.random() < .7
                o[n] = Opt(r, n, root[n] if same else None)
                if r.random() < .5 and (same or n not in root or root[n].type != o[n].type):
                    o[n].yields = True
            self.opts.append(o)
        for oo in self.opts:
            if r.random() < .5:
                for n in BUILTIN_PP:
                    x = Opt.__new__(Opt)
                    x.name, x.type, x.choices, x.min, x.max, x.yields, x.explicit = n, "combo", BUILTIN_PP[n], None, None, oo is not root, True
                    x.default, x.builtin = {"warning_level": None, "default_library": "static", "c_std": "none"}[n], True
                    oo[n] = x
        if r.random() < .5:
            for n in BUILTIN_GL:
                x = Opt.__new__(Opt)
                x.name, x.type, x.choices, x.min, x.max, x.yields, x.explicit, x.default, x.builtin = n, "combo", BUILTIN_GL[n], None, None, False, True, None, True
                root[n] = x
        # assignments: (source, proj, name, value)
        self.cmd, self.env = [], {}
        self.own = [[] for _ in self.projs]
        self.call = [[] for _ in self.projs]
        self.rootsub = []
        for pi, oo in enumerate(self.opts):
            for n, o in oo.items():
                if r.random() < .35:
                    for _ in range(r.choice([1, 1, 1, 2])):
                        self.cmd.append((pi, o, o.value(r)))
                if r.random() < .35:
                    self.own[pi].append((pi, o, o.value(r)))
                if pi and r.random() < .25:
                    self.call[pi].append((pi, o, o.value(r)))
                if pi and r.random() < .15:
                    self.rootsub.append((pi, o, o.value(r)))
        r.shuffle(self.cmd)
        self.cflags = r.choice([None, None, ["-DX=1", "-O1"]])

    def values(self, pi, o):
        """allowed values of option o of project pi, None if unconstrained"""
        def last(L):
            v = [v for p, x, v in L if p == pi and x is o]
            return v[-1:]
        cmd = last(self.cmd)
        up = last(self.call[pi]) + last(self.rootsub)
        own = last(self.own[pi])
        lower = cmd or up or own
        if o.yields:
            p = self.opts[0].get(o.name)
            if p and p.type == o.type:
                pv = self.values(0, p)
                return None if pv is None else pv + lower
            if not p and getattr(o, "builtin", False):
                return None
        if cmd:
            return cmd
        if up:
            return up
        if own:
            return own
        return None if o.default is None else [o.default]

    def sources(self, bad=None):
        """files and argv; bad: (source, pi, text) appended"""
        r = self.r
        files, argv = {}, []

        def s(o, v, sub=None):
            return ("%s:" % sub if sub else "") + "%s=%s" % (o.name, o.text(r, v))
        for pi, name in enumerate(self.projs):
            d = "subprojects/%s/" % name if name else ""
            do = [s(o, v) for _, o, v in self.own[pi]]
            if not pi:
                do += [s(o, v, self.projs[p]) for p, o, v in self.rootsub]
            if bad and bad[0] == "own" and bad[1] == pi:
                do.insert(r.randrange(len(do) + 1), bad[2])
            L = ["project('p%d'%s)" % (pi, ", default_options: " + lit(do) if do else "")]
            late = []
            for o in self.opts[pi].values():
                v = self.values(pi, o)
                if v is not None:
                    uniq = [x for i, x in enumerate(v) if x not in v[:i]]
                    late.append("if not %s\n  message('BAD', %s, get_option(%s), 'expected one of', %s)\nelse\n  message('GOOD')\nendif" % (
                        test_expr(o.name, o.type, uniq), quote(o.name), quote(o.name), lit([lit(x) for x in uniq])))
            if not pi:
                if self.cflags:
                    late.append("if get_option('c_args') != %s\n  message('BAD', 'c_args', get_option('c_args'))\nendif" % lit(self.cflags))
                for i in range(1, len(self.projs)):
                    do = [s(o, v) for _, o, v in self.call[i]]
                    if bad and bad[0] == "call" and bad[1] == i:
                        do.append(bad[2])
                    late.insert(r.randrange(len(late) + 1), "subproject(%s%s)" % (quote(self.projs[i]), ", default_options: " + lit(do) if do else ""))
            files[d + "meson.build"] = "\n".join(L + late) + "\n"
            decl = [o.decl(r) for o in self.opts[pi].values() if not getattr(o, "builtin", False)]
            if bad and bad[0] == "decl" and bad[1] == pi:
                decl.insert(r.randrange(len(decl) + 1), bad[2])
            if decl:
                f = r.choice(["meson.options", "meson_options.txt"])
                files[d + f] = "\n".join(decl) + "\n"
                if f == "meson.options" and r.random() < .2:
                    files[d + "meson_options.txt"] = "option('unused', type: 'string')\n"
        for p, o, v in self.cmd:
            a = s(o, v, self.projs[p])
            argv += ["-D" + a] if r.random() < .7 else ["-D", a]
        if bad and bad[0] == "cmd":
            argv += ["-D" + bad[2]]
        return files, argv


def good(ck):
    jobs = []
    for i in range(ck.n(1400, 20000)):
        w = World(ck.rng("good", i))
        w.cflags = None
        files, argv = w.sources()
        jobs.append(Job(["setup"] + argv + ["build"], files, tag=w))

    def chk(j, d):
        judge(ck, j.res, j.files, j.argv)
    run_jobs(ck, jobs, fn=chk)


def judge(ck, res, files, argv, what=""):
    k = crashed(res)
    ctx = "muon %s\n%s\n%s" % (" ".join(map(quote, argv)), res.text[-900:], "\n".join("--- %s\n%s" % x for x in files.items())[:3500])
    fl = dict(files)
    fl["command"] = repr(argv)
    ck.case(repr(argv) + repr(files) + what)
    if k or res.rc != 0:
        ck.violation(k or "refused" + what, ctx, fl)
        return False
    ck.count("values_checked", len(re.findall(r"\bGOOD\b", res.text)))
    m = re.search(r"BAD.*", res.text, re.S)
    if m:
        ck.violation("value" + what, m.group(0)[:400] + "\n" + ctx, fl)
        return False
    return True


def bad(ck):
    jobs = []
    for i in range(ck.n(1200, 12000)):
        r = ck.rng("bad", i)
        w = World(r)
        w.cflags = None
        k = r.randrange(12)
        pi = r.randrange(len(w.projs))
        name = w.projs[pi]
        pre = "%s:" % name if name else ""
        if k < 7:
            o = r.choice(list(w.opts[pi].values()))
            t = o.invalid(r)
            if t is None:
                continue
            src = r.choice(["cmd", "own", "decl"] + (["call", "own"] if pi else []))
            if o.yields and src != "decl":
                continue
            if src != "cmd" and src != "decl":
                # nothing of higher precedence that would hide it
                w.cmd = [x for x in w.cmd if x[1] is not o]
                if src == "own":
                    w.call[pi] = [x for x in w.call[pi] if x[1] is not o]
                    w.rootsub = [x for x in w.rootsub if x[1] is not o]
                    w.own[pi] = [x for x in w.own[pi] if x[1] is not o]
                else:
                    w.call[pi] = [x for x in w.call[pi] if x[1] is not o]
                    w.rootsub = [x for x in w.rootsub if x[1] is not o]
            if src == "decl":
                b = Opt(r, "bad_one")
                t = b.invalid(r)
                if t is None:
                    continue
                v = {"array": "['nope']" if b.choices else "'x'", "integer": t if re.fullmatch(r"-?\d{1,18}", t) else quote(t)}.get(b.type, quote(t))
                if b.type == "integer" and v.lstrip("-").isdigit() and b.min is None and b.max is None:
                    continue
                b.explicit = True
                bd = (src, pi, b.decl(r, v))
            else:
                bd = (src, pi, (pre if src == "cmd" else "") + "%s=%s" % (o.name, t))
        elif k == 7:
            bd = ("cmd", 0, r.choice(["nope=1", "nosuchsub:%s=1" % r.choice(sorted(w.opts[0])), pre + "nope=x", "a", "=x", ":a=b", "a:b:c=d", pre + "Opt_x=1"]))
        elif k == 8:
            bd = ("own", pi, r.choice(["nope=1", "nope", "=1"]))
        elif k == 9 and pi:
            bd = ("call", pi, r.choice(["nope=1", "nope"]))
        elif k == 10:
            n = r.choice(sorted(w.opts[pi]))
            bd = ("decl", pi, r.choice(["option(%s, type: 'string')" % quote(n) if not getattr(w.opts[pi][n], "builtin", False) else "option('warning_level', type: 'string')",
                                        "option('z', type: 'nope')", "option('z')", "option('z', type: 'combo')", "option('z', type: 'integer', value: 'x')",
                                        "option('z', type: 'integer', value: 3, max: 2)", "option('z', type: 'boolean', choices: ['a'])", "option('z', type: 'combo', choices: ['a'], value: 'b')",
                                        "option('z', type: 'array', value: ['a', 1])", "option('z', type: 'string', value: 1)", "option('z', type: 'array', choices: ['a'], value: ['a', 'b'])"]))
        else:
            # reading an option that does not exist here
            w.opts[pi] = dict(w.opts[pi])
            files, argv = w.sources()
            f = ("subprojects/%s/" % name if name else "") + "meson.build"
            files[f] += "get_option(%s)\n" % quote(r.choice(["nope", "s0:a", "unused_x", ""]))
            jobs.append(Job(["setup"] + argv + ["build"], files, tag="get"))
            continue
        files, argv = w.sources(bd)
        if bd[0] == "decl" and not any(bd[2] in x for x in files.values()):
            continue
        jobs.append(Job(["setup"] + argv + ["build"], files, tag=bd))

    def chk(j, d):
        ck.case(repr(j.argv) + repr(j.files))
        ck.count("refusals")
        k = crashed(j.res)
        if k or j.res.rc == 0:
            fl = dict(j.files)
            fl["command"] = repr(j.argv)
            ck.violation(k or "accepted", "not refused: %s\nmuon %s\n%s\n%s" % (j.tag, j.argv, j.res.text[-500:], "\n".join("--- %s\n%s" % x for x in j.files.items())[:3500]), fl)
    run_jobs(ck, jobs, fn=chk)


def again(ck, muon):
    """the values survive a regeneration by the build, and environment values are taken"""
    def one(i):
        r = ck.rng("again", i)
        w = World(r)
        files, argv = w.sources()
        env = {"CFLAGS": " ".join(w.cflags)} if w.cflags else {}
        d = ck.tmp("t")
        for n, s in files.items():
            write(os.path.join(d, n), s)
        os.chmod(d, 0o777)
        subprocess.run(["chown", "-R", "65534:65534", d])
        cmd = [muon, "setup"] + argv + ["build"]
        res = run(cmd, cwd=d, user=65534, merge=True, timeout=60, env=env)
        if not judge(ck, res, files, cmd[1:], "-env" if env else ""):
            return
        if env:
            return
        n = len(re.findall("GOOD", res.text))
        for f in [os.path.join(a, x) for a, _, b in os.walk(os.path.join(d, "build")) for x in b]:
            os.utime(f, (1500000000, 1500000000))
        # an edit that changes nothing else
        f = r.choice([x for x in files])
        write(os.path.join(d, f), files[f] + "# edited\n")
        # the build reports what its commands print
        res = run([muon, "-C", "build", "samu"], cwd=d, user=65534, merge=True, timeout=60)
        ck.count("regenerations")
        if not judge(ck, res, files, cmd[1:], "-regenerated"):
            return
        if len(re.findall("GOOD", res.text)) != n and "GOOD" in res.text:
            ck.violation("regenerated", "%d values before, %d after\n%s" % (n, len(re.findall("GOOD", res.text)), res.text[-1500:]), files)
        # what is stored
        o = run([muon, "-C", "build", "options", "-m"] if 0 else [muon, "-C", "build", "options"], cwd=d, user=65534, merge=True, timeout=60)
        if crashed(o) or o.rc != 0:
            ck.violation("options:" + str(crashed(o)), o.text[-1500:], files)
        shutil.rmtree(d, ignore_errors=True)
    ck.map(one, range(ck.n(160, 2000)))


def body(ck):
    ck.rule = "one case is one configuration of a generated project tree; each get_option() value is compared in the program itself"
    muon = build("asan")
    good(ck)
    bad(ck)
    again(ck, muon)
    ck.assumptions = ["left open: a yielding option that the subproject also sets, values given both by subproject() and by the main project's default_options, "
                      "environment against default_options"]
    ck.finish(min_evals=500)


if __name__ == "__main__":
    main("C10", body)
