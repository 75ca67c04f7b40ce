#!/usr/bin/env python3
"""C11: arguments and environment reach every process verbatim.

Every process a project can have started is lib/probe.c, which records argv and environ exactly; compilers
and linkers are reached through a recording wrapper.  What is recorded is compared with the declaration."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PIECES = [" ", "  ", "\t", "'", '"', "$", "$$", "${x}", "$(x)", "`x`", "\\", "\\\\", "\\n", "|", "||", "&", "&&", ";", "<", ">", "*", "?", "[a]", "~", "#", "!",
          "(", ")", "{a,b}", "=", ":", "%", "%s", "^", "@", "@@", "user@host", "a", "b c", "xyz", "é", "\udcff", "\x01", "\x7f", "\r", "-", "--", "-n", "-e x",
          "$in", "$ ", "$:", "\\$", "'\\''", "\"$x\"", "$\\", "rsp", ",", "/", "./", "..", "0", "\\ ", "\x1b"]
FIXED = ["", " ", "'", '"', "$", "\\", "-c", "-f", "-a", "-e", "-R", "-h", "--help", "--", "*", "~", "#", "$in", "$out", "a'b", "a\"b", "a\\", "$'\\n'", "@", "=", "a=b", "\t", "é", "&",
         "|", "\\\\", "%%", "!", "x y", "$$", "`id`", "$(id)", ";id", "-", "@x", "x@", "@ INPUT @", "@@", ":", "a:b", "@INPUT", "\\@", "@FILE", "^", "\udcff\udcfe"]
WORDS = ["plain", "x1", "a-b", "A_B", "0"]


def arg(r, nl):
    k = r.randrange(10)
    if k < 3:
        return r.choice(FIXED)
    if k == 3:
        return r.choice(WORDS)
    if k == 4 and r.random() < .2:
        return r.choice("ab'$\\ ") * r.choice([1000, 4094, 4095, 4096, 4097, 9000])
    s = "".join(r.choice(PIECES) for _ in range(r.randrange(1, 6)))
    if nl and r.random() < .12:
        s = r.choice([s + "\n", "\n" + s, s + "\n" + r.choice(PIECES), "\n", "\n\n", "a\n  b"])
    return s


def clean(s):
    """no @...@ that could be a substitution"""
    return not re.search(r"@[A-Za-z_0-9 ]*@", s.replace("@@", "\1")) or "@ INPUT @" == s


def args(r, nl=True, n=None):
    out = []
    for _ in range(r.choice([0, 1, 2, 4, 7, 12]) if n is None else n):
        a = arg(r, nl)
        while not clean(a):
            a = arg(r, nl)
        out.append(a)
    return out


def mlist(a):
    return "[" + ", ".join(map(quote, a)) + "]"


WRAP = """#!/bin/sh
{ for a in "$@"; do printf 'A%s\\0' "$a"; done; printf 'END\\0'; } >> '@DIR@/cclog'
exec gcc "$@"
"""


def dumps(path):
    out, cur = {}, None
    if not os.path.exists(path):
        return out
    for l in read(path).decode().splitlines():
        k, _, v = l.partition(" ")
        if k == "RUN":
            cur = dict(A=[], V={})
            out.setdefault(v, []).append(cur)
        elif k == "A":
            cur["A"].append(bytes.fromhex(v).decode("utf-8", "surrogateescape"))
        elif k == "V":
            a, _, b = bytes.fromhex(v).decode("utf-8", "surrogateescape").partition("=")
            cur["V"][a] = b
    return out


class Project:
    def __init__(self, r):
        self.r = r
        self.files = {"in.txt": "x\n", "in2.txt": "y\n"}
        self.want = {}                 # id -> args
        self.env = {}                  # id -> variables
        self.runs = {}                 # id -> how many times
        self.targets = []              # run targets
        self.L = ["project('p')", "probe = find_program('probe')", "D = 'dump=' + meson.current_source_dir() / 'dump'"]
        self.tests = self.install = False
        for i in range(r.randrange(3, 9)):
            self.item("i%d" % i, r.choice(["run", "run", "ct", "ct", "ct", "ctmix", "rt", "gen", "test", "test", "install", "postconf", "alias"]))
        self.files["meson.build"] = "\n".join(self.L) + "\n"

    def pre(self, i):
        return "'id=%s', D, '--'" % i

    def envkw(self, i):
        r = self.r
        if r.random() < .6:
            return ""
        e = {}
        for k in r.sample(["K1", "K2", "lower", "X_Y"], r.randrange(1, 4)):
            e[k] = r.choice(FIXED + PIECES + ["l\nm", "a b"])
        self.env[i] = e
        return ", env: " + ("{%s}" % ", ".join("%s: %s" % (quote(k), quote(v)) for k, v in e.items()) if r.random() < .5 else
                            mlist([k + "=" + v for k, v in e.items()]))

    def item(self, i, kind):
        r, L = self.r, self.L
        a = args(r)
        while kind in ("ct", "ctmix", "rt", "gen", "alias") and any("\\@" in x for x in a):
            a = args(r)
        self.runs[i] = 1
        self.want[i] = ["--"] + a
        if kind == "run":
            L.append("run_command([probe, %s] + %s%s, check: true)" % (self.pre(i), mlist(a), self.envkw(i)))
        elif kind in ("ct", "ctmix"):
            kw = []
            if r.random() < .3:
                kw.append("capture: true")
                touch = ""
            else:
                touch = "'touch=@OUTPUT@', "
            if r.random() < .2:
                kw.append("console: true" if touch else "build_always_stale: true")
            env = self.envkw(i)
            more = []
            if kind == "ctmix":
                # substitutions among verbatim arguments
                more = ["@INPUT@", "@OUTPUT@", "@INPUT0@", "@PLAINNAME@", "@BASENAME@"]
                more = r.sample(more, r.randrange(1, 4))
                kw.append("input: 'in.txt'")
                a = a + more
                val = {"@INPUT@": ("in.txt",), "@INPUT0@": ("in.txt",), "@OUTPUT@": ("build/%s.out" % i,), "@PLAINNAME@": "in.txt", "@BASENAME@": "in"}
                self.want[i] = ["--"] + [val.get(x, x) for x in a]
            L.append("custom_target('%s', output: '%s.out', command: [probe, %s'id=%s', D, '--'] + %s%s%s, build_by_default: true)" % (
                i, i, touch, i, mlist(a), env, "".join(", " + k for k in kw)))
        elif kind == "rt":
            L.append("run_target('%s', command: [probe, %s] + %s%s)" % (i, self.pre(i), mlist(a), self.envkw(i)))
            self.targets.append(i)
        elif kind == "alias":
            L.append("alias_target('al_%s', run_target('%s', command: [probe, %s] + %s))" % (i, i, self.pre(i), mlist(a)))
            self.targets.append("al_" + i)
        elif kind == "gen":
            ex = args(r)
            while any("\\@" in x for x in ex):
                ex = args(r)
            pos = r.randrange(len(a) + 1)
            single = r.random() < .25
            L.append("g_%s = generator(probe, output: '@BASENAME@.%s', arguments: ['touch=@OUTPUT@', %s] + %s + ['@EXTRA_ARGS@'] + %s)" % (
                i, i, self.pre(i), mlist(a[:pos]), mlist(a[pos:])))
            L.append("custom_target('%s', output: '%s.gen', input: g_%s.process('in.txt'%s), command: [probe, 'touch=@OUTPUT@', '@INPUT@'], build_by_default: true)" % (
                i, i, i, (", extra_args: " + mlist(ex)) if ex or r.random() < .5 else ""))
            self.want[i] = ["--"] + a[:pos] + ex + a[pos:]
        elif kind == "test":
            L.append("test('%s', probe, args: [%s] + %s%s)" % (i, self.pre(i), mlist(a), self.envkw(i)))
            self.tests = True
        elif kind == "install":
            L.append("meson.add_install_script(probe, %s%s)" % (self.pre(i), "".join(", " + quote(x) for x in a)))
            self.install = True
        elif kind == "postconf":
            L.append("meson.add_postconf_script(probe, %s%s)" % (self.pre(i), "".join(", " + quote(x) for x in a)))


def prep(ck, files, prb):
    d = ck.tmp("p")
    for n, s in files.items():
        write(os.path.join(d, n), s.replace("@DIR@", d) if n == "wrap" else s)
    shutil.copy(prb, os.path.join(d, "probe"))
    os.chmod(os.path.join(d, "probe"), 0o755)
    if "wrap" in files:
        os.chmod(os.path.join(d, "wrap"), 0o755)
    subprocess.run(["chown", "-R", "65534:65534", d])
    return d


def steps(ck, d, muon, cmds, show, files, env=None):
    for c in cmds:
        res = run([muon] + c, cwd=d, user=65534, merge=True, timeout=90, env=env)
        if res.timeout:
            res = run([muon] + c, cwd=d, user=65534, merge=True, timeout=300, env=env)
        k = crashed(res)
        if k or res.timeout or res.rc != 0:
            ck.violation("%s:%s" % (c[2] if c[0] == "-C" else c[0], k or ("hang" if res.timeout else "failed")), "muon %s\n%s\n%s" % (c, res.text[-1500:], show), files)
            return False
    return True


def one(ck, i, muon, prb):
    p = Project(ck.rng("p", i))
    d = prep(ck, p.files, prb)
    cmds = [["setup", "build"], ["-C", "build", "samu"]]
    for t in p.targets:
        cmds.append(["-C", "build", "samu", t])
    if p.tests:
        cmds.append(["-C", "build", "test", "-R"])
    if p.install:
        cmds.append(["-C", "build", "install"])
    show = p.files["meson.build"]
    if steps(ck, d, muon, cmds, show, p.files, {"DESTDIR": os.path.join(d, "dest")}):
        got = dumps(os.path.join(d, "dump"))
        for k, w in p.want.items():
            g = got.get(k, [])
            ck.case(repr(w) + show[:40])
            line = next(l for l in p.L if "'id=%s'" % k in l)
            kind = line.split("(")[0].split("= ")[-1].strip()
            ck.count("processes")
            ck.count("arguments", len(w))
            if len(g) != 1 and not (g and "build_always_stale" in line):
                ck.violation("runs:" + kind, "started %d times\n%s" % (len(g), line), p.files)
                continue
            a = g[0]["A"]
            if len(a) == len(w):
                # a file is named by any path to it
                w = [y if isinstance(x, tuple) and os.path.normpath(os.path.join(d, "build", y)) == os.path.join(d, x[0]) else x for x, y in zip(w, a)]
            if a != w:
                at = next((j for j in range(min(len(a), len(w))) if a[j] != w[j]), min(len(a), len(w)))
                ck.violation("argv:" + kind, "%d arguments, %d declared; argument %d is %.200r, declared %.200r\n%s" % (
                    len(a), len(w), at, a[at] if at < len(a) else None, w[at] if at < len(w) else None, line[:1500]), p.files)
            for x, y in p.env.get(k, {}).items():
                ck.count("variables")
                if g[0]["V"].get(x) != y:
                    ck.violation("env:" + kind, "%s is %.200r, declared %.200r\n%s" % (x, g[0]["V"].get(x), y, line[:1500]), p.files)
    shutil.rmtree(d, ignore_errors=True)


def defs(r, tag, n=None):
    """unique -D arguments of any content"""
    out = []
    for j in range(r.choice([0, 1, 2, 3]) if n is None else n):
        v = "".join(r.choice(PIECES) for _ in range(r.randrange(0, 5))).replace("\r", "")
        out.append("-D%s%d=%s" % (tag, j, v))
    return out


SRC = ["main.c", "a b.c", "d$x.c", "q'q.c", "h#h.c", "c:c.c", "é.c", "x,y.c", "p(p).c", "s;s.c", "dir one/m.c", "e=e.c", "am&p.c", "st*r.c", "b\\b.c", 'dq".c', "per%c.c", "til~de.c"]


def compile_one(ck, i, muon, prb):
    r = ck.rng("cc", i)
    lists = {t: defs(r, t) for t in ("PA", "GA", "TA", "DA", "LA", "PL", "GL", "DL", "OA", "OL")}
    src = r.choice(SRC)
    kind = r.choice(["executable", "executable", "shared_library", "static_library"])
    L = ["project('p', 'c')"]
    if lists["GA"]:
        L.append("add_global_arguments(%s, language: 'c')" % mlist(lists["GA"]))
    if lists["PA"]:
        L.append("add_project_arguments(%s, language: 'c')" % mlist(lists["PA"]))
    if lists["GL"]:
        L.append("add_global_link_arguments(%s, language: 'c')" % mlist(lists["GL"]))
    if lists["PL"]:
        L.append("add_project_link_arguments(%s, language: 'c')" % mlist(lists["PL"]))
    L.append("dep = declare_dependency(compile_args: %s, link_args: %s)" % (mlist(lists["DA"]), mlist(lists["DL"])))
    L.append("%s('t', %s, c_args: %s, link_args: %s, dependencies: dep)" % (kind, quote(src), mlist(lists["TA"]), mlist(lists["LA"])))
    files = {"meson.build": "\n".join(L) + "\n", src: "int main(void) { return 0; }\n", "wrap": WRAP}
    d = prep(ck, files, prb)
    show = files["meson.build"]
    setup = ["setup"]
    # option arrays in the list notation, whose own quoting does not matter here
    for o, t in (("c_args", "OA"), ("c_link_args", "OL")):
        lists[t] = [x for x in lists[t] if not re.search(r"[\\',\[\]\r\n\t@]", x) and x.isprintable()]
        if lists[t]:
            setup.append("-D%s=[%s]" % (o, ",".join("'%s'" % x for x in lists[t])))
    if steps(ck, d, muon, [setup + ["build"], ["-C", "build", "samu"]], show, files, {"CC": os.path.join(d, "wrap")}):
        runs, cur = [], []
        for x in read(os.path.join(d, "cclog")).decode("utf-8", "surrogateescape").split("\0"):
            if x == "END":
                runs.append(cur)
                cur = []
            elif x:
                cur.append(x[1:])
        comp = [a for a in runs if any(x.endswith(os.path.basename(src)) and os.path.basename(x) == os.path.basename(src) for x in a) and "-c" in a]
        link = [a for a in runs if "-c" not in a and ("t" in a or any(os.path.basename(x).startswith("libt.") for x in a))]
        ck.case(show)
        ck.count("compilations", len(comp))

        def check(what, rs, tags):
            if len(rs) != 1:
                ck.violation("compiler-runs:" + what, "%d %s commands seen\n%s\n%s" % (len(rs), what, show, runs[-2:]), files)
                return
            a = rs[0]
            for t in tags:
                got = [x for x in a if re.match("-D%s\\d" % t, x)]
                ck.count("arguments", len(got))
                if got != lists[t]:
                    ck.violation("argv:%s:%s" % (what, t), "%s arguments %s reached the %s as %s\n%s\n%s" % (t, lists[t], what, got, a, show), files)
        check("compiler", comp, ["GA", "PA", "TA", "DA", "OA"])
        if kind != "static_library":
            check("linker", link, ["GL", "PL", "LA", "DL", "OL"])
    shutil.rmtree(d, ignore_errors=True)


def body(ck):
    ck.rule = "one case is the recorded argv and environ of one started process"
    muon, prb = build("asan"), probe()
    ck.map(lambda i: one(ck, i, muon, prb), range(ck.n(300, 4000)))
    ck.map(lambda i: compile_one(ck, i, muon, prb), range(ck.n(110, 1200)))
    ck.assumptions = ["NUL cannot be part of an argument", "newlines are supported in commands, tests and scripts, not in compiler arguments",
                      "\\@ stands for @ in the commands of targets (documented escape of templates), so it is not generated there",
                      "@INPUT@ and @OUTPUT@ may be any path to the right file"]
    ck.finish(min_evals=300)


if __name__ == "__main__":
    main("C11", body)
