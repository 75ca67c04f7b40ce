#!/usr/bin/env python3
"""C27: the meson-compatible command line means the same as the native one.

Two copies of a generated project live through the same history of commands, one driven by command
lines in the reference implementation's spelling, the other by their native translation (made here);
exit status, output, build directory and installed files must agree after every step."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import C09

# option of the reference implementation -> (muon option, values or None for a flag)
SETUP = {
    "prefix": ("prefix", ["/opt/x", "/usr", "/a b", "/a=b"]), "bindir": ("bindir", ["mybin", "bin/x"]), "datadir": ("datadir", ["sh"]),
    "includedir": ("includedir", ["inc"]), "infodir": ("infodir", ["inf"]), "libdir": ("libdir", ["lib64", "lib/x y"]), "libexecdir": ("libexecdir", ["lx"]),
    "localedir": ("localedir", ["loc"]), "localstatedir": ("localstatedir", ["/var/x", "v"]), "mandir": ("mandir", ["man"]), "sbindir": ("sbindir", ["sb"]),
    "sharedstatedir": ("sharedstatedir", ["ss"]), "sysconfdir": ("sysconfdir", ["/etc/x", "e", "x=y=z"]), "auto-features": ("auto_features", ["enabled", "disabled", "auto", "bad"]),
    "buildtype": ("buildtype", ["release", "debug", "plain", "debugoptimized", "minsize", "nosuch"]), "cmake-prefix-path": ("cmake_prefix_path", ["/x"]), "backend": ("backend", ["ninja"]),
    "debug": ("debug", None), "default-library": ("default_library", ["static", "both", "shared", "none"]), "force-fallback-for": ("force_fallback_for", ["a,b", "zlib"]),
    "install-umask": ("install_umask", ["022", "0077", "preserve"]), "layout": ("layout", ["mirror"]), "optimization": ("optimization", ["0", "2", "s", "9"]), "pkg-config-path": ("pkg_config_path", ["/pc", "/pc:/pd"]),
    "stdsplit": ("stdsplit", None), "strip": ("strip", None), "unity": ("unity", ["on", "off", "subprojects"]), "unity-size": ("unity_size", ["3", "7", "x"]), "warnlevel": ("warning_level", ["0", "3", "5"]),
    "werror": ("werror", None), "wrap-mode": ("wrap_mode", ["nodownload", "nofallback", "forcefallback"]),
}
IGNORED = {
    "setup": [("--reconfigure", 0), ("--vsenv", 0), ("--fatal-meson-warnings", 0), ("--errorlogs", 0), ("--pkgconfig.relocatable", 0), ("--cross-file", 1), ("--native-file", 1), ("--python.platlibdir", 1), ("--wipe", 0)],
    "test": [("-q", 0), ("--quiet", 0), ("-t", 1), ("--timeout-multiplier", 1), ("--print-errorlogs", 0), ("--logbase", 1), ("--no-stdsplit", 0), ("--repeat", 1), ("--wrapper", 1), ("--gdb-path", 1), ("--test-args", 1), ("--no-suite", 1)],
    "install": [("--no-rebuild", 0), ("--only-changed", 0), ("--quiet", 0), ("--tags", 1), ("--skip-subprojects", 1), ("--strip", 0)],
}
IGNORED["configure"] = IGNORED["setup"]
ARRAYS = ("a", "cmake_prefix_path", "force_fallback_for", "pkg_config_path_")
BUILTIN = sorted({o for o, _ in SETUP.values()})


def project(r):
    fs = {}
    L = ["project('cli'%s, version: '1', default_options: [%s])" % (", 'c'" if r.random() < .25 else "", ", ".join(r.sample(["'warning_level=2'", "'buildtype=debug'", "'libdir=lib'", "'s=fromproject'"], r.randrange(3))))]
    cc = "'c'" in L[0]
    fs["meson_options.txt"] = "option('s', type: 'string', value: 'dflt')\noption('b', type: 'boolean', value: false)\noption('f', type: 'feature')\noption('a', type: 'array', value: ['x'])\noption('c', type: 'combo', choices: ['one', 'two'])\noption('i', type: 'integer', min: 0, max: 9, value: 1)\n"
    L.append("conf = configuration_data()")
    for o in ["s", "b", "a", "c", "i"] + BUILTIN:
        if o == "auto_features":
            L.append("conf.set('af', get_option('f').enabled() ? 1 : get_option('f').auto() ? 2 : 3)")
        elif o in ARRAYS:
            L.append("conf.set('%s', '|'.join(get_option('%s')))" % (o, o))
        else:
            L.append("conf.set('%s', '@0@'.format(get_option('%s')))" % (o, o))
    L.append("configure_file(output: 'conf.h', configuration: conf, install: true, install_dir: get_option('datadir') / 'cli')")
    fs["run.sh"] = "#!/bin/sh\ncase $1 in fail) exit 1;; skip) exit 77;; env) test \"$E\" = set;; *) exit 0;; esac\n"
    fs["cp.sh"] = "#!/bin/sh\ncp \"$1\" \"$2\"\n"
    L += ["run = find_program('run.sh')", "cp = find_program('cp.sh')"]
    for i in range(r.randrange(2, 6)):
        kind = r.choice(["test", "test", "benchmark"])
        L.append("%s('t%d', run, args: ['%s'], suite: %s%s)" % (kind, i, r.choice(["ok", "ok", "fail", "skip", "env"]), r.choice(["'fast'", "['slow', 'fast']", "'slow'", "[]"]), r.choice(["", ", is_parallel: false", ", priority: 3"]) if kind == "test" else ""))
    L.append("add_test_setup('senv', env: {'E': 'set'})")
    if r.random() < .4:
        L.append("add_test_setup('excl', exclude_suites: 'slow')")
    fs["in.txt"] = "input\n"
    L.append("custom_target('ct', input: 'in.txt', output: 'ct.out', command: [cp, '@INPUT@', '@OUTPUT@'], install: true, install_dir: 'share', build_by_default: true)")
    L.append("install_data('in.txt', install_dir: get_option('datadir') / 'd')")
    L.append("install_headers('h.h', subdir: 'cli')")
    fs["h.h"] = "int x;\n"
    if cc:
        fs["m.c"] = "int main(void) { return 0; }\n"
        fs["l.c"] = "int l(void) { return 0; }\n"
        L.append("e = executable('e', 'm.c', install: true)\nlibrary('l', 'l.c', install: true)\ntest('e', e, suite: 'exe')")
    fs["meson.build"] = "\n".join(L) + "\n"
    return fs


class Hist:
    def __init__(self, ck, i):
        self.ck, self.i = ck, i
        self.r = ck.rng("hist", i)
        self.top = ck.tmp("h%d" % i)
        os.chmod(self.top, 0o777)
        self.fs = project(self.r)
        self.trace = []
        self.form = self.r.choice(["sub", "sub", "link", "path", "rel"])
        # each side has its turn at the same place
        self.w = self.top + "/w"
        self.store = {}
        for side in ("m", "n"):
            d = self.top + "/" + side
            for f, t in self.fs.items():
                write(d + "/p/" + f, t)
                os.chmod(d + "/p/" + f, 0o755)
            os.makedirs(d + "/else")
            for x, ds, fs in os.walk(d):
                os.chmod(x, 0o777)
                for f in fs:
                    os.utime(os.path.join(x, f), (1700000000, 1700000000))

    def bad(self, key, detail):
        files = {"p/" + f: t for f, t in self.fs.items()}
        files["trace.txt"] = "\n".join(self.trace) + "\n"
        self.ck.violation(key, "history %d: %s\n%s" % (self.i, detail, "\n".join(self.trace[-4:])), files)
        return False

    def go(self):
        try:
            self.work()
        finally:
            shutil.rmtree(self.top, ignore_errors=True)

    def on(self, side, argv, cwd, env=None):
        """run in the copy of this side"""
        os.rename(self.top + "/" + side, self.w)
        try:
            e = dict(BASE_ENV)
            e.update(env or {})
            e.pop("MESON", 0)
            e["PATH"] = self.ck.bin + ":" + e["PATH"]
            e["HOME"] = self.top
            res = run(argv, cwd=os.path.join(self.w, cwd), env=e, user=65534, timeout=120, merge=True)
        finally:
            os.rename(self.w, self.top + "/" + side)
        return res

    def norm(self, t):
        t = re.sub(r"(?m)^args: \[.*\]\n", "", t)
        t = t.replace(self.ck.link, "MUON").replace(self.ck.muon, "MUON").replace(self.top + "/w", "TOP").replace("TOP/else/../p", "TOP/p")
        t = t.replace(" meson internal ", " MUON internal ")
        t = re.sub(r"(TOP(/else|/p|/p/b)?/)?(\.\./){2,4}bin/meson", "MUON", t)
        t = re.sub(r"\d+\.\d+ ?s\b", "N s", t)
        ls = t.split("\n")
        # ninja orders independent steps as it likes
        own = [x for x in ls if not re.match(r"\[\d+/\d+\] ", x)]
        if self.form == "rel":  # the command lines change with the directory it is called from
            return "\n".join(own)
        return "\n".join(own + sorted(re.sub(r"^\[\d+/", "[", x) for x in ls if re.match(r"\[\d+/\d+\] ", x)))

    def regen(self, t):
        """build.ninja and what else names the program that is running"""
        w = (self.top + "/w").encode()
        t = t.replace(w + b"/else/../p", w + b"/p")
        t = re.sub(re.escape(w) + rb"(/else|/p|/p/b|/\.)?/(\.\./){2,4}bin/meson", b"MUON", t)
        return t.replace(self.ck.link.encode(), b"MUON").replace(self.ck.muon.encode(), b"MUON").replace(b" meson ", b" MUON ").replace(b" muon ", b" MUON ")

    def snap(self, side):
        out = {}
        root = self.top + "/" + side
        for d, ds, fs in os.walk(root):
            for f in fs + ds:
                p = os.path.join(d, f)
                n = os.path.relpath(p, root)
                if re.search(r"\.ninja_(log|deps)$|compiler_check|\.dat$", n):
                    out[n] = "exists"
                elif os.path.islink(p):
                    out[n] = os.readlink(p)
                elif os.path.isdir(p):
                    out[n] = "dir %o" % (os.stat(p).st_mode & 0o777)
                else:
                    b = read(p)
                    out[n] = (os.stat(p).st_mode & 0o777, self.regen(b) if re.search(r"\.(ninja|json|txt|meson)$|^[^.]*$", n) else b)
        return out

    # command lines
    def opts_setup(self, bad):
        r = self.r
        m, n = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if k < .6:
                o = r.choice(list(SETUP))
                mo, vals = SETUP[o]
                if vals is None:
                    m.append(["--" + o])
                    n.append("-D%s=true" % mo)
                else:
                    v = r.choice(vals)
                    if v in ("bad", "nosuch", "none", "9", "x", "5") and o in ("auto-features", "buildtype", "default-library", "optimization", "unity-size", "warnlevel"):
                        if not bad:
                            continue
                    m.append(r.choice([["--" + o, v], ["--%s=%s" % (o, v)]]))
                    n.append("-D%s=%s" % (mo, v))
            elif k < .9:
                o = r.choice(["s=v%d" % r.randrange(9), "s=a=b", "s=", "s=two words", "b=true", "f=enabled", "a=p,q", "a=['p', 'q']", "c=two", "i=7", "warning_level=1", "prefix=/q", "werror=true"] + (["c=three", "i=77", "nosuch=1"] if bad else []))
                m.append(r.choice([["-D" + o], ["-D", o]]))
                n.append("-D" + o)
        return m, n

    def ignored(self, sub, m):
        r = self.r
        while r.random() < .3:
            o, v = r.choice(IGNORED[sub])
            x = [o]
            if v:
                val = r.choice(["1", "slow", "x", "t0"])
                x = r.choice([[o, val], ["%s=%s" % (o, val)]]) if o.startswith("--") else r.choice([[o, val], [o + val]])
            m.insert(r.randrange(len(m) + 1), x)

    def line(self):
        """-> (meson words, native words, cwd)"""
        r = self.r
        k = r.random()
        flat = lambda g: [w for x in g for w in x]
        if k < .4 or not self.done:
            sub = r.choice(["setup", "setup", "configure"]) if self.done else "setup"
            m, n = self.opts_setup(r.random() < .2)
            strays, cwd, c = ["b"], "p", []
            q = r.random()
            if q < .3:
                cwd, strays, c = r.choice([(".", ["p/b", "p"], "p"), ("else", ["../p/b", "../p"], "../p"), ("else", [self.w + "/p/b", self.w + "/p"], self.w + "/p")])
                # the commands of the build spell its directory as it was given
                nat = ["-C", c, "setup"] + n + [self.w + "/else/../p/b" if strays[0].startswith("..") else self.w + "/p/b"]
            else:
                if q < .4:
                    strays = [self.w + "/p/b"]
                nat = ["setup"] + n + strays
            # positionals may be anywhere
            g = m
            for s in strays:
                g.append([s])
            if len(strays) == 1 and len(g) > 1 and r.random() < .4:
                g.insert(r.randrange(len(g)), g.pop())
            self.ignored(sub, g)
            return [sub] + flat(g), nat, cwd
        if k < .75:
            g, n = [], []
            bench = r.random() < .15
            if bench:
                g.append(["--benchmark"])
            for _ in range(r.choice([0, 1, 1, 2])):
                q = r.randrange(9)
                if q == 0:
                    g.append(["--list"])
                    n.append("-l")
                elif q < 3:
                    s = r.choice(["fast", "slow", "nosuch", "cli:fast", "cli"])
                    g.append(r.choice([["--suite", s], ["--suite=" + s]]))
                    n += ["-s", s]
                elif q == 3:
                    g.append(["--no-rebuild"])
                    n.append("-R")
                elif q == 4:
                    s = r.choice(["senv", "excl", "senv", "cli:senv"])
                    g.append(r.choice([["--setup", s], ["--setup=" + s]]))
                    n += ["-e", s]
                elif q == 5:
                    g.append(r.choice([["--maxfail", "1"], ["--maxfail=1"]]))
                    n += ["-f"]
                    g.append(["--num-processes", "1"])
                    n += ["-j", "1"]
                elif q == 6:
                    g.append(["-v"])
                    n.append("-v")
                elif q == 7:
                    g.append(r.choice([["--num-processes", "3"], ["--num-processes=3"]]))
                    n += ["-j", "3"]
            names = r.sample(["t0", "t1", "t2", "e", "nosuch"], r.choice([0, 0, 0, 1, 2]))
            # the results come in the order in which tests finish
            if "-j" not in n and "-l" not in n:
                g.append(["--num-processes", "1"])
                n += ["-j", "1"]
            c, cwd = r.choice([(["-C", "b"], "p"), (["-Cp/b"], "."), (None, "p/b"), (["-C", self.w + "/p/b"], "else")])
            if c:
                g.insert(r.randrange(len(g) + 1), c)
            for x in names:
                g.append([x])
            self.ignored("test", g)
            nat = (["-C", re.sub("^-C", "", c[-1])] if c else []) + ["benchmark" if bench else "test", "-v"] + n + names
            return ["test"] + flat(g), nat, cwd
        g, n = [], []
        if r.random() < .3:
            g.append([r.choice(["-n", "--dryrun"])])
            n.append("-n")
        if r.random() < .8:
            d = r.choice([self.w + "/dest", "rel", self.w + "/de st", self.w + "/de=st"])
            g.append(r.choice([["--destdir", d], ["--destdir=" + d]]))
            n += ["-d", d]
            self.dest = True
        else:
            self.destenv = True
        c, cwd = r.choice([(["-C", "b"], "p"), (["-Cp/b"], "."), (None, "p/b"), (["-C", self.w + "/p/b"], "else")])
        if c:
            g.insert(r.randrange(len(g) + 1), c)
        self.ignored("install", g)
        return ["install"] + flat(g), (["-C", re.sub("^-C", "", c[-1])] if c else []) + ["install"] + n, cwd

    def front(self, cwd):
        if self.form == "sub":
            return [self.ck.muon, "meson"]
        if self.form == "path":
            return ["meson"]
        return [self.ck.link]

    def refuse(self):
        """command lines that are no such thing: refused, without effect"""
        r = self.r
        ok = r.choice([["setup", "b2"], ["test", "-C", "b"], ["install", "-C", "b", "--destdir", self.w + "/d2"], ["configure", "b"]])
        k = r.randrange(8)
        if k == 7:
            a = r.choice([["setup", "b", ".", "b2"], ["setup", "--werror", "b", "--prefix=/x", ".", "."], ["configure", "b", ".", "x"], ["setup"], ["setup", "--werror"], ["install", "-C", "b", "x"], ["install", "-C", "nosuch"], ["test", "-C", "nosuch"], ["setup", "b2", "nosuch"]])
        elif k == 0:
            a = ok + [r.choice(["--nosuch", "--nosuch=1", "-x", "-Z1", "--prefixx", "--", "--suit", "--prefi=/x", "-W"])]
        elif k == 1:
            a = [r.choice(["nosuch", "compil", "", "Setup", "setupx", "tes"])] + ok[1:]
        elif k == 2:
            a = ok + [{"setup": r.choice(["--prefix", "-D", "--buildtype", "--cross-file"]), "configure": r.choice(["--libdir", "-D"]), "test": r.choice(["--suite", "-C", "--maxfail", "-t"]), "install": r.choice(["--destdir", "-C", "--tags"])}[ok[0]]]
        elif k == 3:
            # a flag takes no value
            a = ok + [{"setup": r.choice(["--werror=false", "--debug=false", "--strip=0", "--stdsplit=no"]), "configure": "--werror=false", "test": r.choice(["--no-rebuild=no", "--list=x", "--benchmark=0", "-vx"]), "install": r.choice(["--dryrun=false", "-nx"])}[ok[0]]]
        elif k == 4:
            a = ["test", "-C", "b", "--maxfail", r.choice(["2", "0", "x", "10"])]
        elif k == 5:
            a = ["setup", "b2", "-D" + r.choice(["nosuch=1", "werror=maybe", "c=three"])]
        else:
            a = ["install", "-C", "b", "--destdir", self.w + "/d2"] + ["--nosuch"]
        before = self.snap("m")
        argv = self.front("p") + a
        self.trace.append("refuse: cd w/p; " + " ".join(map(quote, argv)))
        res = self.on("m", argv, "p")
        if res.timeout:
            self.ck.give_up("too long")
            return False
        if crashed(res):
            return self.bad("crash", "%s: rc=%s %s" % (a, res.rc, res.text[-500:]))
        if res.rc == 0:
            return self.bad("accepted", "'meson %s' is not refused: %s" % (" ".join(a), res.text[-300:]))
        after = self.snap("m")
        for d in (before, after):
            for x in list(d):
                if k == 5 and x.startswith("p/b2"):
                    del d[x]
        if before != after:
            return self.bad("effect", "'meson %s' is refused but changes %s" % (" ".join(a), sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))[:5]))
        if k == 5:
            shutil.rmtree(self.top + "/m/p/b2", ignore_errors=True)
        self.ck.count("refused")
        self.ck.case("refuse %s %s" % (self.form, a), 1, "refused: meson " + " ".join(a))
        return True

    def step(self):
        ck, r = self.ck, self.r
        m, n, cwd = self.line()
        env = {}
        if m[0] == "install" and not any(x.startswith("--destdir") for x in m):
            env["DESTDIR"] = self.w + "/envdest"
        argv = {"m": self.front(cwd) + m, "n": [ck.muon] + n}
        if m[0] != "setup" and r.random() < .4:
            # something to rebuild
            for s in ("m", "n"):
                write(self.top + "/%s/p/in.txt" % s, "input %d\n" % len(self.trace))
            self.trace.append("in.txt changes")
        if self.form == "rel":
            argv["m"][0] = os.path.relpath(ck.link, os.path.join(self.w, cwd))
        self.trace += ["cd w/%s; %s" % (cwd, " ".join(map(quote, argv["m"]))), "   native: " + " ".join(map(quote, argv["n"]))]
        res = {}
        for s in ("m", "n"):
            res[s] = self.on(s, argv[s], cwd, env)
            if res[s].timeout:
                ck.give_up("too long")
                return False
            if crashed(res[s]):
                return self.bad("crash", "%s: rc=%s %s" % (argv[s], res[s].rc, res[s].text[-500:]))
        what = "meson " + " ".join(m)
        if res["m"].rc != res["n"].rc:
            return self.bad("status", "'%s' exits with %s, its native form with %s\n%s\n%s" % (what, res["m"].rc, res["n"].rc, res["m"].text[-400:], res["n"].text[-400:]))
        a, b = self.norm(res["m"].text), self.norm(res["n"].text)
        if "-j" in n and n[n.index("-j") + 1] != "1":
            a, b = sorted(a.split("\n")), sorted(b.split("\n"))
            a = [x for x in a if not re.search(r"\d/|%|\[", x)]
            b = [x for x in b if not re.search(r"\d/|%|\[", x)]
        if a != b:
            return self.bad("output", "'%s' says\n%s\nits native form\n%s" % (what, a if isinstance(a, str) else "\n".join(a), b if isinstance(b, str) else "\n".join(b)))
        x, y = self.snap("m"), self.snap("n")
        for f in sorted(set(x) | set(y)):
            if x.get(f) != y.get(f):
                return self.bad("files", "after '%s' and its native form %s differs:\n%s\n%s" % (what, f, str(x.get(f))[-600:], str(y.get(f))[-600:]))
        if m[0] in ("setup", "configure") and res["n"].rc == 0:
            self.done = True
        ck.count("steps_" + m[0] + ("" if res["n"].rc == 0 else "_failing"))
        if os.environ.get("C27_SHOW") and res["n"].rc:
            print(" ".join(n), "->", res["n"].text[-150:])
        ck.case("%s %s" % (self.form, what), 1, what)
        return True

    def rebuild(self):
        """the build files written by either spelling update themselves"""
        res = {}
        for s in ("m", "n"):
            os.utime(self.top + "/%s/p/meson.build" % s)
            res[s] = self.on(s, ["ninja", "-C", "b"], "p")
            if res[s].timeout:
                self.ck.give_up("too long")
                return False
        self.trace.append("touch meson.build; ninja -C b")
        if res["m"].rc != res["n"].rc:
            return self.bad("regenerate", "ninja in the directory set up by meson: rc %s, by muon: rc %s\n%s" % (res["m"].rc, res["n"].rc, res["m"].text[-600:]))
        x, y = self.snap("m"), self.snap("n")
        d = [f for f in set(x) | set(y) if x.get(f) != y.get(f)]
        if d:
            return self.bad("regenerated", "after regeneration %s differs" % sorted(d)[:4])
        self.ck.count("rebuilt")
        return True

    def work(self):
        self.done = False
        for k in range(self.r.choice([3, 5, 8])):
            if self.done and self.r.random() < .25:
                if not self.refuse():
                    return
                continue
            if self.done and (self.r.random() < .2 or k == 1):
                if not self.rebuild():
                    return
                continue
            if not self.step():
                return
        if self.done:
            self.rebuild()


def fixed(ck):
    """help, version, no arguments"""
    d = ck.tmp("fixed")
    os.chmod(d, 0o777)
    v = run([ck.muon, "version"], cwd=d, merge=True).text
    compat = re.search(r"compatibility version (\S+)", v).group(1)
    for front in ([ck.muon, "meson"], [ck.link]):
        def go(*a):
            res = run(front + list(a), cwd=d, user=65534, merge=True)
            if crashed(res) or res.timeout:
                ck.violation("crash:fixed", "%s: rc=%s %s" % (front + list(a), res.rc, res.text[-400:]))
            if os.listdir(d):
                ck.violation("fixed:effect", "%s leaves %s" % (list(a), os.listdir(d)))
            ck.case("fixed %s" % (front[1:] + list(a)), 1, "meson " + " ".join(a))
            return res
        for o in ("-v", "--version"):
            res = go(o)
            if res.rc or res.text.strip() != compat:
                ck.violation("version", "meson %s prints %r, expected %r" % (o, res.text, compat))
        res = go()
        if res.rc == 0:
            ck.violation("noargs", "meson without arguments exits with 0")
        for s in ("setup", "configure", "test", "install"):
            for o in ("-h", "--help"):
                res = go(s, o)
                if res.rc or s not in res.text:
                    ck.violation("help", "meson %s %s: rc=%s %s" % (s, o, res.rc, res.text[-300:]))
            # what the help lists as meaning an option of muon has to be one
            for name, opt in re.findall(r"--?(\S+)(?: <value>)? - -D([\w.]+)=", res.text):
                p = ck.tmp("help")
                write(p + "/meson.build", "project('x')\n")
                if opt in ("prefer_static",):
                    continue
                val = {"auto_features": "enabled", "backend": "ninja", "buildtype": "debug", "default_library": "static", "layout": "mirror", "optimization": "1", "unity": "off", "unity_size": "4",
                       "warning_level": "1", "wrap_mode": "nofallback", "debug": "true", "stdsplit": "true", "strip": "true", "werror": "true"}.get(opt, "/x")
                q = run([ck.muon, "setup", "-D%s=%s" % (opt, val), "b"], cwd=p, merge=True)
                if q.rc:
                    ck.violation("help:" + name, "--%s is said to mean -D%s, which is no option: %s" % (name, opt, q.text[-200:]))
                ck.case("help %s %s" % (s, name), 1, name)
                shutil.rmtree(p)


def body(ck):
    ck.rule = "a command line in the reference spelling, run next to its native translation in a history, or one that must be refused; distinct by its words"
    ck.assumptions += ["options that the help marks with '*' are documented to be ignored", "swapped source and build directories and 'configure' outside the source directory are left open", "meson test implies one -v of the native test"]
    ck.muon = build("asan")
    ck.bin = os.path.join(ck.scratch, "bin")
    os.makedirs(ck.bin, exist_ok=True)
    ck.link = os.path.join(ck.bin, "meson")
    os.symlink(ck.muon, ck.link)
    os.chmod(ck.bin, 0o755)
    fixed(ck)
    ck.map(lambda i: Hist(ck, i).go(), range(ck.n(240, 4000)))
    ck.finish(min_evals=300)


if __name__ == "__main__":
    main("C27", body)
