#!/usr/bin/env python3
"""C23: dependency() against a model of the lookup rules over generated worlds of
.pc files, overrides, subprojects and wraps; pkgconfig.generate() read back by pkg-config."""
import os, re, shlex, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import build, crashed, main, run, write, read, quote
from manifest import Manifest

NAMES = ["pk0", "pk1", "pk2", "pk3", "pk4", "nm0", "nm1", "nm2", "prov0", "prov1", "s0", "s1", "s2", "s3", "none0"]
OPS = {">=": lambda a, b: a >= b, ">": lambda a, b: a > b, "==": lambda a, b: a == b, "=": lambda a, b: a == b,
       "": lambda a, b: a == b, "!=": lambda a, b: a != b, "<=": lambda a, b: a <= b, "<": lambda a, b: a < b}


def tup(v):
    return tuple(int(x) for x in v.split("."))


def vmatch(v, cons):
    if not cons:
        return True
    if v is None:
        return False
    return all(OPS[op](tup(v), tup(w)) for op, w in cons)


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def lst(l):
    return "[" + ", ".join(q(x) for x in l) + "]"


class Skip(Exception):
    """a situation the rules leave open"""


class Dep:
    def __init__(self, kind, version=None, found=True, **kw):
        self.kind, self.version, self.found, self.vars = kind, version, found, {}
        self.cflags, self.inc, self.ldargs, self.pk = [], [], [], None
        self.__dict__.update(kw)


class World:
    def __init__(self, ck, r, d):
        self.ck, self.r, self.d = ck, r, d
        self.n = 0
        self.files, self.dirs = {}, set()
        self.packages()
        self.subs = {}
        self.provides = {}
        for k in range(4):
            self.subproject("s%d" % k)
        self.mode = r.choice(["nopromote", "nopromote", "nofallback", "nofallback", "forcefallback", "nodownload"])
        self.fff = r.sample(NAMES, r.choice([0, 0, 1, 2]))
        self.overrides, self.cache, self.configured = {}, {}, set()
        self.lines, self.expect = [], []

    # ---- installed packages
    def packages(self):
        r, d = self.r, self.d
        self.pk = {}
        for k in range(5):
            if r.random() < 0.15:
                continue
            L = "%s/lib%d" % (d, k)
            ver = "%d.%d" % (r.randint(1, 4), r.randint(0, 12))
            cf = r.sample(["-I%s/inc%d" % (d, k), "-I%s/incb%d" % (d, k), "-DPK%d=1" % k, "-DPK%dB" % k, "-pthread", "-isystem %s/sys%d" % (d, k),
                           "-include %s/h%d.h" % (d, k), "-std=c99", "-Wno-unused", "-UPKU%d" % k, "-fno-common", "-idirafter %s/after%d" % (d, k)], r.randint(0, 5))
            libs, lp = [], []
            for n in range(r.randint(0, 3)):
                name = "x%d%d" % (k, n)
                kind = r.choice(["a", "so", "both", "missing"])
                sub = r.choice([L, L + "b"])
                if kind in ("a", "both"):
                    self.files["%s/lib%s.a" % (sub, name)] = ""
                if kind in ("so", "both"):
                    self.files["%s/lib%s.so" % (sub, name)] = ""
                r.choice([libs, libs, lp]).append("-l" + name)
            libs += r.sample(["-lm", "-Wl,-z,now", "-pthread", "-u sym%d" % k, "-Wl,-rpath,/opt/pk%d" % k, "-Wl,--as-needed", "%s/full%d.a" % (d, k), "-framework Fw%d" % k], r.choice([0, 0, 1, 2]))
            if any("full%d.a" % k in x for x in libs):
                self.files["%s/full%d.a" % (d, k)] = ""
            lp += r.sample(["-ldl", "-lprivm%d" % k], r.choice([0, 0, 1]))
            dirs = ["-L" + L, "-L" + L + "b"]
            if r.random() < 0.7:
                libs = dirs + libs
            else:
                r.shuffle(libs)
                libs = libs + dirs
            req, reqp = [], []
            have = list(self.pk)
            for n in have:
                if r.random() < 0.25:
                    c = r.choice(["", "", " >= 1.0", " >= 9.0", " < 3.0", " = " + self.pk[n]["version"]])
                    r.choice([req, req, reqp] if "9" not in c and "<" not in c else [req]).append(n + c)
            if r.random() < 0.07:
                req.append("notinstalled")
            name = "pk%d" % k
            vs = {"v": "pk%d value" % k, "w": "${prefix}/w%d" % k, "empty": ""}
            text = "prefix=%s\n" % d + "".join("%s=%s\n" % x for x in vs.items() if r.random() < 0.7)
            text += "Name: n\nDescription: d\nVersion: %s\nLibs: %s\n" % (ver, " ".join(libs))
            for key, val in [("Libs.private", lp), ("Cflags", cf)]:
                if val:
                    text += "%s: %s\n" % (key, " ".join(val))
            for key, val in [("Requires", req), ("Requires.private", reqp)]:
                if val:
                    text += "%s: %s\n" % (key, ", ".join(val))
            self.pk[name] = dict(version=ver, text=text)
            self.files["%s/pc/%s.pc" % (d, name)] = text

    def install(self):
        for f, t in self.files.items():
            os.makedirs(os.path.dirname(f), exist_ok=True)
            write(f, t)
        os.makedirs(self.d + "/pc", exist_ok=True)

    def pkgc(self, *args):
        p = subprocess.run(["pkg-config", *args], env={"PATH": os.environ["PATH"], "PKG_CONFIG_PATH": self.d + "/pc"}, capture_output=True, text=True)
        self.ck.count("pkg_config_queries")
        return p.stdout.rstrip("\n") if p.returncode == 0 else None

    def package(self, name, static):
        if name not in self.pk:
            return None
        p = self.pk[name]
        if "flags" not in p:
            p["flags"] = {"c": self.pkgc("--cflags", name), False: self.pkgc("--libs", name), True: self.pkgc("--libs", "--static", name)}
        f = p["flags"]
        if f["c"] is None or f[static] is None:
            return None
        key = ("dep", static)
        if key not in p:
            vs = {v: self.pkgc("--variable=" + v, name) for v in ("v", "w", "empty")}
            vs = {v: t for v, t in vs.items() if re.search(r"(?m)^%s=" % v, p["text"])}
            p[key] = Dep("pkgconfig", p["version"], pk=name, static=static, vars=vs)
        return p[key]

    # ---- subprojects
    def declared(self, tag, version):
        """(Dep, meson expression)"""
        r = self.r
        dep = Dep("internal", version)
        kw = []
        dep.cflags = ["-DTAG_%s=1" % tag]
        kw.append("compile_args: " + lst(dep.cflags))
        if version:
            kw.append("version: " + q(version))
        if r.random() < 0.4:
            dep.inc = ["inc_" + tag]
            kw.append("include_directories: 'inc_%s'" % tag)
            self.dirs.add("inc_" + tag)
        if r.random() < 0.3:
            dep.ldargs = ["-Wl,--defsym=%s=1" % tag]
            kw.append("link_args: " + lst(dep.ldargs))
        if r.random() < 0.5:
            dep.vars = {"v": "internal " + tag}
            kw.append("variables: {'v': %s}" % q(dep.vars["v"]))
        return dep, "declare_dependency(%s)" % ", ".join(kw)

    def subproject(self, s):
        r = self.r
        kind = r.choice(["ok", "ok", "ok", "ok", "fail", "missing"])
        sub = self.subs[s] = dict(kind=kind, version=r.choice([None, "1.0", "2.5", "7.1"]), vars={}, over={})
        if kind == "missing":
            return
        body = ["project(%s%s)" % (q(s), ", version: " + q(sub["version"]) if sub["version"] else "")]
        if kind == "fail":
            body.append(r.choice(["error('stop')", "dependency('notinstalled')", "x = [1, 2][5]", "subdir('nosuchdir')"]))
        else:
            ver = r.choice([None, "0.5", "3.3", "12.0"])
            save, self.dirs = self.dirs, set()
            dep, text = self.declared(s, ver)
            for x in self.dirs:
                self.files["%s/src/subprojects/%s/%s/keep" % (self.d, s, x)] = ""
            self.dirs = save
            dep.inc = ["subprojects/%s/%s" % (s, x) for x in dep.inc]
            if dep.version is None:
                dep.version = sub["version"]
            body.append("d = " + text)
            sub["vars"]["d"] = dep
            if r.random() < 0.3:
                body.append("nf = dependency('', required: false)")
                sub["vars"]["nf"] = Dep("not-found", None, False)
            body.append("notdep = 'str'")
            for n in r.sample(["nm0", "nm1", "nm2", "prov0", "pk3", s], r.choice([0, 1, 1, 2])):
                body.append("meson.override_dependency(%s, d)" % q(n))
                sub["over"][n] = dep
        self.files["%s/src/subprojects/%s/meson.build" % (self.d, s)] = "\n".join(body) + "\n"
        if r.random() < 0.45:
            prov = []
            for n in ("prov0", "prov1", "pk4", "nm0"):
                if n in self.provides or r.random() < 0.6:
                    continue
                if n in sub["over"] and r.random() < 0.6:
                    self.provides[n] = (s, None)
                    prov.append("dependency_names = " + n)
                    break
                var = r.choice(["d", "d", "d", "nosuchvar"])
                self.provides[n] = (s, var)
                prov.append("%s = %s" % (n, var))
                break
            self.files["%s/src/subprojects/%s.wrap" % (self.d, s)] = "[wrap-file]\ndirectory = %s\n%s" % (s, "[provide]\n%s\n" % "\n".join(prov) if prov else "")

    def configure(self, s):
        if s in self.configured:
            return True
        sub = self.subs.get(s)
        if not sub or sub["kind"] != "ok":
            return False
        for n in sub["over"]:
            if n in self.overrides or any(k[1] == n for k in self.cache):
                raise Skip
        self.configured.add(s)
        self.overrides.update(sub["over"])
        return True

    # ---- the rules
    def from_sub(self, s, var, names, cons):
        if not self.configure(s):
            return None
        sub = self.subs[s]
        over = [n for n in names if n in self.overrides]
        v = sub["vars"].get(var) if var else None
        if over:
            dep = self.overrides[over[0]]
            if var and dep is not v:
                raise Skip
        else:
            dep = v
        if dep is None or not dep.found or not vmatch(dep.version, cons):
            return None
        return dep

    def lookup(self, c):
        names, cons, static = c["names"], c["cons"], c["static"]
        if c["required"] == "disabled":
            return None
        required = c["required"] == "true"
        cand = [self.cache[static, n] for n in names if (static, n) in self.cache]
        over = [self.overrides[n] for n in names if n in self.overrides]
        if static is not None and over:
            raise Skip
        if cand or over:
            if len(set(map(id, cand + over))) > 1:
                raise Skip
            dep = (cand + over)[0]
            dep = dep if dep.found and vmatch(dep.version, cons) else None
        else:
            dep = self.candidates(c, names, cons, static, required)
        if dep:
            for n in names:
                self.cache.setdefault((static, n), dep)
        return dep

    def candidates(self, c, names, cons, static, required):
        allow = c["allow"]
        sp = var = None
        forced = self.mode == "forcefallback" or any(n in self.fff for n in names)
        if c["fallback"] == []:
            allow = False
        elif c["fallback"]:
            sp, var = (c["fallback"] + [None])[:2]
            forced |= sp in self.fff
        if sp is None and allow is not False:
            for k, n in enumerate(names):
                p = self.provides.get(n)
                if p is None and self.subs.get(n, {"kind": "missing"})["kind"] != "missing":
                    p = (n, None)
                if p:
                    if len(names) > 1:
                        raise Skip      # which name's provider counts is left open
                    forced |= p[0] in self.fff
                    if forced or allow or required or p[0] in self.configured:
                        sp, var = p
        if static is not None and sp:
            raise Skip
        if len(names) > 1 and sp and any(n in self.fff for n in names) and not all(n in self.fff for n in names):
            raise Skip      # whether forcing one name forces the others is left open
        if sp and sp in self.configured:
            return self.from_sub(sp, var, names, cons)
        if not (forced and sp):
            for n in names:
                dep = self.package(n, bool(static))
                if dep and vmatch(dep.version, cons):
                    return dep
        if sp and self.mode != "nofallback":
            return self.from_sub(sp, var, names, cons)
        return None

    # ---- calls
    def cons(self):
        r = self.r
        return [(r.choice(list(OPS)), "%d.%d" % (r.randint(0, 5), r.randint(0, 12))) if r.random() < 0.4 else (r.choice([">=", "<", ">=", "!="]), r.choice(["0.1", "2.0", "3.0", "9.0"]))
                for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]

    def gen(self, last):
        r = self.r
        c = dict(names=r.sample(NAMES, r.choice([1, 1, 1, 2, 3])), cons=self.cons(), fallback=None, allow=None, static=None, disabler=None)
        c["required"] = r.choice(["true", "false", "false", "auto", "disabled", "enabled", None])
        if last and r.random() < 0.6:
            # the only place where a call may fail
            c["required"] = r.choice(["true", "enabled", None])
            if r.random() < 0.5:
                c["names"] = [r.choice(["s0", "s1", "s2", "s3", "nm0", "none0"])]
        if r.random() < 0.35:
            s = r.choice(list(self.subs))
            c["fallback"] = r.choice([[s], [s, "d"], [s, "d"], [s, "nosuchvar"], [s, "nf"], []])
        elif r.random() < 0.3:
            c["allow"] = r.random() < 0.5
        if r.random() < 0.15:
            c["static"] = r.random() < 0.6
        if r.random() < 0.15:
            c["disabler"] = True
        c["inc"] = r.choice([None, None, None, "system", "non-system", "preserve"])
        c["msg"] = r.random() < 0.15
        return c

    def call(self, c):
        i = self.n
        r = self.r
        kw = []
        req = c["required"]
        if req in ("true", "false"):
            kw.append("required: " + req)
        elif req:
            kw.append("required: get_option('f_%s')" % req)
        if c["cons"]:
            kw.append("version: " + lst([o + r.choice(["", " "]) * bool(o) + v for o, v in c["cons"]]))
        elif r.random() < 0.05:
            kw.append("version: []")
        if c["fallback"] is not None:
            kw.append("fallback: " + (q(c["fallback"][0]) if len(c["fallback"]) == 1 and r.random() < 0.5 else lst(c["fallback"])))
        if c["allow"] is not None:
            kw.append("allow_fallback: " + str(c["allow"]).lower())
        if c["static"] is not None:
            kw.append("static: " + str(c["static"]).lower())
        if c["disabler"]:
            kw.append("disabler: true")
        if c["inc"]:
            kw.append("include_type: " + q(c["inc"]))
        if c["msg"]:
            kw.append("not_found_message: 'NFM%d'" % i)
        r.shuffle(kw)
        self.lines.append("r%d = dependency(%s)" % (i, ", ".join([q(x) for x in c["names"]] + kw)))

    def report(self, i, found, define):
        L = self.lines
        L.append("if is_disabler(r%d)\n  message('R%d|disabler')\nelse" % (i, i))
        L.append("  message('R%d|' + r%d.found().to_string() + '|' + r%d.version() + '|' + r%d.type_name() + '|' + r%d.include_type() + '|')" % (i, i, i, i, i))
        if found:
            for v in ("v", "w", "empty", "nosuch"):
                L.append("  message('V%d|%s|' + r%d.get_variable(pkgconfig: '%s', internal: '%s', default_value: 'DEFAULT') + '|')" % (i, v, i, v, v))
            if define:
                L.append("  message('V%d|define|' + r%d.get_variable(pkgconfig: 'w', pkgconfig_define: ['prefix', '/defined'], default_value: 'DEFAULT') + '|')" % (i, i))
        L.append("endif")
        if found:
            L.append("executable('e%d', 'm.c', dependencies: r%d)" % (i, i))

    def build(self):
        """emit a random history with what the rules say of each step"""
        r = self.r
        total = r.randint(4, 12)
        self.fails = False
        tries = 0
        while self.n < total and tries < 60:
            tries += 1
            save = dict(self.overrides), dict(self.cache), set(self.configured)
            what = r.random()
            try:
                if what < 0.1:
                    n = r.choice(["nm0", "nm1", "nm2", "pk2", "none0"])
                    if n in self.overrides or any(k[1] == n for k in self.cache):
                        raise Skip
                    if r.random() < 0.15:
                        dep, text = Dep("not-found", None, False), "dependency('', required: false)"
                    else:
                        dep, text = self.declared("o%d" % self.n, r.choice(["0.9", "2.2", "3.3"]))
                    self.overrides[n] = dep
                    self.lines.append("meson.override_dependency(%s, %s)" % (q(n), text))
                    continue
                if what < 0.18:
                    s = r.choice(list(self.subs))
                    cons = self.cons()
                    req = r.random() < 0.3
                    sub = self.subs[s]
                    ok = sub["kind"] == "ok" and vmatch(sub["version"], cons)
                    if sub["kind"] == "ok" and sub["version"] is None and cons:
                        raise Skip
                    if sub["kind"] == "ok" and not ok and s not in self.configured and sub["over"]:
                        raise Skip
                    if ok:
                        self.configure(s)
                    elif req and self.n < total - 1:
                        raise Skip
                    i = self.n
                    self.n += 1
                    self.lines.append("p%d = subproject(%s, required: %s%s)" % (i, q(s), str(req).lower(), ", version: " + lst([o + v for o, v in cons]) if cons else ""))
                    if not ok and req:
                        self.fails = True
                        break
                    self.lines.append("message('P%d|' + p%d.found().to_string() + '|')" % (i, i))
                    self.expect.append(("P", i, ok, None))
                    continue
                c = self.gen(self.n == total - 1)
                if c["required"] in (None, "enabled"):
                    eff = dict(c, required="true")
                elif c["required"] == "auto":
                    eff = dict(c, required="false")
                else:
                    eff = c
                dep = self.lookup(eff)
                hard = dep is None and eff["required"] == "true"
                if hard and self.n < total - 1:
                    raise Skip
            except Skip:
                self.overrides, self.cache, self.configured = save
                continue
            i = self.n
            self.call(c)
            self.n += 1
            if hard:
                self.fails = True
                break
            define = dep is not None and dep.kind == "pkgconfig" and r.random() < 0.2
            self.report(i, dep is not None, define)
            self.expect.append(("R", i, dep, dict(c, define=define)))


def norm_compile(args, b):
    """tokens with paths made absolute and two-word options joined"""
    out, i = [], 0
    a = lambda p: os.path.normpath(os.path.join(b, p))
    while i < len(args):
        t = args[i]
        if t in ("-I", "-isystem", "-idirafter", "-include") and i + 1 < len(args):
            out.append((t, a(args[i + 1])))
            i += 1
        elif t.startswith("-I"):
            out.append(("-I", a(t[2:])))
        elif t.startswith("-isystem"):
            out.append(("-isystem", a(t[8:])))
        else:
            out.append((t,))
        i += 1
    return out


def norm_link(args, b, dirs=(), static=False):
    out, i = [], 0
    while i < len(args):
        t = args[i]
        nxt = args[i + 1] if i + 1 < len(args) else ""
        i += 1
        if t in ("-l", "-L"):
            t += nxt
            i += 1
        if t in ("-u", "-framework"):
            out.append((t, nxt))
            i += 1
            continue
        if t.startswith("-L") or t in ("-Wl,--start-group", "-Wl,--end-group"):
            continue
        if t.startswith("-l"):
            for d in dirs:
                c = ["%s/lib%s%s" % (d, t[2:], e) for e in ((".a", ".so") if static else (".so", ".a"))]
                c = [x for x in c if os.path.exists(x)]
                if c:
                    t = c[0]
                    break
        if not t.startswith("-"):
            t = os.path.normpath(os.path.join(b, t))
        out.append((t,))
    return out


def minus(l, base):
    l = list(l)
    for x in base:
        if x in l:
            l.remove(x)
    return l


def uniq(l):
    return list(dict.fromkeys(l))


class Case:
    def __init__(self, ck, i):
        self.ck, self.i, self.r = ck, i, ck.rng("world", i)
        self.d = ck.tmp("w%d_" % i)
        self.w = World(ck, self.r, self.d)

    def bad(self, key, text):
        files = {os.path.relpath(f, self.d): t for f, t in self.w.files.items()}
        files["output.txt"] = self.out
        self.ck.violation(key, text, files)

    def go(self):
        w, ck = self.w, self.ck
        for k in range(5):
            for f in ("inc%d", "incb%d", "sys%d", "after%d"):
                w.files["%s/%s/keep" % (self.d, f % k)] = ""
            w.files["%s/h%d.h" % (self.d, k)] = ""
        w.install()
        w.build()
        for x in w.dirs:
            w.files["%s/src/%s/keep" % (self.d, x)] = ""
        w.files[self.d + "/src/m.c"] = "int main(void) { return 0; }\n"
        w.files[self.d + "/src/meson_options.txt"] = "".join("option('f_%s', type: 'feature', value: '%s')\n" % (x, x) for x in ("enabled", "auto", "disabled"))
        w.files[self.d + "/src/meson.build"] = "\n".join(["project('t', 'c')", "executable('base', 'm.c')"] + w.lines) + "\n"
        w.install()
        subprocess.run(["chmod", "-R", "a+rwX", self.d], check=True)
        argv = [ck.muon, "setup", "-Dwrap_mode=" + w.mode] + (["-Dforce_fallback_for=" + ",".join(w.fff)] if w.fff else [])
        env = {}
        if self.r.random() < 0.5:
            env["PKG_CONFIG_PATH"] = self.d + "/pc"
        else:
            argv.append("-Dpkg_config_path=%s/pc" % self.d)
        res = run(argv + ["b"], cwd=self.d + "/src", user=65534, env=env, timeout=120, merge=True)
        self.out = "%s %s\n%s\n%s" % (env, " ".join(argv), res.rc, res.text)
        if crashed(res) or res.timeout:
            self.bad("crash", "setup crashed or hung: %s" % res.text[-1500:])
            return
        ck.count("lookups", len(w.expect))
        if (res.rc != 0) != w.fails:
            self.bad("setup:%d" % res.rc, "setup %s, though the last call %s" % ("failed" if res.rc else "succeeded", "is of a required dependency that cannot be found" if w.fails else "can be satisfied or is not required"))
            return
        got = dict((m.group(1), m.group(2)) for m in re.finditer(r"(?m)^message: (?:\S+ )?([RPV]\d+(?:\|(?:v|w|empty|nosuch|define))?)\|(.*)$", res.text))
        text = open(self.d + "/src/b/build.ninja").read() if not w.fails else None
        man = Manifest(text) if text else None
        for kind, i, dep, c in w.expect:
            t = got.get("%s%d" % (kind, i))
            if t is None:
                self.bad("silent", "no report of call %d" % i)
                return
            if kind == "P":
                if t.split("|")[0].strip() != str(dep).lower():
                    self.bad("subproject", "subproject() call %d: found %s, expected %s" % (i, t, dep))
                    return
                continue
            if dep is None:
                want = "disabler" if c["disabler"] else "false"
                if t.split("|")[0].strip() != want:
                    self.bad("notfound", "call %d (%s) gives %s, expected %s" % (i, c, t, want))
                    return
                if c["msg"] and c["required"] != "disabled" and "NFM%d" % i not in re.sub(r"(?m)^.*not_found_message.*$", "", res.text):
                    self.bad("message", "call %d does not print its not_found_message" % i)
                    return
                ck.count("not_found")
                continue
            f = [x.strip() for x in t.split("|")]
            ver = dep.version if dep.version is not None else "undefined"
            want = ["true", ver, dep.kind]
            if f[:3] != want:
                self.bad("found", "call %d (%s) gives %s, expected %s" % (i, c, f, want))
                return
            if c["inc"] and f[3] != c["inc"] or not c["inc"] and f[3] != "preserve":
                self.bad("include_type", "call %d: include_type() is %s, expected %s" % (i, f[3], c["inc"]))
                return
            ck.count("found_" + dep.kind)
            for v in ("v", "w", "empty", "nosuch"):
                x = got.get("V%d|%s" % (i, v), "?").rstrip().rstrip("|")
                if x != dep.vars.get(v, "DEFAULT"):
                    self.bad("variable", "call %d: variable %s of %s is %r, expected %r" % (i, v, c["names"], x, dep.vars.get(v, "DEFAULT")))
                    return
            if c["define"]:
                x = got.get("V%d|define" % i, "?").rstrip().rstrip("|")
                y = dep.vars.get("w", "DEFAULT").replace(self.d, "/defined")
                if x != y:
                    self.bad("define", "call %d: w with prefix defined is %r, expected %r" % (i, x, y))
                    return
                ck.count("defines")
            if man and not self.args(man, i, dep, c):
                return
        ck.case("world %d" % self.i, len(w.expect), "\n".join(w.lines[:12]))

    def edge(self, man, name):
        b = self.d + "/src/b"
        link = [e for e in man.edges if name in e.outs][0]
        comp = [e for o in link.ins for e in [man.by_out.get(o)] if e and o.endswith(".o")][0]
        return (norm_compile(shlex.split(man.get(comp, "ARGS")), b), norm_link(shlex.split(man.get(link, "LINK_ARGS")), b))

    def args(self, man, i, dep, c):
        w = self.w
        b = self.d + "/src/b"
        bc, bl = self.edge(man, "base")
        ec, el = self.edge(man, "e%d" % i)
        ec, el = minus(ec, bc), minus(el, bl)
        el = [x for x in el if not x[0].startswith("-Wl,-rpath,") or "/opt/pk" in x[0]]
        if dep.kind == "pkgconfig":
            fl = w.pk[dep.pk]["flags"]
            wc = norm_compile(shlex.split(fl["c"]), b)
            raw = shlex.split(fl[dep.static])
            wl = norm_link(raw, b, [x[2:] for x in raw if x.startswith("-L")], dep.static)
        else:
            wc = norm_compile(dep.cflags + [t for x in dep.inc for t in ("-I", self.d + "/src/" + x)], b)
            if dep.inc:
                wc += norm_compile([t for x in dep.inc for t in ("-I", self.d + "/src/b/" + x)], b)
            wl = norm_link(dep.ldargs, b)
        if c["inc"] == "system":
            wc = [("-isystem",) + x[1:] if x[0] == "-I" else x for x in wc]
        inc = lambda l: set(x for x in l if x[0] in ("-I", "-isystem"))
        oth = lambda l: uniq(x for x in l if x[0] not in ("-I", "-isystem"))
        # the build directory twin of an include directory is optional
        opt = set(x for x in inc(wc) if "/src/b/" in x[1])
        base = set(bc)
        if inc(ec) - opt != inc(wc) - opt - base or oth(minus(ec, [])) != [x for x in oth(wc) if x not in base]:
            self.bad("compile", "call %d (%s): the user of the dependency is compiled with %s, expected %s" % (i, c, ec, wc))
            return False
        isl = lambda x: x[0].startswith("-l") or not x[0].startswith("-")
        gl, gw = set(x for x in el if isl(x)), set(x for x in wl if isl(x))
        ol, ow = [x for x in uniq(el) if not isl(x)], [x for x in uniq(wl) if not isl(x) and x not in bl]
        if gl != gw or [x for x in ol if x not in bl] != ow:
            self.bad("link", "call %d (%s): the user of the dependency is linked with %s, expected %s" % (i, c, el, wl))
            return False
        self.ck.count("argument_lists")
        return True


# ---- pkgconfig.generate()
class Gen:
    def __init__(self, ck, i):
        self.ck, self.i, self.r = ck, i, ck.rng("pcgen", i)
        self.d = ck.tmp("p%d_" % i)

    def bad(self, key, text):
        self.ck.violation(key, text, {"meson.build": self.text, "pk.pc": self.pk, "output.txt": self.out})

    def go(self):
        r, ck = self.r, self.ck
        prefix = r.choice(["/usr", "/opt/x", "/usr/local"])
        libdir = r.choice([None, "lib", "lib/deep", "/usr/lib"])
        opts = ["-Dprefix=" + prefix] + (["-Dlibdir=" + libdir] if libdir else [])
        absdir = lambda x: os.path.normpath(os.path.join(prefix, x))
        LD = absdir(libdir or "lib")
        L = ["project('proj', 'c', version: '4.5')", "pkg = import('pkgconfig')"]
        libs = {}
        for k in range(4):
            name = r.choice(["a%d", "libb%d", "c-%d"]) % k
            kind = r.choice(["shared_library", "shared_library", "static_library", "both_libraries"])
            kw = ["install: true"]
            where = None
            if r.random() < 0.25:
                where = r.choice(["lib/own%d" % k, prefix + "/priv%d" % k, "/elsewhere/%d" % k, "lib/own %d" % k])
                kw.append("install_dir: " + q(where))
            if kind == "shared_library" and r.random() < 0.3:
                kw.append("version: '1.2.3'")
            with_ = []
            pool = [x for x in libs if libs[x]["kind"] != "both_libraries"]
            if pool and kind != "both_libraries" and r.random() < 0.35:
                with_ = [r.choice(pool)]
                kw.append("link_with: l%d" % with_[0])
            libs[k] = dict(name=name, kind=kind, dir=absdir(where) if where else LD, with_=with_, pc=None)
            L.append("l%d = %s(%s, 'm.c', %s)" % (k, kind, q(name), ", ".join(kw)))
        L.append("d0 = declare_dependency(compile_args: ['-DD0=1'], link_args: ['-ld0', '-Wl,-z,now'])")
        L.append("d1 = declare_dependency(link_with: l1, compile_args: '-DD1')")
        L.append("th = dependency('threads')")
        L.append("pk = dependency('pk')")
        cases = []
        todo = list(range(r.randint(1, 5)))
        for n in todo:
            kw, pub, priv = [], [], []
            want = dict(requires=[], requires_private=[], vars={}, name=None, url=None, conflicts=[])
            cf = []

            def lib(k, dest):
                l = libs[k]
                if l["pc"]:
                    dest.append(("R", l["pc"]))
                    return
                for x in l["with_"]:
                    # what a static library needs is needed wherever it is linked
                    lib(x, dest if l["kind"] == "static_library" else priv)
                dest.append(("-L", l["dir"]))
                dest.append(("-l", l["name"]))
            main = r.choice([None, 0, 1, 2, 3])
            if main is not None and libs[main]["pc"]:
                main = None
            pos = []
            if main is not None:
                pos = ["l%d" % main]
                lib(main, pub)
            name = None
            if main is None or r.random() < 0.6:
                name = "name %d" % n
                kw.append("name: " + q(name))
                kw.append("description: 'desc %d'" % n)
                want["description"] = "desc %d" % n
            else:
                name = libs[main]["name"]
                if any(c["base"] == name for c in cases):
                    continue
            want["name"] = name
            base = name
            if " " in base or r.random() < 0.3:
                base = "base%d" % n
                kw.append("filebase: " + q(base))
            ver = "4.5"
            if r.random() < 0.5:
                ver = "%d.%d.%d" % (n, r.randint(0, 20), r.randint(0, 5))
                kw.append("version: " + q(ver))
            for key, dest in (("libraries", pub), ("libraries_private", priv)):
                if r.random() < 0.5:
                    pool = ["l0", "l2", "l3", "'-lm%d'" % n, "'-Wl,-O1'", "th", "pk"] + (["d0", "d1"] if key == "libraries" else [])
                    pick = r.sample(pool, r.randint(1, 3))
                    kw.append("%s: [%s]" % (key, ", ".join(pick)))
                    for p in pick:
                        if p[0] == "l":
                            lib(int(p[1]), dest)
                        elif p[0] == "'":
                            dest.append(("-", p.strip("'")))
                        elif p == "th":
                            dest.append(("-", "-pthread"))
                            if dest is pub:
                                cf.append("-pthread")
                        elif p == "pk":
                            dest.append(("R", "pk"))
                        elif p == "d0":
                            cf.append("-DD0=1")
                            dest += [("-", "-ld0"), ("-", "-Wl,-z,now")]
                        elif p == "d1":
                            cf.append("-DD1")
                            lib(1, dest)
            for key in ("requires", "requires_private"):
                if r.random() < 0.35:
                    v = r.sample(["pk >= 1.0", "zlib", "pk"], 1)
                    if r.random() < 0.3:
                        kw.append("%s: pk" % key)
                        v = ["pk"]
                    else:
                        kw.append("%s: %s" % (key, lst(v)))
                    (pub if key == "requires" else priv).extend(("R", x.split()[0]) for x in v)
            sub = [""]
            if r.random() < 0.5:
                sub = r.sample([".", "inc%d" % n, "a/b", "with space"], r.randint(1, 3))
                kw.append("subdirs: " + lst(sub))
                sub = ["" if x == "." else x for x in sub]
            cf += ["-I" + os.path.normpath(absdir("include") + "/" + x) for x in sub]
            if r.random() < 0.5:
                x = r.sample(["-DEXTRA", "-DE2=3", "-mfoo", "-DWITH SPACE"], r.randint(1, 3))
                kw.append("extra_cflags: " + lst(x))
                cf += x
            vs = {}
            if r.random() < 0.6:
                for key in r.sample(["va", "vb", "vc", "datadir", "bindir"], r.randint(1, 3)):
                    vs[key] = r.choice(["plain", "two words", "${prefix}/x", "${bindir}/y", "${libdir}/z", "${datadir}/q", "eq=ual==s", "=lead"])
                    if "${%s}" % key in vs[key]:
                        vs[key] = "/abs"
                if vs.get("datadir", "").startswith("${bindir}") and vs.get("bindir", "").startswith("${datadir}"):
                    vs["bindir"] = "/bb"
                # a variable refers only to builtin ones or to those before it
                seen = {}
                for key, val in list(vs.items()):
                    m = re.match(r"\$\{(\w+)\}", val)
                    if m and m.group(1) in vs and m.group(1) not in seen:
                        val = "moved"
                    seen[key] = val
                vs = seen
                esc = r.random() < 0.6
                key = "variables" if esc else "unescaped_variables"
                if r.random() < 0.5:
                    kw.append("%s: {%s}" % (key, ", ".join("%s: %s" % (q(a), q(b)) for a, b in vs.items())))
                else:
                    kw.append("%s: %s" % (key, lst(["%s=%s" % x for x in vs.items()])))
                env = dict(prefix=prefix, libdir=LD, bindir=absdir("bin"), datadir=absdir("share"))
                for a, b in vs.items():
                    b = re.sub(r"\$\{(\w+)\}", lambda m: env[m.group(1)], b)
                    env[a] = b
                    want["vars"][a] = b.replace(" ", "\\ ") if esc else b
            if r.random() < 0.3:
                want["url"] = "http://example.org/%d" % n
                kw.append("url: " + q(want["url"]))
            if r.random() < 0.3:
                want["conflicts"] = ["old%d < 2" % n, "zz"][:r.randint(1, 2)]
                kw.append("conflicts: " + lst(want["conflicts"]))
            where = LD + "/pkgconfig"
            if r.random() < 0.25:
                where = prefix + "/share/pkgconfig"
                kw.append("install_dir: " + r.choice([q("share/pkgconfig"), q(where)]))
            L.append("pkg.generate(%s)" % ", ".join(pos + kw))
            if main is not None:
                libs[main]["pc"] = base
            cases.append(dict(base=base, ver=ver, pub=pub, priv=priv, cf=cf, want=want, where=where))
        if r.random() < 0.3:
            # one from a subproject, of its version
            L.append("subproject('sp')")
            os.makedirs(self.d + "/subprojects/sp")
            v = r.choice(["0.3", "77.1"])
            l = r.choice([[], [("-", "-lsub")]])
            write(self.d + "/subprojects/sp/meson.build", "project('sp', version: '%s')\nimport('pkgconfig').generate(name: 'ofsub', description: 'd'%s)\n"
                  % (v, ", libraries: '-lsub'" if l else ""))
            cases.append(dict(base="ofsub", ver=v, pub=l, priv=[], cf=["-I" + absdir("include")], where=LD + "/pkgconfig",
                              want=dict(vars={}, name="ofsub", url=None, conflicts=[])))
        self.text = "\n".join(L) + "\n"
        self.pk = "Name: pk\nDescription: d\nVersion: 3.1\nCflags: -DPK\nLibs: -lpk\n"
        self.out = ""
        os.makedirs(self.d + "/pc")
        write(self.d + "/pc/pk.pc", self.pk)
        write(self.d + "/pc/zlib.pc", self.pk.replace("pk", "zz").replace("PK", "ZZ"))
        write(self.d + "/meson.build", self.text)
        write(self.d + "/m.c", "int m;\n")
        subprocess.run(["chmod", "-R", "a+rwX", self.d], check=True)
        os.chmod(self.d, 0o777)
        res = run([ck.muon, "setup"] + opts + ["b"], cwd=self.d, user=65534, env={"PKG_CONFIG_PATH": self.d + "/pc"}, timeout=120, merge=True)
        self.out = res.text
        if res.rc:
            return self.bad("generate", "setup of a project that generates .pc files failed: %s" % res.text[-1200:])
        gen = {}
        for p, _, fs in os.walk(self.d + "/b"):
            for f in fs:
                if f.endswith(".pc"):
                    gen[f] = p + "/" + f
        os.makedirs(self.d + "/gen")
        for f, p in gen.items():
            subprocess.run(["cp", p, self.d + "/gen/" + f], check=True)
        plan = run([ck.muon, "-C", "b", "install", "-n"], cwd=self.d, user=65534, timeout=60, merge=True)
        for c in cases:
            if not self.one(c, cases, plan.text):
                return
        ck.case("pcgen %d" % self.i, len(cases), L[-1])

    def one(self, c, cases, plan):
        ck, d = self.ck, self.d
        by = {x["base"]: x for x in cases}
        f = d + "/gen/" + c["base"] + ".pc"
        if not os.path.exists(f):
            self.bad("missing", "no file generated for %s" % c["base"])
            return False
        text = open(f).read()
        self.out += "\n== %s\n%s" % (c["base"], text)

        def pc(*a):
            p = subprocess.run(["pkg-config", *a, c["base"]], capture_output=True, text=True, env={
                "PATH": os.environ["PATH"], "PKG_CONFIG_PATH": d + "/gen:" + d + "/pc", "PKG_CONFIG_ALLOW_SYSTEM_CFLAGS": "1", "PKG_CONFIG_ALLOW_SYSTEM_LIBS": "1"})
            self.ck.count("pkg_config_queries")
            return p.stdout.rstrip("\n") if p.returncode == 0 else "failed: " + p.stderr

        def field(k):
            m = re.search(r"(?m)^%s: *(.*)$" % re.escape(k), text)
            return m.group(1) if m else None
        w = c["want"]
        checks = [("version", pc("--modversion"), c["ver"]), ("name", field("Name"), w["name"]), ("url", field("URL"), w["url"]),
                  ("conflicts", sorted(re.split(r" *, *", field("Conflicts") or "")), sorted(w["conflicts"] or [""]))]
        if "description" in w:
            checks.append(("description", field("Description"), w["description"]))
        for k, v in w["vars"].items():
            checks.append(("variable " + k, pc("--variable=" + k), v))

        reqs = lambda l: set(x for t, x in l if t == "R")

        def flags(x, what, static, seen):
            """what pkg-config prints for a package"""
            if x in seen:
                return set()
            seen.add(x)
            if x in ("pk", "zlib"):
                n = "pk" if x == "pk" else "zz"
                return {"-D" + n.upper()} if what == "c" else {"-l" + n}
            y = by[x]
            out = set(y["cf"]) if what == "c" else set(t + v if t != "-" else v for t, v in y["pub"] + (y["priv"] if static else []) if t != "R")
            for q_ in reqs(y["pub"]) | (reqs(y["priv"]) if static or what == "c" else set()):
                out |= flags(q_, what, static, seen)
            return out
        toks = lambda s: set(t if not t[:2] in ("-I", "-L") else t[:2] + os.path.normpath(t[2:]) for t in shlex.split(s))
        checks.append(("cflags", toks(pc("--cflags")), flags(c["base"], "c", False, set())))
        # a library needs its directory only if it is named
        checks.append(("libs", toks(pc("--libs")), flags(c["base"], "l", False, set())))
        checks.append(("static libs", toks(pc("--static", "--libs")), flags(c["base"], "l", True, set())))
        for k, got, exp in checks:
            if got != exp:
                self.bad("pc:" + k.split()[0], "%s of the generated %s.pc: consumers get %r, expected %r" % (k, c["base"], got, exp))
                return False
        if c["where"] + "/" + c["base"] + ".pc" not in plan:
            self.bad("pc:place", "%s.pc is not installed in %s" % (c["base"], c["where"]))
            return False
        ck.count("generated_files")
        return True


def body(ck):
    ck.rule = "a history of dependency() calls in a generated world, or a set of generated .pc files; distinct by its seed"
    ck.assumptions += ["left open: several names with different cached or overridden dependencies, providers for a later name, static with overrides or fallbacks, overriding an already looked up name, a fallback variable that differs from the override",
                       "pkg-config (pkgconf 1.8.1) defines what a .pc file says"]
    ck.muon = build("asan")
    ck.map(lambda i: Case(ck, i).go(), range(ck.n(420, 5000)))
    ck.map(lambda i: Gen(ck, i).go(), range(ck.n(160, 1800)))
    ck.finish(min_evals=300)


if __name__ == "__main__":
    main("C23", body)
