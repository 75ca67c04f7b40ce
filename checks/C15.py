#!/usr/bin/env python3
"""C15: installing puts exactly the declared files at the declared places.

Generated projects declare installs of every kind; an independent model computes the tree that must appear.
The destination is read back after a dry run, an install and a second install; everything outside it is
compared before and after."""
import os, re, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MODES = [("rw-r--r--", 0o644), ("rwxr-xr-x", 0o755), ("rw-------", 0o600), ("r--r--r--", 0o444), ("rwxr-x---", 0o750), ("rwsr-xr-x", 0o4755),
         ("rwxr-sr-x", 0o2755), ("rwxrwxrwx", 0o777), ("r-xr-xr-x", 0o555), ("rw-rw-r--", 0o664), ("rwSr--r--", 0o4644), ("rwx--x--x", 0o711)]
NAMES = ["a", "b.txt", "c d", "e.h", ".hid", "f.tar.gz", "g'q", "h$x", "UPPER", "é", "x-1", "z_z", "n.conf.in", "w+w", "#h", "p%s", "@at"]
DIRS = ["share/x", "share/y", "etc", "lib/deep/er/still", "a b", "share", "d$", "sub.d", "@0@", "x'y"]


class Gen:
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.src = {}          # relative path -> (content, mode)
        self.links = {}        # relative path -> target, in the source tree
        self.empty = []        # empty source directories
        self.want = {}         # absolute destination -> ("f", content, mode or None) | ("l", target) | ("d", mode or None) | ("x",) built | ("s",) shared lib
        self.n = 0
        self.setup = []
        self.prefix = r.choice(["/usr/local", "/usr", "/opt/my prefix", "/usr/x/y", "/p"])
        self.opt = {"datadir": "share", "includedir": "include", "mandir": "share/man", "bindir": "bin", "libdir": "lib"}
        self.setup += ["-Dprefix=" + self.prefix, "-Dlibdir=lib"]
        for k in self.opt:
            if r.random() < .2:
                self.opt[k] = r.choice(["custom/" + k, k + " dir", "/abs/" + k])
                self.setup.append("-D%s=%s" % (k, self.opt[k]))
        self.destdir = r.random() < .85
        self.dots = self.destdir
        self.c = r.random() < .12
        self.L = ["project('proj'%s)" % (", 'c'" if self.c else "")]
        self.sub = None
        self.ok = True
        self.run_n = 0
        self.scripts = []

    def name(self):
        self.n += 1
        nm = self.r.choice(NAMES)
        return "%s%d" % (nm, self.n) if self.r.random() < .5 or nm[0] == "." else "%d%s" % (self.n, nm)

    def file(self, at="", name=None, mode=None):
        r = self.r
        nm = name or self.name()
        p = os.path.join(at, nm)
        m = mode or r.choice([0o644, 0o644, 0o755])
        self.src[p] = (r.choice(["", "content of %s\n" % nm, "\0\1\xff binary", "x" * r.choice([4095, 32768, 32769, 100000]) + nm]).encode("utf-8"), m)
        return p

    def dest(self, *parts):
        p = os.path.join(*parts)
        if not p.startswith("/"):
            p = os.path.join(self.prefix, p)
        return os.path.normpath("/" + p.lstrip("/"))

    def put(self, path, v):
        # two declarations of one destination are not generated
        clash = path in self.want and not (v[0] == "d" and v[1] is None)
        q = os.path.dirname(path)
        while q != "/":
            clash = clash or self.want.get(q, "d")[0] != "d"
            q = os.path.dirname(q)
        if v[0] != "d" and any(x.startswith(path + "/") for x in self.want):
            clash = True
        if clash:
            self.ok = False
        elif path not in self.want:
            self.want[path] = v

    def dirs(self):
        r = self.r
        x = r.choice(DIRS + ["/abs/dir", "/etc/app"])
        if self.dots and r.random() < .08:
            x = r.choice(["../up", "../../../../../../out/of", "share/../etc", "/abs/../../../z", "./share/./d", "share//q"])
        return x

    def mode(self):
        """(source, mode)"""
        r = self.r
        if r.random() < .6:
            return "", None
        s, m = r.choice(MODES)
        return ", install_mode: " + r.choice(["'%s'", "['%s']"]) % s, m

    def item(self, at):
        """one install declaration in the build file of directory `at`"""
        r = self.r
        k = r.choice(["data", "data", "rename", "preserve", "headers", "headers", "man", "subdir", "subdir", "symlink", "emptydir", "conf", "ct", "ct"])
        cwd = at
        f = lambda: self.file(at)
        rel = lambda p: os.path.relpath(p, cwd or ".")
        ms, m = self.mode()
        if k in ("data", "rename", "preserve"):
            if k == "preserve":
                fs = [self.file(os.path.join(at, r.choice(["q1", "q1/q2", "q3", ""]))) for _ in range(r.randrange(1, 4))]
            else:
                fs = [f() for _ in range(r.randrange(1, 4))]
            ds = self.dirs() if r.random() < .75 else None
            base = ds if ds is not None else os.path.join(self.opt["datadir"], "proj")
            args = [quote(rel(x)) if k == "preserve" or r.random() < .7 else "files(%s)" % quote(rel(x)) for x in fs]
            src = args
            kw = ms + (", install_dir: " + quote(ds) if ds is not None else "")
            if k == "data" and r.random() < .25:
                kw += ", sources: [%s]" % ", ".join(args[1:])
                args = args[:1]
            if k == "rename":
                names = [r.choice(["", "ren/amed/"]) + self.name() for _ in fs]
                kw += ", rename: " + ("[" + ", ".join(map(quote, names)) + "]" if len(names) > 1 or r.random() < .5 else quote(names[0]))
            if k == "preserve":
                kw += ", preserve_path: true"
            a = ", ".join(args) if r.random() < .6 else "[" + ", ".join(args) + "]"
            self.L2.append("install_data(%s%s)" % (a, kw))
            for i, x in enumerate(fs):
                o = names[i] if k == "rename" else rel(x) if k == "preserve" else os.path.basename(x)
                self.put(self.dest(base, o), ("f",) + self.src[x][:1] + (m if m is not None else self.src[x][1],))
        elif k == "headers":
            fs = [self.file(os.path.join(at, r.choice(["", "", "inc", "inc/deep"]))) for _ in range(r.randrange(1, 4))]
            j = r.randrange(3)
            pp = r.random() < .3
            if j == 0:
                kw, base = "", self.opt["includedir"]
            elif j == 1:
                s = r.choice(["hs", "h/s", "h s"])
                kw, base = ", subdir: " + quote(s), os.path.join(self.opt["includedir"], s)
            else:
                s = self.dirs()
                kw, base = ", install_dir: " + quote(s), s
            self.L2.append("install_headers(%s%s%s%s)" % (", ".join(quote(rel(x)) if pp or r.random() < .6 else "files(%s)" % quote(rel(x)) for x in fs), kw, ms, ", preserve_path: true" if pp else ""))
            for x in fs:
                self.put(self.dest(base, rel(x) if pp else os.path.basename(x)), ("f", self.src[x][0], m if m is not None else self.src[x][1]))
        elif k == "man":
            loc = r.choice([None, None, "fr"])
            fs, j = [], r.random() < .3
            s = self.dirs()
            for _ in range(r.randrange(1, 4)):
                self.n += 1
                b, sec = "m%d" % self.n, r.choice("123456789")
                x = self.file(at, b + (".fr" if loc else "") + "." + sec)
                fs.append(x)
                base = s if j else os.path.join(self.opt["mandir"], *([loc] if loc else []), "man" + sec)
                self.put(self.dest(base, b + "." + sec), ("f", self.src[x][0], m if m is not None else self.src[x][1]))
            if j and loc:
                self.ok = False       # what a locale does with an explicit directory is left open
            self.L2.append("install_man(%s%s%s%s)" % (", ".join(quote(rel(x)) for x in fs), ", locale: 'fr'" if loc else "", ", install_dir: " + quote(s) if j else "", ms))
        elif k == "subdir":
            top = self.name()
            nest = r.choice(["", "", "inner"])
            root = os.path.join(at, top, nest) if nest else os.path.join(at, top)
            tree = {}
            for _ in range(r.randrange(0, 7)):
                p = os.path.relpath(self.file(os.path.join(root, r.choice(["", "k1", "k1/k2", "k3", "k1/k2/k3"]))), root)
                tree[p] = self.src[os.path.join(root, p)]
            lnk = {}
            if r.random() < .3:
                p = os.path.join(r.choice(["", "k1"]), "ln%d" % self.n)
                lnk[p] = r.choice(["nowhere", "/abs/target", "b.txt", "../x y"])
                self.links[os.path.join(root, p)] = lnk[p]
            ed = []
            if r.random() < .3 or not (tree or lnk):
                ed.append(r.choice(["void", "k3/void"]))
                self.empty.append(os.path.join(root, ed[0]))
            files = sorted(tree) + sorted(lnk)
            ddirs = set()
            for p in files:
                q = os.path.dirname(p)
                while q:
                    ddirs.add(q)
                    q = os.path.dirname(q)
            for p in ed:
                while p:
                    ddirs.add(p)
                    p = os.path.dirname(p)
            xf = r.sample(files, r.randrange(0, 1 + min(2, len(files)))) if r.random() < .5 else []
            xd = r.sample(sorted(ddirs), r.randrange(0, 1 + min(2, len(ddirs)))) if r.random() < .5 else []
            kw = ""
            if xf or r.random() < .1:
                # names that match nothing, or only a base name elsewhere, exclude nothing
                kw += ", exclude_files: [%s]" % ", ".join(map(quote, xf + (["nope"] if r.random() < .3 else []) + (["k9/" + os.path.basename(files[0])] if files and r.random() < .3 else [])))
            if xd or r.random() < .1:
                kw += ", exclude_directories: [%s]" % ", ".join(map(quote, xd + (["nodir"] if r.random() < .3 else [])))
            strip = r.choice([None, None, True, False])
            if strip is not None:
                kw += ", strip_directory: %s" % str(strip).lower()
            if m is not None and not (m & 0o500 == 0o500 and m & 0o200):
                ms, m = "", None
            s = self.dirs()
            base = s if strip else os.path.join(s, os.path.basename(root))
            self.L2.append("install_subdir(%s, install_dir: %s%s%s)" % (quote(os.path.join(top, nest) if nest else top), quote(s), ms, kw))
            gone = lambda p: p in xf or any(p == x or p.startswith(x + "/") for x in xd)
            self.put(self.dest(base), ("d", m))
            for p in sorted(ddirs):
                if not gone(p):
                    self.put(self.dest(base, p), ("d", m))
            for p in files:
                if not gone(p):
                    self.put(self.dest(base, p), ("l", lnk[p]) if p in lnk else ("f", tree[p][0], m if m is not None else tree[p][1]))
        elif k == "symlink":
            s, nm, t = self.dirs(), self.name(), r.choice(["target", "../rel/t", "/abs/t", "x y", "."])
            self.L2.append("install_symlink(%s, install_dir: %s, pointing_to: %s)" % (quote(nm), quote(s), quote(t)))
            self.put(self.dest(s, nm), ("l", t))
        elif k == "emptydir":
            s = [os.path.join(self.dirs(), self.name()) for _ in range(r.choice([1, 1, 2]))]
            self.L2.append("install_emptydir(%s%s)" % (", ".join(map(quote, s)), ms))
            for x in s:
                self.put(self.dest(x), ("d", m))
        elif k == "conf":
            nm, s = self.name(), self.dirs()
            j = r.randrange(4)
            if j < 2:
                t = self.file(at)
                self.src[t] = (b"V@K@\n", 0o644)
                body = "V%d\n" % self.n
                self.L2.append("configure_file(input: %s, output: %s, configuration: {'K': '%d'}, install_dir: %s%s%s)" % (
                    quote(rel(t)), quote(nm), self.n, quote(s), ms, ", install: true" if j else ""))
                self.put(self.dest(s, nm), ("f", body.encode(), m if m is not None else 0o644))
            elif j == 2:
                t = self.file(at)
                self.L2.append("configure_file(input: %s, output: %s, copy: true, install_dir: %s%s)" % (quote(rel(t)), quote(nm), quote(s), ms))
                self.put(self.dest(s, nm), ("f", self.src[t][0], m if m is not None else self.src[t][1]))
            else:
                self.L2.append("configure_file(input: %s, output: %s, copy: true, install_dir: %s, install: false)" % (quote(rel(self.file(at))), quote(nm), quote(s)))
        elif k == "ct":
            outs = [self.name().replace("@", "") for _ in range(r.choice([1, 1, 2, 3]))]
            cmd = "['sh', '-c', 'for f; do echo $0 > \"$f\"; done', 'c%d', '@OUTPUT@']" % self.n
            if len(outs) == 1 or r.random() < .4:
                s = [self.dirs()] * len(outs)
                kw = quote(s[0]) if r.random() < .5 else "[%s]" % quote(s[0])
            else:
                s = [self.dirs() if r.random() < .7 else None for _ in outs]
                kw = "[%s]" % ", ".join(quote(x) if x is not None else "false" for x in s)
            inst = r.choice([None, "true", "true", "false"])
            ct = "c%d" % self.n
            self.L2.append("custom_target('ct%d', output: [%s], command: %s, install_dir: %s%s%s)" % (
                self.n, ", ".join(map(quote, outs)), cmd, kw, ms, ", install: " + inst if inst else ""))
            if inst != "false":
                for o, x in zip(outs, s):
                    if x is not None:
                        self.put(self.dest(x, o), ("f", (ct + "\n").encode(), m if m is not None else 0o644))

    def script(self):
        """an install script that records its environment, and one that adds a file"""
        self.n += 1
        dry = self.r.choice(["", ", dry_run: true", ", dry_run: false"])
        self.src["scr%d" % self.n] = (b'#!/bin/sh\nprintf "%s|%s|%s|%s|%s\\n" "$1" "$DESTDIR" "$MESON_INSTALL_PREFIX" "$MESON_INSTALL_DESTDIR_PREFIX" "$MESON_INSTALL_DRY_RUN" >> "$2"\n', 0o755)
        self.L.append("meson.add_install_script(files('scr%d'), 'n%d', meson.current_source_dir() / 'log'%s)" % (self.n, self.n, dry))
        self.scripts.append(("n%d" % self.n, "true" in dry))

    def targets(self):
        r = self.r
        for _ in range(r.randrange(1, 4)):
            self.n += 1
            k = r.choice(["executable", "shared_library", "static_library", "shared_library"])
            nm = "tg%d" % self.n
            src = nm + ".c"
            self.src[src] = (b"int f%d(void) { return 7; }\n%s" % (self.n, b"int main(void) { return f%d(); }\n" % self.n if k == "executable" else b""), 0o644)
            s = self.dirs() if r.random() < .4 else None
            ms, m = self.mode()
            kw = ms + (", install_dir: " + quote(s) if s is not None else "")
            base = s if s is not None else self.opt["bindir" if k == "executable" else "libdir"]
            ver = None
            if k == "shared_library" and r.random() < .6:
                ver = r.choice(["1.2.3", "4.5", "6"])
                kw += ", version: '%s'" % ver
            if k == "shared_library":
                self.libs.append(nm)
            inst = r.random() < .85
            if k == "executable":
                if self.libs:
                    kw += ", link_with: [%s]" % ", ".join(self.libs)
                rp = r.choice([None, "/keep1", "/keep1:/keep2", "@/in:/keep1", "/keep1:@/in:/keep22", "/k1:@/a:/k2:@/b:/k3", "@/a:@/b"])
                if rp:
                    kw += ", install_rpath: meson.current_build_dir().join(%s)" % ("'" + rp + "'.split('@')")
            self.L.append("%s = %s('%s', '%s'%s%s)" % (nm, k, nm, src, ", install: true" if inst else "", kw))
            if not inst:
                continue
            fn = {"executable": nm, "static_library": "lib%s.a" % nm, "shared_library": "lib%s.so" % nm}[k]
            if ver:
                full = fn + "." + ver
                so = fn + "." + ver.split(".")[0]
                self.put(self.dest(base, full), ("b", full, m if m is not None else 0o755))
                for x in {fn, so} - {full}:
                    self.put(self.dest(base, x), ("bl", {full, so} - {x}))
            else:
                self.put(self.dest(base, fn), ("b", fn, m if m is not None else (0o644 if k == "static_library" else 0o755)))

    def gen(self):
        r = self.r
        self.libs = []
        self.L2 = self.L
        for _ in range(r.randrange(2, 8)):
            self.item("")
        if r.random() < .5:
            self.L2 = []
            for _ in range(r.randrange(1, 4)):
                self.item("sd")
            self.src["sd/meson.build"] = ("\n".join(self.L2) + "\n").encode(), 0o644
            self.L.insert(r.randrange(1, len(self.L) + 1), "subdir('sd')")
        if r.random() < .3:
            self.L2 = ["project('sp')"]
            for _ in range(r.randrange(1, 4)):
                o = self.opt["datadir"]
                self.item_sub()
            self.src["subprojects/sp/meson.build"] = ("\n".join(self.L2) + "\n").encode(), 0o644
            self.L.append("subproject('sp')")
        if r.random() < .4:
            self.script()
        if self.c:
            self.targets()
        self.src["meson.build"] = ("\n".join(self.L) + "\n").encode(), 0o644

    def item_sub(self):
        self.n += 1
        x = self.file("subprojects/sp")
        m, s = self.mode(), self.dirs()
        d = self.r.random() < .5
        self.L2.append("install_data(%s%s%s)" % (quote(os.path.basename(x)), "" if d else ", install_dir: " + quote(s), m[0]))
        self.put(self.dest(os.path.join(self.opt["datadir"], "sp") if d else s, os.path.basename(x)), ("f", self.src[x][0], m[1] if m[1] is not None else self.src[x][1]))


def tree(root):
    """path below root -> ("d", mode) | ("l", target) | ("f", mode, content)"""
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            q = "/" + os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[q] = ("l", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[q] = ("d", stat.S_IMODE(st.st_mode))
            else:
                with open(p, "rb") as f:
                    out[q] = ("f", stat.S_IMODE(st.st_mode), f.read())
    return out


def rpath(p):
    t = subprocess.run(["readelf", "-dW", p], capture_output=True, text=True).stdout
    m = re.search(r"\((?:RUNPATH|RPATH)\).*\[(.*)\]", t)
    return m.group(1) if m else ""


def compare(ck, g, got, dest, what, show, files):
    want = dict(g.want)
    for p in list(want):
        q = os.path.dirname(p)
        while q != "/":
            want.setdefault(q, ("d", None))
            q = os.path.dirname(q)
    pre = "" if g.destdir else dest
    if pre:
        # without DESTDIR the prefix is below the scratch directory
        got = {p[len(g.prefix):] or "/": v for p, v in got.items()}
    for p, w in sorted(want.items()):
        ck.count("entries")
        v = got.get(p)
        kind = w[0]
        if v is None:
            ck.violation("missing:%s:%s" % (what, kind), "%s is not installed (%s)\n%s" % (p, what, show), files)
        elif kind == "d":
            if v[0] != "d" or (w[1] is not None and v[1] != w[1]):
                ck.violation("dir:" + what, "%s: %s %o, declared directory with mode %s\n%s" % (p, v[0], v[1] if v[0] != "l" else 0, w[1] and oct(w[1]), show), files)
        elif kind in ("l", "bl"):
            if v[0] != "l" or (v[1] != w[1] if kind == "l" else v[1] not in w[1]):
                ck.violation("symlink:" + what, "%s: %.200r, declared symlink to %r\n%s" % (p, v, w[1], show), files)
        elif kind == "f":
            if v[0] != "f" or v[2] != w[1]:
                ck.violation("content:" + what, "%s: %.300r, declared %.300r\n%s" % (p, v, w[1], show), files)
            elif v[1] != w[2]:
                ck.violation("mode:" + what, "%s: mode %o, declared %o\n%s" % (p, v[1], w[2], show), files)
        elif kind == "b":
            if v[0] != "f" or v[1] != w[2]:
                ck.violation("built:" + what, "%s: %s, mode %o, expected %o\n%s" % (p, v[0], v[1] if v[0] != "l" else 0, w[2], show), files)
                continue
            b = os.path.join(g.d, "build", w[1])
            now = os.path.join(dest, p.lstrip("/"))
            keep = [x for x in rpath(b).split(":") if x and not (x + "/").startswith(os.path.join(g.d, "build") + "/")]
            have = [x for x in rpath(now).split(":") if x]
            ck.count("binaries")
            if keep != have:
                ck.violation("rpath:" + what, "%s: rpath %r, in the build directory %r\n%s" % (p, have, rpath(b), show), files)
            if w[1].endswith(".a"):
                if read(b) != v[2]:
                    ck.violation("content:" + what, "%s differs from the built archive\n%s" % (p, show), files)
    for p in sorted(set(got) - set(want)):
        ck.violation("surplus:" + what, "%s %s was not declared (%s)\n%s" % (p, got[p][0], what, show), files)


def one(ck, i, muon):
    r = ck.rng("p", i)
    d = ck.tmp("p")
    while True:
        g = Gen(r, d)
        g.gen()
        if g.ok:
            break
    show = "\n".join([" ".join(map(repr, g.setup))] + ["--- %s\n%s" % (n, g.src[n][0].decode()) for n in sorted(g.src) if n.endswith("meson.build")])
    files = {n: c for n, (c, m) in g.src.items()}
    dest = os.path.join(d, r.choice(["dest", "de st/x"]))
    if not g.destdir:
        g.setup = [x for x in g.setup if not x.startswith("-Dprefix")] + ["-Dprefix=" + dest]
        if any(x.startswith("/") and not x.startswith(g.prefix + "/") for x in g.want):
            shutil.rmtree(d)
            return
        g.want = {"/" + os.path.relpath(p, g.prefix): v for p, v in g.want.items()}
        g.prefix = ""
    for n, (c, m) in g.src.items():
        write(os.path.join(d, n), c)
        os.chmod(os.path.join(d, n), m)
    for n in g.empty:
        os.makedirs(os.path.join(d, n), exist_ok=True)
    for n, t in g.links.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        os.symlink(t, os.path.join(d, n))
    subprocess.run(["chown", "-R", "65534:65534", d])

    def step(argv, env=None, want=0):
        res = run([muon] + argv, cwd=d, user=65534, merge=True, timeout=90, env=env)
        if res.timeout:
            res = run([muon] + argv, cwd=d, user=65534, merge=True, timeout=300, env=env)
        k = crashed(res)
        w = argv[2] if argv[0] == "-C" else argv[0]
        if k or res.timeout or (res.rc != 0) != bool(want):
            ck.violation("%s:%s" % (w, k or ("hang" if res.timeout else "status")), "muon %s: exit %s\n%s\n%s" % (argv, res.rc, res.text[-1500:], show), files)
            return False
        return True

    if not step(["setup"] + g.setup + ["build"]) or not step(["-C", "build", "samu"]):
        return
    ck.case(show, sample={"declarations": show[:600], "entries": len(g.want)})
    how, env = ["install"], None
    if g.destdir:
        s = r.choice(["env", "abs", "rel"])
        if s == "env":
            env = {"DESTDIR": dest}
        else:
            how += ["-d", dest if s == "abs" else os.path.relpath(dest, os.path.join(d, "build"))]
    before = tree(d)
    if not step(["-C", "build"] + how + ["-n"], env):
        return
    # a relative destination is passed on as an absolute path in any spelling
    norm = lambda l: "|".join([l.split("|")[0]] + [os.path.normpath(x) if x.startswith("/") else x for x in l.split("|")[1:]])
    log = []
    if os.path.exists(os.path.join(d, "log")):
        log = read(os.path.join(d, "log")).decode().splitlines()
        os.unlink(os.path.join(d, "log"))
    log = list(map(norm, log))
    after = tree(d)
    if before != after:
        ck.violation("dry-run", "a dry run changed %s\n%s" % (sorted(set(before.items()) ^ set(after.items()))[0][0], show), files)
    pfx = g.prefix or dest
    full = dest + g.prefix if g.destdir else dest
    line = lambda n, dry: "%s|%s|%s|%s|%s" % (n, dest if g.destdir else "", pfx, full, "1" if dry else "")
    ck.count("scripts", len(g.scripts))
    if log != [line(n, True) for n, y in g.scripts if y]:
        ck.violation("script:dry-run", "install scripts ran as %s in a dry run, expected %s\n%s" % (log, [line(n, True) for n, y in g.scripts if y], show), files)
    for k in ("first", "second"):
        if not step(["-C", "build"] + how, env):
            return
        if os.path.exists(os.path.join(d, "log")):
            log = read(os.path.join(d, "log")).decode().splitlines()
            os.unlink(os.path.join(d, "log"))
        elif g.scripts:
            log = []
        log = list(map(norm, log))
        if g.scripts and log != [line(n, False) for n, y in g.scripts]:
            ck.violation("script:" + k, "install scripts ran as %s, expected %s\n%s" % (log, [line(n, False) for n, y in g.scripts], show), files)
        got = tree(dest) if os.path.isdir(dest) else {}
        compare(ck, g, got, dest, k, show, files)
        out = {p: v for p, v in tree(d).items() if not (p + "/").startswith(dest[len(d):] + "/") and not (dest[len(d):] + "/").startswith(p + "/")}
        ref = {p: v for p, v in before.items() if not (dest[len(d):] + "/").startswith(p + "/")}
        if out != ref:
            ck.violation("outside:" + k, "installing changed %s outside the destination\n%s" % (sorted({p for p, v in set(out.items()) ^ set(ref.items())})[:5], show), files)
        if k == "first" and r.random() < .6:
            # what was there before does not matter: other content, a symlink, another mode
            for p, w in sorted(g.want.items()):
                q = dest + p
                if w[0] in ("f", "l") and r.random() < .5:
                    j = r.randrange(4)
                    if j == 0:
                        os.unlink(q)
                    elif w[0] == "f":
                        os.unlink(q)
                        if j == 1:
                            os.symlink(os.path.join(d, "meson.build"), q)
                        else:
                            write(q, "old content " * 50)
                            os.chmod(q, r.choice([0o400, 0o777, 0o644]))
                            os.chown(q, 65534, 65534)
    # an install that cannot be done is an error
    f = sorted(p for p, w in g.want.items() if w[0] == "f")
    if f and r.random() < .5:
        q = dest + r.choice(f)
        shutil.rmtree(dest)
        os.makedirs(os.path.dirname(os.path.dirname(q)), exist_ok=True)
        write(os.path.dirname(q), "in the way")
        subprocess.run(["chown", "-R", "65534:65534", d])
        ck.count("failures")
        step(["-C", "build"] + how, env, want=1)
    shutil.rmtree(d, ignore_errors=True)


def failing(ck, muon):
    """missing sources, failing scripts and odd modes"""
    for nm, body, del_ in [("missing source", "install_data('f', install_dir: 'x')", "f"),
                           ("script", "meson.add_install_script('sh', '-c', 'exit 3')", None),
                           ("script killed", "meson.add_install_script('sh', '-c', 'kill -9 $$')", None),
                           ("script gone", "meson.add_install_script(files('f'))", "f"),
                           ("later", "meson.add_install_script('false')\ninstall_data('g', install_dir: 'x')", None)]:
        d = ck.tmp("f")
        for n in ("f", "g", "s/a"):
            write(os.path.join(d, n), "#!/bin/sh\n")
            os.chmod(os.path.join(d, n), 0o755)
        write(os.path.join(d, "meson.build"), "project('p')\n%s\n" % body)
        subprocess.run(["chown", "-R", "65534:65534", d])
        a = run([muon, "setup", "b"], cwd=d, user=65534, merge=True)
        if del_:
            shutil.rmtree(os.path.join(d, del_), ignore_errors=True)
            if os.path.exists(os.path.join(d, del_)):
                os.unlink(os.path.join(d, del_))
        b = run([muon, "-C", "b", "install", "-d", os.path.join(d, "dest")], cwd=d, user=65534, merge=True)
        ck.case(nm)
        ck.count("failures")
        if a.rc != 0 or b.rc == 0 or crashed(b):
            ck.violation("failing:" + nm, "%s: setup exit %s, install exit %s\n%s" % (body, a.rc, b.rc, b.text[-600:]))
        shutil.rmtree(d)
    for md in ["'rwxrwxrw'", "'rwxrwxrwxr'", "'xwrxwrxwr'", "'rw-r--r-q'", "''", "'wwwwwwwww'", "['rw-r--r--', 'a', 'b', 'c']", "644", "'0644'", "'rwtr--r--'"]:
        d = ck.tmp("f")
        write(os.path.join(d, "meson.build"), "project('p')\ninstall_emptydir('x', install_mode: %s)\n" % md)
        subprocess.run(["chown", "-R", "65534:65534", d])
        a = run([muon, "setup", "b"], cwd=d, user=65534, merge=True)
        ck.case(md)
        if a.rc == 0 or crashed(a) or "error" not in a.text:
            ck.violation("install_mode", "install_mode: %s: setup exit %s\n%s" % (md, a.rc, a.text[-600:]))
        shutil.rmtree(d)


def body(ck):
    os.umask(0o022)
    ck.rule = "one case is one project installed twice and read back, or one install that must fail"
    muon = build("asan")
    failing(ck, muon)
    ck.map(lambda i: one(ck, i, muon), range(ck.n(700, 8000)))
    ck.assumptions = ["the umask is 022", "two declarations of one destination, and what an existing directory's mode becomes, are left open",
                      "sources have modes 644 and 755; install_tag is accepted and has no effect in muon (there is no option to select tags)",
                      "owners and groups are not set by muon"]
    ck.finish(min_evals=150)


if __name__ == "__main__":
    main("C15", body)
