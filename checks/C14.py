#!/usr/bin/env python3
"""C14: a build directory follows every change of its inputs and then rests.

Monitor: random histories of edits, builds and reconfigurations of generated projects; after every
build the build directory is compared, byte for byte, with one configured and built afresh at the
same path, and a further build must run nothing (every command of the project writes a line to a
log, every file's modification time is compared)."""
import os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SKIP = re.compile(r"(^|/)(\.ninja_log|\.ninja_deps|compiler_check_cache\.dat|compiler_check_exe|test\.c(\.o)?|\.ninja_lock)$")
WORDS = ["alpha", "beta", "gamma 1", "delta", "eps$1", "it's", "a\"b", "x y z", "100%", "v;w", "&q"]
SAFE = ["alpha", "beta", "gamma", "delta", "one", "two"]

TOOL = """#!/bin/sh
out=$1; shift
echo "run $out" >> "$VLOG"
{ echo "tool TV"; for i in "$@"; do if [ -f "$i" ]; then echo "<"; cat "$i"; echo ">"; else echo "[$i]"; fi; done; } > "$out"
"""


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


class Proj:
    """a project as a data structure, its edits, and its text"""
    def __init__(self, r, cc):
        self.r = r
        self.cc = cc
        self.n = 0
        self.broken = None
        self.opts = {}
        self.subopts = {}
        self.set = {}            # explicitly set options
        self.env = {}
        self.comment = {}
        self.version = "1.0"
        self.defaults = {}
        self.subdefaults = {}
        self.tool = 1
        self.data = {}           # extra files -> text
        self.dirs = {"": self.newdir(""), "sp": self.newdir("sp")}
        for i in range(r.randrange(3)):
            self.op_addsub()
        for i in range(r.randrange(1, 4)):
            self.op_addopt()
        for o in list(self.opts):
            if r.random() < .4:
                self.set[o] = self.val(self.opts[o][0])
        for o in list(self.subopts):
            if r.random() < .4:
                self.set["sp:" + o] = self.val(self.subopts[o][0])
        if cc and r.random() < .4:
            self.env = {"CFLAGS": "-DFROM_ENV=%d" % r.randrange(9)}

    def uid(self):
        self.n += 1
        return self.n

    def newdir(self, d):
        r = self.r
        x = dict(items=[], d=d)
        for i in range(r.choice([1, 2, 3])):
            x["items"].append(self.item(d))
        return x

    def item(self, d):
        r = self.r
        k = r.choice(["target", "target", "conf", "confcopy", "confcmd", "read", "keyval", "runcmd", "test", "install", "conffiles"] + (["exe", "compiles", "compiles"] if self.cc and d != "sp" else []))
        i = self.uid()
        f = "f%d.%s" % (i, "c" if k in ("exe", "compiles") else "txt")
        if r.random() < .15:
            f = r.choice(["f %s", "$%s", "a%s" if f.endswith(".c") else "a:%s", "#%s", "%%%s", "é%s", "&%s"]) % f
        p = os.path.join(d, f) if d else f
        it = dict(k=k, i=i, f=f, word=r.choice(SAFE))
        self.data[p] = self.content(k)
        return it

    def content(self, k):
        r = self.r
        w = r.choice(SAFE)
        n = self.uid()
        if k in ("conf", "conffiles"):
            return "#define V%d \"@WORD@\"\n%s @WORD@ %d\n" % (n, w, n)
        if k == "keyval":
            return "K=%s%d\nL=%d\n" % (w, n, n)
        if k == "exe":
            return "int main(void) { return %d; }\n" % (n % 120)
        if k == "compiles":
            return r.choice(["int f%d(void) { return 0; }\n", "int f%d(void) { return undeclared_thing; }\n", "#error no %d\n"]) % n
        return "%s %d\n" % (w, n)

    def opt(self):
        r = self.r
        t = r.choice(["string", "string", "boolean", "combo", "integer", "array", "feature"])
        return [t, self.val(t)]

    def val(self, t):
        r = self.r
        if t == "string":
            return r.choice(WORDS) + str(self.uid())
        if t == "boolean":
            return r.choice(["true", "false"])
        if t == "combo":
            return r.choice(SAFE)
        if t == "integer":
            return str(r.randrange(50))
        if t == "array":
            return ",".join(r.sample(SAFE, r.randrange(1, 4)))
        return r.choice(["auto", "enabled", "disabled"])

    # edits; each returns what it did, or None

    def op_addopt(self):
        i = self.uid()
        which = self.r.choice([self.opts, self.opts, self.subopts])
        which["o%d" % i] = self.opt()
        return "add option"

    def op_default(self):
        w = self.r.choice([self.opts, self.subopts])
        if not w:
            return
        o = self.r.choice(sorted(w))
        w[o][1] = self.val(w[o][0])
        return "change option default " + o

    def op_rmopt(self):
        w, p = self.r.choice([(self.opts, ""), (self.subopts, "sp:")])
        c = [o for o in sorted(w) if p + o not in self.set]
        if not c:
            return
        o = self.r.choice(c)
        del w[o]
        self.defaults.pop(o, None)
        return "remove option " + o

    def op_projdefault(self):
        c = [o for o in sorted(self.opts) if self.opts[o][0] in ("boolean", "combo", "integer")]
        if not c:
            return
        o = self.r.choice(c)
        self.defaults[o] = self.val(self.opts[o][0])
        return "default_options " + o

    def op_content(self):
        items = [(d, it) for d in self.dirs for it in self.dirs[d]["items"]]
        if not items:
            return
        d, it = self.r.choice(items)
        self.data[os.path.join(d, it["f"]) if d else it["f"]] = self.content(it["k"])
        return "new content of %s/%s (%s)" % (d, it["f"], it["k"])

    def op_word(self):
        items = [(d, it) for d in self.dirs for it in self.dirs[d]["items"]]
        if not items:
            return
        d, it = self.r.choice(items)
        it["word"] = self.r.choice(SAFE) + str(self.uid())
        return "new argument in %s/meson.build" % d

    def op_additem(self):
        d = self.r.choice(sorted(self.dirs))
        self.dirs[d]["items"].append(self.item(d))
        return "add %s to '%s'" % (self.dirs[d]["items"][-1]["k"], d)

    def op_rmitem(self):
        c = [d for d in sorted(self.dirs) if self.dirs[d]["items"]]
        if not c:
            return
        d = self.r.choice(c)
        it = self.r.choice(self.dirs[d]["items"])
        self.dirs[d]["items"].remove(it)
        if self.r.random() < .7:
            del self.data[os.path.join(d, it["f"]) if d else it["f"]]
        return "remove %s from '%s'" % (it["k"], d)

    def op_renameitem(self):
        items = [(d, it) for d in self.dirs for it in self.dirs[d]["items"]]
        if not items:
            return
        d, it = self.r.choice(items)
        old = os.path.join(d, it["f"]) if d else it["f"]
        it["f"] = "r%d_%s" % (self.uid(), it["f"])
        self.data[os.path.join(d, it["f"]) if d else it["f"]] = self.data.pop(old)
        return "rename %s (%s)" % (old, it["k"])

    def op_addsub(self):
        d = self.r.choice(["sub%d"] * 6 + ["s ub%d", "s$%d", "s+%d"]) % self.uid()
        if self.r.random() < .3:
            c = [x for x in self.dirs if x and x != "sp"]
            if c:
                d = self.r.choice(sorted(c)) + "/" + d
        self.dirs[d] = self.newdir(d)
        return "add subdir " + d

    def op_rmsub(self):
        c = [d for d in sorted(self.dirs) if d and d != "sp"]
        if not c:
            return
        d = self.r.choice(c)
        for x in list(self.dirs):
            if x == d or x.startswith(d + "/"):
                del self.dirs[x]
        for f in list(self.data):
            if f.startswith(d + "/"):
                del self.data[f]
        return "remove subdir " + d

    def op_version(self):
        self.version = "%d.%d" % (self.r.randrange(9), self.uid())
        return "version"

    def op_tool(self):
        self.tool = self.uid()
        return "edit the tool"

    def op_comment(self):
        d = self.r.choice(sorted(self.dirs))
        self.comment[d] = self.uid()
        return "comment in '%s'" % d

    def op_break(self):
        self.broken = (self.r.choice(sorted(self.dirs)), self.r.choice(["x = (\n", "error('broken')\n", "undefined_function()\n", "assert(false)\n"]))
        return "break '%s'" % self.broken[0]

    def edit(self):
        r = self.r
        while True:
            k = r.choice(["content"] * 6 + ["default", "default", "addopt", "rmopt", "projdefault", "word", "word", "additem", "rmitem", "renameitem", "addsub", "rmsub", "version", "tool", "comment", "break"])
            w = getattr(self, "op_" + k)()
            if w:
                return k, w

    def render_dir(self, d):
        out = []
        pre = "@0@".format(d)
        tag = d.replace("/", "_") or ("root")
        for it in self.dirs[d]["items"]:
            i, f, w = it["i"], it["f"], it["word"]
            k = it["k"]
            if k == "target":
                out.append("custom_target('t%d', input: '%s', output: 't%d.out', command: [tool, '@OUTPUT@', '@INPUT@', '%s'] + optargs, build_by_default: true)" % (i, f, i, w))
            elif k == "conf":
                out.append("configure_file(input: '%s', output: 'c%d.out', configuration: {'WORD': '%s'})" % (f, i, w))
            elif k == "conffiles":
                out.append("cf%d = configure_file(input: files('%s'), output: 'c%d.h', configuration: {'WORD': '%s'})" % (i, f, i, w))
                out.append("custom_target('ct%d', input: cf%d, output: 'ct%d.out', command: [tool, '@OUTPUT@', '@INPUT@'], build_by_default: true)" % (i, i, i))
            elif k == "confcopy":
                out.append("configure_file(input: '%s', output: 'c%d.out', copy: true)" % (f, i))
            elif k == "confcmd":
                out.append("configure_file(input: '%s', output: 'c%d.out', command: ['cat', '@INPUT@'], capture: true)" % (f, i))
            elif k == "read":
                out.append("s%d = import('fs').read('%s').strip()" % (i, f))
                out.append("custom_target('r%d', output: 'r%d.out', command: [tool, '@OUTPUT@', s%d, '%s'], build_by_default: true)" % (i, i, i, w))
            elif k == "keyval":
                out.append("k%d = import('keyval').load(files('%s'))" % (i, f))
                out.append("custom_target('k%d', output: 'k%d.out', command: [tool, '@OUTPUT@', k%d['K'], k%d['L']], build_by_default: true)" % (i, i, i, i))
            elif k == "runcmd":
                out.append("rc%d = run_command('cat', files('%s'), check: true).stdout().strip()" % (i, f))
                out.append("configure_file(output: 'rc%d.h', configuration: {'A': rc%d, 'W': '%s'})" % (i, i, w))
            elif k == "test":
                out.append("test('test%d', tool, args: ['/dev/null', files('%s'), '%s'], suite: '%s')" % (i, f, w, w))
            elif k == "install":
                out.append("install_data('%s', install_dir: 'share/%s')" % (f, w))
            elif k == "exe":
                out.append("executable('e%d', '%s', c_args: '-DW=%s')" % (i, f, w))
            elif k == "compiles":
                out.append("custom_target('cc%d', output: 'cc%d.out', command: [tool, '@OUTPUT@', cc.compiles(files('%s')) ? 'yes' : 'no'], build_by_default: true)" % (i, i, f))
        for x in sorted(self.dirs):
            if x and x != "sp" and os.path.dirname(x) == d:
                out.append("subdir('%s')" % os.path.basename(x))
        if d in self.comment:
            out.append("# comment %d" % self.comment[d])
        t = "\n".join(out) + "\n"
        if self.broken and self.broken[0] == d:
            t += self.broken[1]
        return t

    def optfile(self, opts):
        t = ""
        for o, (k, v) in opts.items():
            t += "option('%s', type: '%s', value: %s" % (o, k, v if k in ("boolean", "integer") else "[" + ", ".join(map(q, v.split(","))) + "]" if k == "array" else q(v))
            if k == "combo" or k == "array":
                t += ", choices: [%s]" % ", ".join(map(q, SAFE))
            t += ")\n"
        return t

    def optargs(self, opts):
        t = "optargs = []\n"
        for o, (k, v) in opts.items():
            if k == "feature":
                t += "optargs += [get_option('%s').enabled() ? 'E' : get_option('%s').auto() ? 'A' : 'D']\n" % (o, o)
            elif k == "array":
                t += "optargs += ['%s=' + '-'.join(get_option('%s'))]\n" % (o, o)
            elif k == "string":
                t += "optargs += ['%s=' + get_option('%s')]\n" % (o, o)
            else:
                t += "optargs += ['%s=@0@'.format(get_option('%s'))]\n" % (o, o)
        return t

    def files(self):
        fs = {}
        fs["VERSION"] = self.version + "\n"
        tool = "tool = find_program('%stool.sh')\n"
        dflt = ", default_options: [%s]" % ", ".join(q("%s=%s" % x) for x in self.defaults.items()) if self.defaults else ""
        fs["meson.build"] = "project('p'%s, version: files('VERSION')%s)\n" % (", 'c'" if self.cc else "", dflt) + tool % "" + \
            ("cc = meson.get_compiler('c')\n" if self.cc else "") + self.optargs(self.opts) + self.render_dir("") + \
            "subproject('sp')\ncustom_target('version', output: 'version.out', command: [tool, '@OUTPUT@', meson.project_version()] + optargs, build_by_default: true)\n"
        fs["meson_options.txt"] = self.optfile(self.opts)
        fs["tool.sh"] = TOOL.replace("TV", str(self.tool))
        for d in self.dirs:
            if d and d != "sp":
                fs[d + "/meson.build"] = self.render_dir(d)
        fs["subprojects/sp/meson.build"] = "project('sp')\n" + tool % "" + self.optargs(self.subopts) + self.render_dir("sp") + \
            "custom_target('opts', output: 'opts.out', command: [tool, '@OUTPUT@'] + optargs, build_by_default: true)\n"
        fs["subprojects/sp/meson_options.txt"] = self.optfile(self.subopts)
        fs["subprojects/sp/tool.sh"] = TOOL.replace("TV", str(self.tool))
        for f, t in self.data.items():
            fs["subprojects/" + f if f.startswith("sp/") else f] = t
        return fs


def snapshot(b):
    out = {}
    for d, ds, fs in os.walk(b):
        for f in fs:
            p = os.path.join(d, f)
            n = os.path.relpath(p, b)
            if not SKIP.search(n):
                st = os.lstat(p)
                out[n] = (st.st_mtime_ns, st.st_mode & 0o777, read(p))
    return out


class History:
    def __init__(self, ck, i, muon):
        self.ck, self.i, self.muon = ck, i, muon
        self.r = r = ck.rng("history", i)
        self.cc = i % 4 == 0
        self.ninja = i % 5 == 4 and shutil.which("ninja")
        self.p = Proj(r, self.cc)
        self.top = ck.tmp("h%d" % i)
        os.chmod(self.top, 0o777)
        self.src = os.path.join(self.top, r.choice(["src"] * 4 + ["s rc", "s$c"]))
        self.b = os.path.join(self.src, "b") if r.random() < .5 else os.path.join(self.top, "b")
        self.log = os.path.join(self.top, "log")
        self.trace = []
        self.disk = {}

    def sh(self, argv, env=None, cwd=None):
        e = {"VLOG": self.log}
        e.update(env or {})
        return run(argv, cwd=cwd or self.src, user=65534, env=e, timeout=120, merge=True)

    def write(self):
        fs = self.p.files()
        for f in list(self.disk):
            if f not in fs:
                os.unlink(os.path.join(self.src, f))
                del self.disk[f]
        for d, _, names in os.walk(self.src, topdown=False):
            if not os.listdir(d) and d != self.src:
                os.rmdir(d)
        changed = []
        for f, t in fs.items():
            if self.disk.get(f) != t:
                p = os.path.join(self.src, f)
                how = self.r.random()
                if f in self.disk and how < .3:
                    # replaced by another file, as editors do
                    write(p + ".new", t)
                    os.chmod(p + ".new", 0o755)
                    os.rename(p + ".new", p)
                else:
                    write(p, t)
                    os.chmod(p, 0o755)
                self.disk[f] = t
                changed.append(f)
        for d, ds, _ in os.walk(self.src):
            os.chmod(d, 0o777)
        return changed

    def setup_argv(self):
        return [self.muon, "setup"] + ["-D%s=%s" % x for x in self.p.set.items()] + [self.b]

    def build_argv(self):
        return ["ninja", "-C", self.b] if self.ninja else [self.muon, "-C", self.b, "samu"]

    def fail(self, key, detail):
        files = {"history.txt": "\n".join(self.trace), "argv.txt": " ".join(map(quote, self.setup_argv())) + "\nenv: %r\n" % self.p.env}
        for f, t in self.disk.items():
            files["src/" + f] = t
        self.ck.violation(key, detail, files)
        return False

    def runs(self):
        return read(self.log).decode(errors="replace").split("\n")[:-1] if os.path.exists(self.log) else []

    def compare(self, what, built):
        """the state after a build against a fresh configuration at the same path"""
        old = snapshot(self.b)
        aside = self.b + ".aside"
        os.rename(self.b, aside)
        n = len(self.runs())
        res = self.sh(self.setup_argv(), env=self.p.env)
        res2 = self.sh(self.build_argv()) if res.rc == 0 else res
        if res.timeout or res2.timeout or crashed(res) or crashed(res2):
            return self.fail("crash", "fresh configuration: %s %s" % (res.text[-300:], res2.text[-300:]))
        fresh = snapshot(self.b) if res2.rc == 0 else None
        shutil.rmtree(self.b, ignore_errors=True)
        os.rename(aside, self.b)
        if fresh is None:
            self.ck.count("fresh_failed")
            return None, res.text
        if built.rc != 0:
            return self.fail("build-fails", "build after %s: rc=%s %s" % (what, built.rc, built.text[-800:]))
        for f in sorted(fresh):
            if f not in old:
                return self.fail("missing", "after %s: %s is missing, a fresh build has it" % (what, f))
            if fresh[f][2] != old[f][2]:
                a, b = old[f][2], fresh[f][2]
                if f.endswith(".dat"):
                    a, b = self.dat(a), self.dat(b)
                    if a == b:
                        self.ck.count("dat_equal_values")
                        continue
                return self.fail("stale", "after %s: %s has\n%s\na fresh build has\n%s" % (what, f, *diff(a, b)))
            if fresh[f][1] != old[f][1]:
                return self.fail("mode", "after %s: %s has mode %o, fresh %o" % (what, f, old[f][1], fresh[f][1]))
        return True, ""

    def dat(self, b):
        d = os.path.join(self.top, "dat")
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, "x.dat"), b)
        write(os.path.join(d, "l.meson"), "message(serial_load('x.dat'))\n")
        subprocess_chmod(d)
        return self.sh([self.muon, "internal", "eval", "l.meson"], cwd=d).out

    def rest(self, what):
        time.sleep(.01)
        a, n = snapshot(self.b), self.runs()
        res = self.sh(self.build_argv())
        b, m = snapshot(self.b), self.runs()
        if res.rc != 0:
            return self.fail("rest-fails", "a second build after %s fails: rc=%s %s" % (what, res.rc, res.text[-400:]))
        if n != m:
            return self.fail("rest-runs", "a second build after %s ran %s" % (what, m[len(n):]))
        for f in b:
            if f not in a or a[f][0] != b[f][0]:
                return self.fail("rest-touches", "a second build after %s wrote %s\n%s" % (what, f, res.text[-400:]))
        self.ck.count("rests")
        return True

    def go(self):
        ck, r, p = self.ck, self.r, self.p
        os.makedirs(self.src)
        self.write()
        res = self.sh(self.setup_argv(), env=p.env)
        if crashed(res) or res.timeout or res.rc != 0:
            return ck.give_up("setup of a generated project fails: rc=%s %s" % (res.rc, res.text[-800:]))
        what = "the first configuration"
        for step in range(ck.n(5, 8)):
            res = self.sh(self.build_argv())
            self.trace.append("build -> %s" % res.rc)
            if crashed(res) or res.timeout:
                return self.fail("crash", "build after %s: rc=%s %s" % (what, res.rc, res.text[-600:]))
            c = self.compare(what, res)
            if c is False:
                return
            ok, text = c
            if ok is None:
                if res.rc == 0:
                    return self.fail("unnoticed", "after %s a fresh configuration fails but the build succeeds:\n%s" % (what, text[-300:]))
                if not p.broken:
                    return ck.give_up("the generated project fails: " + text[-600:] + "\n" + str(self.trace))
                # the failed build leaves everything to be repaired
                ck.count("failed_steps")
            else:
                if not self.rest(what):
                    return
            ck.case("%d-%d-%s" % (self.i, step, what), 1, "; ".join(self.trace[-6:]))
            ck.count("steps")
            # the next edits
            time.sleep(.02)
            whats = []
            if p.broken:
                whats.append("repair '%s'" % p.broken[0])
                p.broken = None
            for e in range(r.choice([1, 1, 1, 2, 3])):
                k, w = p.edit()
                whats.append(w)
                ck.count("edit_" + k)
            changed = self.write()
            if r.random() < .1:
                f = r.choice(sorted(self.disk))
                os.utime(os.path.join(self.src, f))
                whats.append("touch " + f)
            what = "; ".join(whats)
            self.trace.append(what + "   [" + " ".join(changed) + "]")
            if r.random() < .12 and not p.broken:
                o = r.choice(sorted(p.opts) + ["sp:" + x for x in sorted(p.subopts)] or [""])
                if o:
                    t = p.subopts[o[3:]][0] if o.startswith("sp:") else p.opts[o][0]
                    p.set[o] = p.val(t)
                    res = self.sh(self.setup_argv(), env=p.env)
                    what += "; setup with another " + o
                    self.trace.append("setup -D%s=%s" % (o, p.set[o]))
                    ck.count("reconfigured")
                    if res.rc != 0 or crashed(res):
                        return self.fail("reconfigure", "rc=%s %s" % (res.rc, res.text[-400:]))


def diff(a, b):
    a, b = a.decode(errors="replace").split("\n"), b.decode(errors="replace").split("\n")
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "\n".join(a[i:i + 3])[:700], "\n".join(b[i:i + 3])[:700]


def subprocess_chmod(d):
    for x, ds, fs in os.walk(d):
        os.chmod(x, 0o777)
        for f in fs:
            os.chmod(os.path.join(x, f), 0o666)


def body(ck):
    ck.rule = ("random projects (custom targets, configure_file in all modes, fs.read, keyval, run_command, options, subdirs, a subproject, some C) under random sequences of edits, reconfigurations and builds; "
               "a step is distinct and non-trivial by its edits")
    ck.assumptions += ["an edited file gets a newer modification time", "setup replaces the options set before it", "outputs of removed targets may stay behind", "headers read by compiler checks are not followed"]
    muon = build("asan")
    ck.map(lambda i: History(ck, i, muon).go(), range(ck.n(60, 700)))
    ck.finish(min_evals=150)


if __name__ == "__main__":
    main("C14", body)
