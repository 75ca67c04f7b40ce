#!/usr/bin/env python3
"""C09: configuring is deterministic and leaves the source tree alone.

Monitor: real and generated projects are configured several times at the same place while
everything that must not matter changes (directory order, wall clock, environment, heap layout,
spelling and inodes of the source tree, other build directories, an earlier configuration); all
files of the build directory are compared byte for byte.  A preloaded library records every path
muon opens for writing, creates, renames or deletes, and the source tree, HOME and TMPDIR are
compared before and after."""
import hashlib, os, random, re, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import C14

# intermediate files of the compiler checks: written by the tools
SKIP = re.compile(r"(^|/)(compiler_check_exe|compiler_check|test\.[a-z]+(\.o)?)$")

CORPUS_OPTS = ["-Dbuildtype=release", "-Ddefault_library=static", "-Dprefix=/opt/x", "-Dwarning_level=3", "-Dwerror=false", "-Dlibdir=lib64", "-Dc_args=-DX=1", "-Ddebug=true", "-Doptimization=1"]


def tree(root, skip=()):
    """everything observable about a tree: contents, modes, types, modification times"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for n in ds + fs + ["."]:
            p = os.path.normpath(os.path.join(d, n))
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                c = os.readlink(p)
            elif stat.S_ISREG(st.st_mode):
                c = hashlib.md5(read(p)).hexdigest()
            else:
                c = ""
            out[os.path.relpath(p, root)] = (stat.S_IFMT(st.st_mode), st.st_mode & 0o7777, st.st_mtime_ns, c)
    return out


def files_of(b):
    out = {}
    for d, ds, fs in os.walk(b):
        for f in fs:
            p = os.path.join(d, f)
            n = os.path.relpath(p, b)
            if not SKIP.search(n):
                out[n] = b"-> " + os.readlink(p).encode() if os.path.islink(p) else read(p)
    return out


def copy(src, dst, r):
    """copy a tree, creating the files in a random order, with new times"""
    todo = []
    os.makedirs(dst)
    for d, ds, fs in os.walk(src):
        for n in ds:
            p = os.path.join(d, n)
            if os.path.islink(p):
                todo.append(p)
            else:
                os.makedirs(os.path.join(dst, os.path.relpath(p, src)))
        todo += [os.path.join(d, f) for f in fs]
    r.shuffle(todo)
    for p in todo:
        q = os.path.join(dst, os.path.relpath(p, src))
        if os.path.islink(p):
            os.symlink(os.readlink(p), q)
        else:
            shutil.copy(p, q)
            t = r.randrange(10**9, 1700000000)
            os.utime(q, (t, t))
    for d, ds, fs in os.walk(dst):
        os.chmod(d, 0o777)


NAMES = ["zeta", "alpha", "Mid", "a_b", "x1", "x10", "x2", "under_score", "k%d"]


def rich(r):
    """a project full of tables: dictionaries, configuration data, environments, options, targets"""
    def names(n):
        out = set()
        while len(out) < n:
            k = r.choice(NAMES)
            out.add(k % r.randrange(1000) if "%" in k else k + str(r.randrange(50)))
        out = sorted(out)
        r.shuffle(out)
        return out
    fs = {}
    cc = r.random() < .3
    L = ["project('rich'%s, version: '1.%d', default_options: [%s])" % (", 'c'" if cc else "", r.randrange(99), ", ".join("'%s'" % o for o in r.sample(["warning_level=2", "buildtype=debug", "default_library=both", "werror=true"], r.randrange(3)))),
         "fs = import('fs')", "tool = find_program('tool.sh')"]
    fs["tool.sh"] = "#!/bin/sh\nout=$1; shift; echo \"$@\" > $out\n"
    d = names(r.choice([3, 20, 20, 150]))
    L.append("d = {" + ", ".join("'%s': %s" % (k, r.choice(["'v'", "1", "true", "'p q'"])) for k in d) + "}")
    L.append("d += {" + ", ".join("'%s': 'w%d'" % (k, i) for i, k in enumerate(list(dict.fromkeys(r.sample(d, min(len(d), 5)) + names(4))))) + "}")
    L.append("keys = d.keys()\nl = []\nforeach k, v : d\n  l += k + '=@0@'.format(v)\nendforeach")
    L.append("custom_target('dict', output: 'dict.txt', command: [tool, '@OUTPUT@'] + keys + l, build_by_default: true)")
    c = names(r.choice([2, 10, 90]))
    L.append("cdata = configuration_data({'FIRST': 1})")
    for k in c:
        L.append("cdata.%s('%s', %s)" % r.choice([("set", k, "'%s'" % r.randrange(99)), ("set_quoted", k, "'q'"), ("set10", k, "true"), ("set", k, "false")]))
    L.append("configure_file(output: 'conf.h', configuration: cdata)")
    L.append("configure_file(output: 'conf.%s', configuration: cdata, output_format: '%s')" % (r.choice(["asm", "x"]), r.choice(["nasm", "c"])))
    L.append("configure_file(input: 'in.txt', output: 'in.out', configuration: cdata)")
    fs["in.txt"] = "\n".join("%s @%s@" % (k, k) for k in c) + "\n"
    L.append("configure_file(input: 'in.txt', output: 'copied.txt', copy: true)")
    L.append("configure_file(input: 'in.txt', output: 'cap.txt', command: ['cat', '@INPUT@'], capture: true)")
    e = names(6)
    L.append("env = environment({" + ", ".join("'%s': '%s'" % (k.upper(), k) for k in e) + "})")
    for k in r.sample(e, 3):
        L.append("env.%s('%s', 'more')" % (r.choice(["set", "append", "prepend"]), k.upper()))
    for i, n in enumerate(names(r.randrange(2, 6))):
        L.append("test('%s', tool, args: ['/dev/null', '%d'], env: env, suite: ['%s', 's'], timeout: %d)" % (n, i, n, r.randrange(1, 99)))
    ts = names(r.randrange(2, 8))
    for i, n in enumerate(ts):
        deps = ", depends: [%s]" % ", ".join("t_" + x for x in r.sample(ts[:i], min(i, 2))) if i else ""
        L.append("t_%s = custom_target('%s', input: 'in.txt', output: ['%s.a', '%s.b'], command: [tool, '@OUTPUT0@', '@INPUT@'], install: true, install_dir: ['share/%s', false], env: env%s)" % (n, n, n, n, n, deps))
    for n in names(3):
        L.append("run_target('%s', command: [tool, '/dev/null', '%s'])" % (n, n))
        L.append("alias_target('al_%s', t_%s)" % (n, r.choice(ts)))
        fs["data/%s/%s.txt" % (n, n)] = n
        fs["data/%s/x.txt" % n] = "x"
    L.append("install_subdir('data', install_dir: 'share', exclude_files: ['%s'])" % "nothing.txt")
    L.append("install_data('in.txt', rename: 'out.txt', install_dir: 'share', install_mode: 'rw-r--r--')")
    L.append("import('pkgconfig').generate(name: 'rich', description: 'd', version: '1', variables: {%s}, uninstalled_variables: {'a': 'b'})" % ", ".join("'%s': '%s'" % (k, k) for k in names(5)))
    L.append("summary({%s}, section: 'S')" % ", ".join("'%s': '%s'" % (k, k) for k in names(5)))
    on = names(r.randrange(1, 6))
    fs["meson_options.txt"] = "".join(r.choice(["option('%s', type: 'string', value: 'v')\n", "option('%s', type: 'boolean', value: true)\n", "option('%s', type: 'array', value: ['a', 'b'])\n", "option('%s', type: 'feature')\n"]) % o.lower() for o in on)
    if cc:
        L.append("cc = meson.get_compiler('c')")
        for h in r.sample(["stdio.h", "nope.h", "unistd.h"], 2):
            L.append("cdata2 = cc.has_header('%s')" % h)
        L.append("add_project_arguments(['-DA', '-DB=1'], language: 'c')")
        libs = names(3)
        for i, n in enumerate(libs):
            fs["%s.c" % n] = "int f_%s(void) { return %d; }\n" % (n, i)
            L.append("lib_%s = %s('%s', '%s.c', c_args: ['-DN=%d'], include_directories: include_directories('data'), install: true%s)" % (n, r.choice(["static_library", "library", "both_libraries", "shared_library"]), n, n, i, ", link_with: lib_" + libs[i - 1] if i else ""))
            L.append("dep_%s = declare_dependency(link_with: lib_%s, compile_args: ['-DDEP_%s'], variables: {'v': '1', 'w': '2'})" % (n, n, n))
        fs["main.c"] = "int main(void) { return 0; }\n"
        L.append("g = generator(tool, output: ['@BASENAME@.gen.h', '@BASENAME@.gen.c'], arguments: ['@OUTPUT0@', '@INPUT@', '@OUTPUT1@'])")
        L.append("executable('main', 'main.c', g.process('in.txt'), dependencies: [%s], override_options: ['c_std=c99', 'warning_level=0'], build_rpath: '/x')" % ", ".join("dep_" + n for n in r.sample(libs, 2)))
    if r.random() < .5:
        fs["subprojects/sub/meson.build"] = "project('sub', version: '2', license: ['A', 'B'])\nmeson.override_dependency('subdep', declare_dependency(variables: {'q': 'r'}))\nx = {'u': 1, 'v': 2}\nconfigure_file(output: 'sub.txt', configuration: x)\ninstall_headers('h.h')\n"
        fs["subprojects/sub/h.h"] = ""
        L.append("subproject('sub')\ndependency('subdep')")
    fs["meson.build"] = "\n".join(L) + "\n"
    return fs


class Case:
    def __init__(self, ck, i, name, origin, opts, env=None):
        self.ck, self.i, self.name, self.origin, self.opts, self.env = ck, i, name, origin, opts, env or {}
        self.r = ck.rng("case", i, name)
        self.top = ck.tmp("c%d" % i)
        os.chmod(self.top, 0o777)
        self.inside = self.r.random() < .5
        self.sd = self.r.choice(["src", "src", "s rc"])
        self.src = os.path.join(self.top, self.sd)
        self.b = os.path.join(self.src if self.inside else self.top, "b")
        self.trace = []
        for d in ("home", "tmp"):
            os.makedirs(os.path.join(self.top, d))
            os.chmod(os.path.join(self.top, d), 0o777)
        os.symlink(self.sd, os.path.join(self.top, "lnk"))

    def fill(self):
        if isinstance(self.origin, dict):
            o = os.path.join(self.top, "origin")
            if not os.path.isdir(o):
                for f, t in self.origin.items():
                    write(os.path.join(o, f), t)
                    os.chmod(os.path.join(o, f), 0o755)
            copy(o, self.src, self.r)
        else:
            copy(self.origin, self.src, self.r)

    def fail(self, key, detail):
        files = {"what.txt": "%s\noptions: %s\n%s\n" % (self.name, self.opts, "\n".join(self.trace))}
        if isinstance(self.origin, dict):
            for f, t in self.origin.items():
                files["src/" + f] = t
        self.ck.violation(key, "%s: %s" % (self.name, detail), files)
        return None

    def setup(self, vary, build=None, opts=None):
        """one configuration; vary: the set of things that differ from the plain one"""
        ck, r, top = self.ck, self.r, self.top
        env = {"PATH": BASE_ENV["PATH"], "LANG": "C.UTF-8", "CC": "gcc", "CXX": "g++", "HOME": top + "/home", "TMPDIR": top + "/tmp", "VLOG": "/dev/null", "PYTHONDONTWRITEBYTECODE": "1", "CCACHE_DISABLE": "1"}
        env.update(self.env)
        pre = {"SHIM_LOG": top + "/log", "LD_PRELOAD": ck.shim}
        cwd, cd = self.src, []
        if "dirs" in vary:
            pre["SHIM_SEED"] = str(r.randrange(1, 10**9))
        if "time" in vary:
            pre["SHIM_TIME"] = str(r.choice([-1, 1]) * r.randrange(3600, 300000000))
            env["TZ"] = r.choice(["UTC+12", "Asia/Tokyo", "America/New_York"])
        if "env" in vary:
            for k in r.sample(["FOO", "A", "ZZZ", "USER", "LOGNAME", "SHELL", "EDITOR", "XDG_RUNTIME_DIR", "_", "SHLVL", "HOSTNAME", "MAKEFLAGS_X", "COLUMNS", "TERM"], r.randrange(1, 9)):
                env[k] = r.choice(["1", "x" * r.randrange(2000), "/nonexistent", ""])
            if r.random() < .5:
                env["PWD"] = r.choice([self.src, self.top + "/lnk", "/"])
        if "heap" in vary:
            t = [["glibc.malloc.perturb=%d" % r.randrange(1, 255)], ["glibc.malloc.mmap_threshold=0"], ["glibc.malloc.mmap_threshold=64", "glibc.malloc.mmap_max=30000"], ["glibc.malloc.tcache_count=0"], ["glibc.malloc.top_pad=%d" % r.randrange(1, 10**7)]]
            pre["GLIBC_TUNABLES"] = ":".join(r.choice(t) + ["glibc.malloc.perturb=%d" % r.randrange(255)])
        if "cwd" in vary:
            cwd, c = r.choice([(self.top, self.sd), (self.top, "lnk"), (self.top + "/lnk", "."), ("/", self.src), (self.top + "/home", "../lnk"), (self.top, "./lnk/../" + self.sd), (self.top + "/lnk", None)])
            cd = ["-C", c] if c is not None else []
        items = list(pre.items()) + list(env.items())
        if "env" in vary:
            r.shuffle(items)
        open(top + "/log", "w").close()
        os.chmod(top + "/log", 0o666)
        argv = ["env", "-i"] + ["%s=%s" % x for x in items] + [ck.muon] + cd + ["setup"] + (self.opts if opts is None else opts) + [build or self.b]
        self.trace.append("%s: cd %s; %s" % ("+".join(sorted(vary)) or "plain", cwd, " ".join(map(quote, argv))))
        res = run(argv, cwd=cwd, user=65534, timeout=180, merge=True)
        self.log = read(top + "/log").decode(errors="replace").split("\n")[:-1]
        return res

    def writes(self, build):
        """the recorded paths: all inside the build directory"""
        real = os.path.realpath(build)
        n = 0
        for line in self.log:
            op, p = line.split(" ", 1)
            if op == "readdir":
                self.ck.count("directories_listed")
                continue
            n += 1
            if re.match(r"/dev/(null|tty|std|fd|pts)", p):
                continue
            q = os.path.normpath(p)
            q = os.path.join(os.path.realpath(os.path.dirname(q)), os.path.basename(q))
            if q != real and not q.startswith(real + "/") and not (op == "mkdir" and (real + "/").startswith(q.rstrip("/") + "/")):
                self.fail("outside", "muon does '%s %s', outside the build directory %s" % (op, q, real))
                return False
        self.ck.count("paths_observed", n)
        return True

    def around(self):
        skip = (self.b, self.top + "/other", self.top + "/origin")
        out = {}
        for d in (self.sd, "home", "tmp"):
            for k, v in tree(os.path.join(self.top, d), skip).items():
                if k == "." and (self.inside or d != self.sd):
                    v = v[:2] + (0, v[3])
                out[d + "/" + k] = v
        return out

    def one(self, vary):
        if os.path.lexists(self.b) and "again" not in vary:
            shutil.rmtree(self.b)
        if "recreate" in vary:
            shutil.rmtree(self.src)
            self.fill()
        if "other" in vary:
            ob = self.top + "/other"
            if self.r.random() < .5:
                shutil.rmtree(ob, ignore_errors=True)
            self.setup({"dirs"}, ob, self.r.sample(CORPUS_OPTS, 3) if self.r.random() < .8 else [])
        before = self.around()
        res = self.setup(vary)
        if res.timeout:
            return self.ck.give_up("%s: setup takes too long" % self.name)
        if crashed(res):
            return self.fail("crash", "rc=%s %s" % (res.rc, res.text[-500:]))
        if not self.writes(self.b):
            return None
        after = self.around()
        if before != after:
            diff = ["%s: %s -> %s" % (k, before.get(k), after.get(k)) for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
            return self.fail("source", "setup changes what is not in the build directory: %s" % "; ".join(diff[:6]))
        return res

    def go(self):
        try:
            self.work()
        finally:
            shutil.rmtree(self.top, ignore_errors=True)

    def work(self):
        ck, r = self.ck, self.r
        self.fill()
        ref = self.one(set())
        if ref is None:
            return
        if ref.rc != 0:
            ck.count("not_configurable")
            ck.notes.append("%s: %s" % (self.name, ref.text[-200:]))
            # a failing setup is deterministic in where it writes, too
            res = self.one({"dirs", "recreate"})
            if res is not None and res.rc == 0:
                self.fail("outcome", "setup fails, but succeeds with another directory order:\n" + ref.text[-400:])
            return
        want = files_of(self.b)
        plan = [{"dirs", "recreate", "time", "heap"}, {"env", "cwd", "other", "heap"}, {"again", "dirs", "env"}]
        if ck.thorough:
            plan += [{k} for k in ("dirs", "time", "heap", "cwd", "other")] + [set(r.sample(["dirs", "recreate", "time", "env", "heap", "cwd", "other"], 4)) for k in range(4)]
        for vary in plan:
            res = self.one(vary)
            if res is None:
                return
            what = " and ".join(sorted(vary))
            if res.rc != 0:
                return self.fail("outcome", "setup succeeds, but not with another %s: rc=%s %s" % (what, res.rc, res.text[-500:]))
            got = files_of(self.b)
            for f in sorted(set(want) | set(got)):
                if f not in got or f not in want:
                    return self.fail("files", "with another %s: %s %s" % (what, f, "is missing" if f in want else "appears"))
                if got[f] != want[f]:
                    return self.fail("bytes", "with another %s: %s differs\n%s\n%s" % ((what, f) + C14.diff(want[f], got[f])))
            ck.count("files_compared", len(want))
            for v in vary:
                ck.count("varied_" + v)
            ck.case("%s %s %s" % (self.name, what, self.opts), 1, "%s: %d files identical, varied %s" % (self.name, len(want), what))


def body(ck):
    ck.rule = "each project is configured at one path under several variations of what must not matter; a case is a (project, options, variation)"
    ck.assumptions += ["the build directory is named the same way in compared runs (build.ninja repeats the given spelling in its regenerate rule)", "wraps may unpack into subprojects/", "commands of the project are its own responsibility"]
    ck.muon = build("plain")
    ck.notes = []
    ck.shim = os.path.join(ck.scratch, "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", ck.shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "shim.c"), "-ldl"], check=True)
    os.chmod(ck.shim, 0o755)
    root = os.path.join(REPO, "tests/project")
    names = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        if "meson.build" in fs and d != root:
            names.append(os.path.relpath(d, root))
            ds[:] = []
    r = ck.rng("pick")
    r.shuffle(names)
    cases = []
    for i, n in enumerate(names[:ck.n(250, 10**6)]):
        cases.append((i, n, os.path.join(root, n), r.sample(CORPUS_OPTS, r.choice([0, 0, 2])), {}))
    for i in range(ck.n(150, 1500)):
        cases.append((1000 + i, "generated %d" % i, rich(ck.rng("rich", i)), r.sample(CORPUS_OPTS, r.choice([0, 0, 2])), {}))
    for i in range(ck.n(40, 300)):
        p = C14.Proj(ck.rng("proj", i), i % 4 == 0)
        cases.append((5000 + i, "editable %d" % i, p.files(), ["-D%s=%s" % x for x in p.set.items()], p.env))
    ck.map(lambda c: Case(ck, *c).go(), cases)
    if os.environ.get("VERIF_NOTES"):
        print("\n".join(ck.notes))
    ck.finish(min_evals=150)


if __name__ == "__main__":
    main("C09", body)
