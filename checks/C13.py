#!/usr/bin/env python3
"""C13: build order and link lines contain everything a target depends on.

Monitor: generated projects are configured and their build.ninja, read by an independent parser, is
executed one command at a time in a hostile topological order.  A preloaded library records every
file each command (and its children) opens, executes or loads; a file some edge produces must be
produced by an edge the command is ordered after.  The sources refuse to compile without the
arguments and include directories of their dependencies, and every program's output is compared
with a model.  Some projects are also built by the built-in builder and ninja in parallel."""
import os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import manifest

TOOL = """#!/bin/sh
# tool.sh KIND NAME OUT CONST FILES...: the value of a file is the last word of its first line
kind=$1 name=$2 out=$3 n=$4
shift 4
case $kind in
  obj) gcc -fPIC -c -o "$out" "$1"; exit ;;
  arc) gcc -fPIC -c -o "$out.o" "$1" && ar rc "$out" "$out.o" && rm "$out.o"; exit ;;
esac
for f in "$@"; do
  case $f in
    *.h|*.c|*.dat|*.txt|*.in) read -r l < "$f" || exit 3; n=$((n + ${l##* })) ;;
    *) cat "$f" > /dev/null || exit 4 ;;
  esac
done
emit() {
  case $kind in
    hdr) echo "#define $name $n" ;;
    src) echo "#define V_$name $n"; echo "int $name(void) { return V_$name; }" ;;
    dat) echo "DATA $n" ;;
  esac
}
case $kind in
  pair) kind=hdr; emit > "$out"; c=${out%.h}.c; { echo "#define V_$name $n"; echo "int s$name(void) { return V_$name; }"; } > "$c" ;;
  nul) : ;;
  *) if [ "$out" = - ]; then emit; else emit > "$out"; fi ;;
esac
"""

# the same, in an executable: %s are the value of the program and the checks
EMAIN = """
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
%(pre)s
static int value(void) { return %(expr)s; }
int main(int argc, char **argv) {
	int n = value(), i;
	if (argc < 5) {
		printf("%%d", n);
%(whole)s
		printf("\\n");
		return 0;
	}
	n += atoi(argv[4]);
	for (i = 5; i < argc; ++i) {
		char line[4000], *w;
		FILE *f = fopen(argv[i], "r");
		if (!f || !fgets(line, sizeof line, f) || !(w = strrchr(line, ' '))) return 3;
		n += atoi(w);
		fclose(f);
	}
	FILE *o = strcmp(argv[3], "-") ? fopen(argv[3], "w") : stdout;
	if (!o) return 4;
	if (!strcmp(argv[1], "hdr")) fprintf(o, "#define %%s %%d\\n", argv[2], n);
	else if (!strcmp(argv[1], "src")) fprintf(o, "#define V_%%s %%d\\nint %%s(void) { return V_%%s; }\\n", argv[2], n, argv[2], argv[2]);
	else fprintf(o, "DATA %%d\\n", n);
	fclose(o);
	return 0;
}
"""


class It:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Proj:
    def __init__(self, r, size, pre):
        self.r, self.pre = r, pre
        self.n = 0
        self.files = {"tool.sh": TOOL}
        self.text = {}
        self.items = []          # visible in the current scope
        self.all = []
        self.feats = set()
        self.cpp = r.random() < .2
        self.dl = r.choice(["shared", "static", "both"])
        self.order = []
        dirs = [""] + r.sample(["d1", "d2", "d1/n"], r.randrange(0, 3))
        if "d1/n" in dirs and "d1" not in dirs:
            dirs.append("d1")
        dirs.sort(key=lambda d: (-d.count("/"), d == "", d))
        self.dirs = dirs
        if r.random() < .35:
            self.subproject(size)
        for d in dirs:
            self.cur, self.lines = d, []
            self.text[d] = self.lines
            for k in range(max(2, size // len(dirs)) if d else size // 2 + 1):
                self.add()
        for it in [i for i in self.all if i.kind == "E"][:0]:
            pass
        # something that uses what nothing else used
        self.cur, self.lines = "", self.text[""]
        self.exe()
        self.render()

    def uid(self):
        self.n += 1
        return self.n

    def path(self, f):
        return (self.cur + "/" if self.cur else "") + f

    def put(self, f, t):
        self.files[self.base + self.path(f)] = t

    base = ""

    def subproject(self, size):
        r = self.r
        self.base, self.cur, self.lines = "subprojects/sp/", "", []
        lines = self.lines
        self.files["subprojects/sp/tool.sh"] = TOOL
        self.scope_cpp, self.cpp = self.cpp, False
        for k in range(size // 2):
            self.add()
        p = self.dep()
        self.text["sp"] = lines
        how = r.choice(["var", "override"])
        if how == "override":
            lines.append("meson.override_dependency('spdep', %s)" % p.var)
            self.sptext = "spdep = dependency('spdep', fallback: 'sp')"
        else:
            self.sptext = "spdep = subproject('sp').get_variable('%s')" % p.var
        self.base = ""
        self.cpp = self.scope_cpp
        hidden = [i for i in self.items if i is not p]
        self.items = []
        p.var = "spdep"
        self.items = [p]
        self.feats.add("subproject-" + how)

    # what can be picked from
    def some(self, kind, most, pred=None):
        c = [i for i in self.items if i.kind == kind and (pred is None or pred(i))]
        n = self.r.choice([0, 0, 1, 1, 2, 3])
        # recent items more likely: deep graphs
        self.r.shuffle(c)
        c.sort(key=lambda i: -i.id if self.r.random() < .6 else self.r.randrange(-self.n - 1, 1))
        return c[:min(n, most)]

    def add(self):
        k = self.r.choice(["H", "H", "D", "S", "L", "L", "L", "L", "P", "P", "P", "E", "M", "RT"])
        return {"H": self.hdr, "D": self.data, "S": self.src, "L": self.lib, "P": self.dep, "E": self.exe, "M": self.misc, "RT": self.run}[k]()

    def reg(self, it):
        self.items.append(it)
        self.all.append(it)
        return it

    def tool(self):
        """a command to generate with: (expression, its own value)"""
        r = self.r
        es = [i for i in self.items if i.kind == "E"]
        if es and r.random() < .4:
            e = r.choice(es)
            self.feats.add("built-tool")
            return e.var, e.value
        return "tool", 0

    def gen(self, kind, name, ext):
        """a custom target: returns (variable or expression, value, output base name)"""
        r, i = self.r, self.uid()
        var, const = "c%d" % i, r.randrange(1, 50)
        t, tv = self.tool()
        val = const + tv
        out = "%s.%s" % (name.lower(), ext)
        args, kws, ins = [], [], []
        fs = []
        for k in range(r.choice([0, 1, 1, 2])):
            n = r.randrange(1, 50)
            f = "in%d_%d.in" % (i, k)
            self.put(f, "SOURCE %d\n" % n)
            fs.append(("'%s'" % f if r.random() < .5 else "files('%s')" % f, n))
        for d in self.some("D", 2) + self.some("H", 1, lambda h: h.isct):
            fs.append((d.var, d.value))
        r.shuffle(fs)
        val += sum(v for _, v in fs)
        exp = "'@OUTPUT@'"
        cap = r.random() < .15
        if cap:
            exp = "'-'"
            kws.append("capture: true")
            self.feats.add("capture")
        # plain path arguments made available by depends:
        dp = self.some("D", 2, lambda d: d.single and d not in [x for x in fs])
        extra = []
        if dp and r.random() < .7:
            kws.append("depends: [%s]" % ", ".join(d.ct for d in dp))
            extra += ["%s.full_path()" % d.var for d in dp]
            val += sum(d.value for d in dp)
            self.feats.add("depends")
        # others directly in the command
        dc = self.some("D", 1, lambda d: not d.multi)
        if dc and r.random() < .5:
            extra += [d.var for d in dc]
            val += sum(d.value for d in dc)
            self.feats.add("target-in-command")
        if t == "tool":
            ls = self.some("L", 1, lambda l: l.lk in ("static", "shared"))
            if ls and r.random() < .4:
                fs.append((ls[0].var, 0))
                self.feats.add("library-as-input")
        if r.random() < .15:
            f = "dep%d.in" % i
            self.put(f, "SOURCE 1\n")
            kws.append("depend_files: files('%s')" % f)
        second = ""
        if r.random() < .2 and not cap and kind != "dat":
            # a second output, made by the same command
            pass
        if fs:
            kws.append("input: [%s]" % ", ".join(f for f, _ in fs))
        cmd = [t, "'%s'" % kind, "'%s'" % name, exp, "'%d'" % const] + (["'@INPUT@'"] if fs else []) + extra
        if r.random() < .2:
            kws.append("build_by_default: %s" % r.choice(["true", "false"]))
        self.lines.append("%s = custom_target(%soutput: '%s', command: [%s]%s)" % (var, "'%s', " % var if r.random() < .9 else "", out, ", ".join(cmd), "".join(", " + k for k in kws)))
        return var, val, out, i

    def hdr(self):
        r = self.r
        x = r.random()
        name = "H%d" % (self.n + 1)
        if x < .12:
            i = self.uid()
            v = r.randrange(1, 50)
            self.lines.append("c%d = configure_file(output: 'h%d.h', configuration: {'H%d': %d})" % (i, i, i, v))
            self.feats.add("configured-header")
            return self.reg(It("H", id=i, name="H%d" % i, file="h%d.h" % i, var="c%d" % i, ct="c%d" % i, value=v, isct=False, dir=self.cur, single=False, multi=False, src=None))
        if x < .27:
            # header and source made by one command
            i = self.uid()
            v = r.randrange(1, 50)
            ds = self.some("D", 2)
            self.lines.append("c%d = custom_target('c%d', output: ['h%d.h', 'h%d.c'], command: [tool, 'pair', 'H%d', '@OUTPUT0@', '%d'%s]%s)" % (
                i, i, i, i, i, v, ", '@INPUT@'" if ds else "", ", input: [%s]" % ", ".join(d.var for d in ds) if ds else ""))
            self.feats.add("pair")
            return self.reg(It("H", id=i, name="H%d" % i, file="h%d.h" % i, var="c%d[0]" % i, ct="c%d" % i, value=v + sum(d.value for d in ds), isct=True, dir=self.cur, single=False, multi=True, src="sH%d" % i, srcexpr="c%d[1]" % i))
        var, val, out, i = self.gen("hdr", name, "h")
        return self.reg(It("H", id=i, name=name, file=out, var=var, ct=var, value=val, isct=True, dir=self.cur, single=True, multi=False, src=None))

    def data(self):
        r = self.r
        name = "x%d" % (self.n + 1)
        var, val, out, i = self.gen("dat", name, "dat")
        use = r.choice([var, var, var + "[0]"])
        return self.reg(It("D", id=i, name=name, file=out, var=use if use == var else use, ct=var, value=val, single=use == var, multi=False, isct=True, dir=self.cur))

    def src(self):
        r = self.r
        name = "s%d" % (self.n + 1)
        if r.random() < .35:
            # by a generator
            i = self.uid()
            t, tv = self.tool()
            n = r.randrange(1, 50)
            c = r.randrange(1, 50)
            # the function takes the name of the input
            f = "gs%d.in" % i
            self.put(f, "SOURCE %d\n" % n)
            ds = self.some("D", 2, lambda d: d.single) if r.random() < .5 else []
            if r.random() < .4:
                # header and source
                self.lines.append("gi%d = files('%s')" % (i, f))
                self.lines.append("g%d = generator(tool, output: ['@BASENAME@.h', '@BASENAME@.c'], arguments: ['pair', 'G%d', '@OUTPUT0@', '%d', '@INPUT@'%s]%s)" % (
                    i, i, c, "".join(", %s.full_path()" % d.var for d in ds), ", depends: [%s]" % ", ".join(d.ct for d in ds) if ds else ""))
                self.feats.add("generator-pair")
                return self.reg(It("S", id=i, name="sG%d" % i, var="g%d.process(gi%d)" % (i, i), value=n + c + sum(d.value for d in ds), gen=True, dir=self.cur, hdr="gs%d.h" % i, hname="G%d" % i))
            # plain paths in the arguments of a generator, ordered by depends
            kw = ", depends: [%s]" % ", ".join(d.ct for d in ds) if ds else ""
            args = "'src', '@BASENAME@', '@OUTPUT@', '%d', '@INPUT@'" % c + "".join(", %s.full_path()" % d.var for d in ds)
            self.lines.append("gi%d = files('%s')" % (i, f))
            self.lines.append("g%d = generator(%s, output: '@BASENAME@.c', arguments: [%s]%s)" % (i, t, args, kw))
            val = tv + n + c + sum(d.value for d in ds)
            self.feats.add("generator" + ("-depends" if ds else ""))
            return self.reg(It("S", id=i, name="gs%d" % i, var="g%d.process(gi%d)" % (i, i), value=val, gen=True, dir=self.cur, hdr=None))
        var, val, out, i = self.gen("src", name, "c")
        return self.reg(It("S", id=i, name=name, var=var, value=val, gen=False, dir=self.cur, hdr=None))

    def misc(self):
        """objects and archives made by commands"""
        r, i = self.r, self.uid()
        k = r.choice(["obj", "arc"])
        v = r.randrange(1, 50)
        self.put("m%d.c" % i, "int m%d(void) { return %d; }\n" % (i, v))
        self.lines.append("c%d = custom_target('c%d', input: 'm%d.c', output: '%s', command: [tool, '%s', 'n', '@OUTPUT@', '0', '@INPUT@'])" % (i, i, i, "m%d.o" % i if k == "obj" else "libm%d.a" % i, k))
        return self.reg(It("M", id=i, k=k, var="c%d" % i, name="m%d" % i, value=v, dir=self.cur))

    def run(self):
        r, i = self.r, self.uid()
        ds = self.some("D", 2, lambda d: d.single)
        es = self.some("D", 1) + self.some("H", 1, lambda h: h.isct and not h.multi)
        t, _ = self.tool()
        if t != "tool":
            es = [e for e in es]
        self.lines.append("run_target('r%d', command: [%s, 'nul', 'n', '/dev/null', '0'%s]%s)" % (
            i, t, "".join(", " + e.var for e in es) + "".join(", %s.full_path()" % d.var for d in ds), ", depends: [%s]" % ", ".join(d.ct for d in ds) if ds else ""))
        self.feats.add("run_target")

    # ---- compiled things
    def closure(self, deps):
        out, todo = [], list(deps)
        while todo:
            p = todo.pop(0)
            if p not in out:
                out.append(p)
                todo += p.deps
        return out

    def units(self, links, deps, whole=()):
        """the libraries that end up linked as a whole, with their objects; None: they overlap"""
        u = {}
        ps = self.closure(deps)
        for l in list(links) + [l for p in ps for l in p.links]:
            u.update(l.units)
        for w in list(whole) + [w for p in ps for w in p.whole]:
            u.update(w.units)
            u[w.id] = w.contents
        seen = {-s.id for p in ps for s in p.srcs}
        for c in u.values():
            if c & seen:
                return None
            seen |= c
        return u

    def parts(self, i, whole_ok, kind):
        """pick what a target is made of; returns (keyword arguments, preamble, expression terms, sources, facts)"""
        r = self.r
        f = It("parts")
        f.links = self.some("L", 3)
        f.deps = self.some("P", 3)
        f.whole = []
        u = self.units(f.links, f.deps)
        if u is None:
            f.deps = []
            u = self.units(f.links, [])
            if u is None:
                f.links, u = [], {}
        ps = self.closure(f.deps)
        if whole_ok and r.random() < .3:
            for w in self.some("L", 2, lambda l: l.lk == "static" and not l.hasobj):
                n = self.units(f.links, f.deps, f.whole + [w])
                if n is not None:
                    f.whole.append(w)
                    u = n
        f.units = u
        f.blocked = set().union(*u.values()) if u else set()
        # what is linked as a whole by this target or its dependencies
        f.contents = set()
        for w in f.whole + [w for p in ps for w in p.whole]:
            f.contents |= w.contents
        f.links = [l for l in f.links if l not in f.whole]
        own = self.some("H", 2)
        hs = list(own)
        for p in ps:
            hs += [h for h in p.hdrs if h not in hs]
        f.dsrcs = []
        for p in ps:
            f.dsrcs += [s for s in p.srcs if s not in f.dsrcs]
        f.srcs = self.some("S", 2, lambda s: -s.id not in f.blocked and s not in f.dsrcs)
        f.pairs = [h for h in own if h.src and r.random() < .7 and -h.id not in f.blocked]
        f.misc = self.some("M", 2, lambda m: -m.id not in f.blocked)
        pre, terms, kw, srcs = [], [], [], []
        for h in own:
            srcs.append(h.var)
        for h in hs:
            pre.append('#include "%s"' % h.file)
            terms.append((h.name, h.value))
        for h in f.pairs:
            srcs.append(h.srcexpr)
            pre.append("extern int %s(void);" % h.src)
            terms.append(("%s()" % h.src, h.value))
        for s in f.srcs + f.dsrcs:
            if s not in f.dsrcs:
                srcs.append(s.var)
            if s.hdr:
                pre.append('#include "%s"' % s.hdr)
                terms.append((s.hname, s.value))
            pre.append("extern int %s(void);" % s.name)
            terms.append(("%s()" % s.name, s.value))
        for p in ps:
            pre.append('#include "p%d.h"' % p.id)
            pre.append("#ifndef P%d\n#error argument of dependency %d is missing\n#endif" % (p.id, p.id))
            terms.append(("PV%d" % p.id, p.value))
            terms.append(("P%d" % p.id, p.argval))
            for k in p.pre:
                pre.append("extern int pre%d(void);" % k)
                terms.append(("pre%d()" % k, 1000 + k))
        libs = list(f.links) + list(f.whole)
        for p in ps:
            libs += [l for l in p.links + p.whole if l not in libs]
        for l in libs:
            pre.append("extern int f_%d(void);" % l.id)
            terms.append(("f_%d()" % l.id, l.value))
        mo = [m for m in f.misc if m.k == "obj"]
        ma = [m for m in f.misc if m.k == "arc"]
        for m in f.misc:
            pre.append("extern int m%d(void);" % m.id)
            terms.append(("m%d()" % m.id, m.value))
        for m in mo:
            srcs.append(m.var)
        f.objs = []
        if kind != "static" and r.random() < .2:
            for l in self.some("L", 1, lambda l: l.leaf and l not in libs and not (l.contents & (f.blocked | {-h.id for h in f.pairs} | {-s.id for s in f.srcs + f.dsrcs} | {-m.id for m in mo}))):
                f.objs.append(l)
                how = r.choice(["extract_all_objects(recursive: %s)" % r.choice(["true", "false"]), "extract_objects('%s')" % l.file])
                if l.dir != self.cur or l.gensrc:
                    how = "extract_all_objects(recursive: true)"
                kw.append("objects: %s.%s" % (l.var, how))
                pre.append("extern int f_%d(void);" % l.id)
                terms.append(("f_%d()" % l.id, l.value))
                self.feats.add("objects")
        lw = [l.var for l in f.links] + [m.var for m in ma]
        if lw:
            kw.append("link_with: [%s]" % ", ".join(lw))
        if f.whole:
            kw.append("link_whole: [%s]" % ", ".join(l.var for l in f.whole))
            self.feats.add("link_whole-" + kind)
        if f.deps:
            kw.append("dependencies: [%s]" % ", ".join(p.var for p in f.deps))
        # all the headers must be found: own ones are in the directory of the target
        f.ps, f.libs = ps, libs
        f.hasobj = bool(mo)
        return f, kw, pre, terms, srcs

    def own_args(self, i, kw, pre, terms, lang):
        r = self.r
        if r.random() < .4:
            v = r.randrange(1, 50)
            kw.append("%s_args: ['-DA%d=%d']" % (lang, i, v))
            terms.append(("A%d" % i, v))
        if r.random() < .4:
            v = r.randrange(1, 50)
            d = "inc%d" % i
            self.put("%s/i%d.h" % (d, i), "#define I%d %d\n" % (i, v))
            kw.append("include_directories: %s" % r.choice(["'%s'" % d, "include_directories('%s')" % d]))
            pre.append('#include "i%d.h"' % i)
            terms.append(("I%d" % i, v))

    def lib(self):
        r, i = self.r, self.uid()
        lk = r.choice(["static", "static", "static", "shared", "shared", "both", "library"])
        whole_ok = lk in ("static", "shared")
        f, kw, pre, terms, srcs = self.parts(i, whole_ok, lk)
        lang = "cpp" if self.cpp and r.random() < .3 else "c"
        v = r.randrange(1, 50)
        self.own_args(i, kw, pre, terms, lang)
        terms.append((str(v), v))
        file = "l%d.%s" % (i, lang)
        t = "\n".join(pre) + "\nint f_%d(void) { return %s; }\n" % (i, " + ".join(x for x, _ in terms))
        if lang == "cpp":
            t = "#include <string>\nextern \"C\" {\n" + t + "}\nstd::string *str_%d(const char *s) { return new std::string(s); }\n" % i
            self.feats.add("cpp")
        self.put(file, t)
        ctor = "w%d.c" % i
        self.put(ctor, "#include <stdlib.h>\n__attribute__((constructor)) static void w_%d(void) { setenv(\"W%d\", \"w\", 1); }\n" % (i, i))
        fn = {"static": "static_library", "shared": "shared_library", "both": "both_libraries", "library": "library"}[lk]
        if lk == "shared":
            x = r.random()
            if x < .15:
                kw.append("version: '1.2.3'")
            elif x < .3:
                kw.append("soversion: '4'")
            elif x < .4:
                kw.append("name_prefix: ''")
            if r.random() < .2:
                ds = self.some("D", 1)
                vs = "v%d.map" % i
                self.put(vs, "{ global: *; };\n")
                self.lines.append("vs%d = custom_target('vs%d', input: '%s', output: 'o%d.map', command: ['cp', '@INPUT@', '@OUTPUT@'])" % (i, i, vs, i))
                kw.append("link_args: '-Wl,--version-script=' + vs%d.full_path()" % i)
                kw.append("link_depends: vs%d" % i)
                self.feats.add("link_depends")
        if r.random() < .2:
            kw.append("build_by_default: false")
        if r.random() < .3 and lk != "shared":
            kw.append("install: %s" % r.choice(["true", "false"]))
        sl = ["'%s'" % file, "'%s'" % ctor] + srcs
        r.shuffle(sl)
        self.lines.append("l%d = %s('l%d', %s%s)" % (i, fn, i, ", ".join(sl), "".join(", " + k for k in kw)))
        self.feats.add(lk)
        contents = {i} | (f.contents if lk == "static" else set())
        real = self.dl if lk == "library" else lk
        it = It("L", id=i, var="l%d" % i, lk=lk, value=sum(x for _, x in terms), contents=contents | {-h.id for h in f.pairs} | {-s.id for s in f.srcs + f.dsrcs} | {-m.id for m in f.misc if m.k == "obj"},
                leaf=lk == "static" and not (f.libs or f.misc or f.whole or f.ps) , file=file, dir=self.cur, gensrc=bool(srcs), hasobj=f.hasobj,
                sure=set() if real == "static" else f.contents | {x for p in f.ps for w in p.whole for x in w.contents})
        it.units = f.units if real == "static" or lk in ("both", "library") else {}
        # constructors that certainly run with it: those of a shared library, and of the shared ones below
        it.ctors = set()
        if real in ("shared",):
            it.ctors |= {i} | {c for c in f.contents if c > 0}
        for l in f.libs:
            if l.lk == "shared":
                it.ctors |= l.ctors
        return self.reg(it)

    def dep(self):
        r, i = self.r, self.uid()
        kw = []
        links = self.some("L", 2)
        whole = self.some("L", 1, lambda l: l.lk == "static" and not l.hasobj and l not in links) if r.random() < .3 else []
        deps = self.some("P", 2)
        if self.units(links, deps, whole) is None:
            links = whole = []
            if self.units([], deps) is None:
                deps = []
        hdrs = self.some("H", 2)
        have = set()
        for p in self.closure(deps):
            have |= {s.id for s in p.srcs}
        dsrcs = self.some("S", 1, lambda s: s.id not in have and not s.gen) if r.random() < .4 else []
        if dsrcs:
            us = self.units(links, deps, whole)
            if any(-s.id in c for s in dsrcs for c in us.values()):
                dsrcs = []
            else:
                self.feats.add("dependency-source")
        v, a = r.randrange(1, 50), r.randrange(1, 50)
        d = "pinc%d" % i
        if r.random() < .25 and self.base == "":
            # the header is generated into the build counterpart of the include directory
            self.put("%s/meson.build" % d, "configure_file(output: 'p%d.h', configuration: {'PV%d': %d})\n" % (i, i, v))
            self.lines.append("subdir('%s')" % d)
            self.feats.add("build-include")
        else:
            self.put("%s/p%d.h" % (d, i), "#define PV%d %d\n" % (i, v))
        if links:
            kw.append("link_with: [%s]" % ", ".join(l.var for l in links))
        if whole:
            kw.append("link_whole: [%s]" % ", ".join(l.var for l in whole))
        pre, pl = [], []
        if r.random() < .3:
            k = r.randrange(4)
            pre.append(k)
            if r.random() < .6 or k == 3:
                pl.append("cc.find_library('pre%d', dirs: '%s')" % (k, self.pre))
            else:
                kw.append("link_args: ['-L%s', '-lpre%d']" % (self.pre, k))
            self.feats.add("external")
        if r.random() < .15:
            pl.append("dependency('threads')")
        if deps or pl:
            pl += [p.var for p in deps]
            r.shuffle(pl)
            kw.append("dependencies: [%s]" % ", ".join(pl))
        if hdrs or dsrcs:
            kw.append("sources: [%s]" % ", ".join(h.var for h in hdrs + dsrcs))
        kw.append("compile_args: '-DP%d=%d'" % (i, a))
        kw.append("include_directories: %s" % r.choice(["'%s'" % d, "include_directories('%s')" % d]))
        r.shuffle(kw)
        self.lines.append("p%d = declare_dependency(%s)" % (i, ", ".join(kw)))
        var = "p%d" % i
        it = It("P", id=i, var=var, links=links, whole=whole, deps=deps, hdrs=hdrs, srcs=dsrcs, value=v, argval=a, pre=pre, dir=self.cur)
        x = r.random()
        if x < .1:
            self.lines.append("q%d = %s.as_system('%s')" % (i, var, r.choice(["system", "preserve", "non-system"])))
            it.var = "q%d" % i
            self.feats.add("as_system")
        elif x < .2:
            self.lines.append("q%d = %s.partial_dependency(compile_args: true, includes: true, link_args: true, links: true, sources: true)" % (i, var))
            it.var = "q%d" % i
            self.feats.add("partial")
        return self.reg(it)

    def exe(self):
        r, i = self.r, self.uid()
        f, kw, pre, terms, srcs = self.parts(i, True, "exe")
        self.own_args(i, kw, pre, terms, "c")
        v = r.randrange(1, 50)
        terms.append((str(v), v))
        sure = {c for c in f.contents if c > 0}
        for l in f.libs:
            if l.lk == "shared":
                sure |= l.ctors
        sure = sorted(sure)
        whole = "".join("\t\tprintf(\" %%s\", getenv(\"W%d\") ? \"W%d\" : \"missing%d\");\n" % (w, w, w) for w in sure)
        self.put("e%d.c" % i, EMAIN % {"pre": "\n".join(pre), "expr": " + ".join(x for x, _ in terms), "whole": whole})
        if r.random() < .2:
            kw.append("build_by_default: false")
        if r.random() < .15:
            kw.append("native: false")
        sl = ["'e%d.c'" % i] + srcs
        r.shuffle(sl)
        self.lines.append("e%d = executable('e%d', %s%s)" % (i, i, ", ".join(sl), "".join(", " + k for k in kw)))
        return self.reg(It("E", id=i, var="e%d" % i, value=sum(x for _, x in terms), sure=sure, path=("subprojects/sp/" if self.base else "") + self.path("e%d" % i), dir=self.cur))

    def render(self):
        langs = "'c', 'cpp'" if self.cpp else "'c'"
        head = ["project('p', %s, default_options: ['default_library=%s', 'warning_level=0'])" % (langs, self.dl), "tool = find_program('tool.sh')", "cc = meson.get_compiler('c')"]
        if "sp" in self.text:
            self.files["subprojects/sp/meson.build"] = "\n".join(["project('sp', 'c')", "tool = find_program('tool.sh')", "cc = meson.get_compiler('c')"] + self.text["sp"]) + "\n"
            head.append(self.sptext)
        top = head[:]
        for d in self.dirs:
            if d and "/" not in d:
                top.append("subdir('%s')" % d)
        for d in self.dirs:
            if d:
                sub = ["subdir('n')"] if d == "d1" and "d1/n" in self.dirs else []
                self.files[d + "/meson.build"] = "\n".join(sub + self.text[d]) + "\n"
        self.files["meson.build"] = "\n".join(top + self.text[""]) + "\n"


class Case:
    def __init__(self, ck, i):
        self.ck, self.i = ck, i
        self.r = ck.rng("project", i)
        self.top = ck.tmp("g%d" % i)
        os.chmod(self.top, 0o777)
        self.src = os.path.join(self.top, self.r.choice(["src", "src", "src", "s rc"]))
        self.b = os.path.join(self.top, "b")
        self.p = Proj(self.r, self.r.choice([4, 6, 8, 12, 18]), ck.pre)

    def fail(self, key, detail):
        files = {}
        for f, t in self.p.files.items():
            files["src/" + f] = t
        bn = os.path.join(self.b, "build.ninja")
        if os.path.exists(bn):
            files["build.ninja"] = read(bn)
        self.ck.violation(key, detail, files)

    def sh(self, argv, cwd=None, env=None, timeout=120):
        return run(argv, cwd=cwd or self.src, user=65534, env=env, timeout=timeout, merge=True)

    def setup(self):
        return self.sh([self.ck.muon, "setup", self.b])

    def programs(self, how):
        for e in self.p.all:
            if e.kind != "E":
                continue
            path = os.path.join(self.b, e.path)
            want = "%d%s\n" % (e.value, "".join(" W%d" % w for w in e.sure))
            res = self.sh([path])
            self.ck.count("programs_run")
            if res.rc != 0 or res.text != want:
                self.fail("behaviour", "%s: program %s prints %r (rc=%s), the sources describe %r" % (how, e.path, res.text[:300], res.rc, want))
                return False
        return True

    def go(self):
        try:
            self.work()
        finally:
            shutil.rmtree(self.top, ignore_errors=True)

    def work(self):
        ck, r = self.ck, self.r
        for f, t in self.p.files.items():
            write(os.path.join(self.src, f), t)
            os.chmod(os.path.join(self.src, f), 0o755)
        for d, _, _ in os.walk(self.src):
            os.chmod(d, 0o777)
        res = self.setup()
        if crashed(res):
            return self.fail("crash", "setup: rc=%s %s" % (res.rc, res.text[-600:]))
        if res.rc != 0:
            return self.fail("setup", "setup refuses the project: %s" % res.text[-1500:])
        try:
            m = manifest.Manifest(read(os.path.join(self.b, "build.ninja")).decode())
            order = m.closure()
        except ValueError as e:
            return self.fail("manifest", "build.ninja: %s" % e)
        if not self.execute(m, order):
            return
        if not self.programs("one command at a time"):
            return
        ck.case("graph %d" % self.i, 1, "%d edges, %s" % (len(m.edges), " ".join(sorted(self.p.feats))))
        for f in self.p.feats:
            ck.count("feature_" + f)
        if self.i % 3 == 0:
            shutil.rmtree(self.b)
            self.setup()
            j = r.choice(["1", "2", "8"])
            argv = r.choice([[ck.muon, "-C", self.b, "samu", "-j", j], ["ninja", "-C", self.b, "-j", j]]) if shutil.which("ninja") else [ck.muon, "-C", self.b, "samu", "-j", j]
            more = [e.path for e in self.p.all if e.kind == "E"]
            res = self.sh(argv + (["all"] if False else []))
            res2 = self.sh(argv + more) if res.rc == 0 and more else res
            if res.rc != 0 or res2.rc != 0 or crashed(res):
                return self.fail("parallel", "%s fails: %s" % (" ".join(argv), (res.text + res2.text)[-800:]))
            if not self.programs(os.path.basename(argv[0])):
                return
            ck.count("parallel_builds")

    def execute(self, m, order):
        ck, r = self.ck, self.r
        real = os.path.realpath(self.b)
        log = os.path.join(self.top, "trace")
        left = {e.n: e for e in m.edges}
        for e in list(left.values()):
            if e.rule in ("REGENERATE_BUILD",) or "build.ninja" in e.outs:
                del left[e.n]
        style = r.choice(["late", "early", "random", "reverse"])

        def weight(e):
            comp = "compiler" in e.rule or "linker" in e.rule
            return {"late": (not comp, r.random()), "early": (comp, r.random()), "random": r.random(), "reverse": -e.n}[style]
        done = set(e.n for e in m.edges) - set(left)
        while left:
            ready = [e for e in left.values() if all(m.by_out[p].n in done for p in e.ins + e.imp + e.order if p in m.by_out)]
            if not ready:
                self.fail("manifest", "no command can run: %s" % [e.outs for e in left.values()][:5])
                return False
            e = min(ready, key=weight)
            del left[e.n]
            done.add(e.n)
            cmd = m.command(e)
            for p in e.ins + e.imp + e.order:
                if p not in m.by_out and not os.path.lexists(os.path.join(self.b, p)):
                    self.fail("input", "%s needs %s, which nothing makes" % (e.outs, p))
                    return False
            if not cmd:
                continue
            for o in e.outs + e.imp_outs:
                os.makedirs(os.path.dirname(os.path.join(self.b, o)), exist_ok=True)
                os.chmod(os.path.dirname(os.path.join(self.b, o)), 0o777)
                d = os.path.dirname(os.path.join(self.b, o))
                while len(d) > len(self.b):
                    os.chmod(d, 0o777)
                    d = os.path.dirname(d)
            open(log, "w").close()
            os.chmod(log, 0o666)
            rsp = m.get(e, "rspfile")
            if rsp:
                write(os.path.join(self.b, rsp), m.get(e, "rspfile_content"))
            res = self.sh(["/bin/sh", "-c", cmd], cwd=self.b, env={"LD_PRELOAD": ck.trace, "TRACE_LOG": log, "TRACE_ROOT": real + "/", "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0"})
            ck.count("commands_run")
            if res.rc != 0:
                self.fail("command", "a command fails in the order '%s': %s\n%s\n%s" % (style, e.outs, cmd[:1500], res.text[-1000:]))
                return False
            seen = set(os.path.relpath(l, real) for l in read(log).decode().split("\n") if l)
            mine = set(e.outs + e.imp_outs)
            before = order[e.n]
            for p in sorted(seen):
                d = m.by_out.get(p)
                if d is None or p in mine:
                    continue
                ck.count("reads_of_products")
                if d.n not in before:
                    self.fail("order", "%s reads %s but is not ordered after the command that makes it\n%s" % (e.outs, p, cmd[:1500]))
                    return False
            for o in e.outs:
                if not os.path.lexists(os.path.join(self.b, o)) and e.rule != "phony" and not re.search(r"(^|/)([a-z]+@@)?(r\d+)$", o):
                    self.fail("output", "%s is not made by its command\n%s" % (o, cmd[:1000]))
                    return False
        return True


def body(ck):
    ck.rule = "a generated acyclic graph of targets built one command at a time with every read recorded; distinct by its seed"
    ck.assumptions += ["targets are acyclic; headers used by a source are listed in its target or in the sources of a dependency of it"]
    ck.muon = build("plain")
    ck.trace = os.path.join(ck.scratch, "trace.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", ck.trace, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "trace.c"), "-ldl"], check=True)
    os.chmod(ck.trace, 0o755)
    ck.pre = os.path.join(ck.scratch, "pre")
    os.makedirs(ck.pre)
    for k in range(3):
        write(ck.pre + "/pre%d.c" % k, "int pre%d(void) { return %d; }\n" % (k, 1000 + k))
        subprocess.run("gcc -fPIC -c -o pre%d.o pre%d.c && ar rc libpre%d.a pre%d.o" % (k, k, k, k), shell=True, check=True, cwd=ck.pre)
    # the last one is shared
    write(ck.pre + "/pre3.c", "int pre3(void) { return 1003; }\n")
    subprocess.run("gcc -fPIC -shared -Wl,-soname,libpre3.so -o libpre3.so pre3.c", shell=True, check=True, cwd=ck.pre)
    os.chmod(ck.pre, 0o755)
    ck.map(lambda i: Case(ck, i).go(), range(ck.n(200, 2500)))
    ck.finish(min_evals=60)


if __name__ == "__main__":
    main("C13", body)
