"""C21: every kind of data file muon reads, valid, damaged and hostile, under sanitizers."""
import os, re, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, btgraph
from vlib import Job, main, run, run_jobs

TOKENS = {
    "ninja": ["rule", "build", " phony", "include", "subninja", "default", "pool", " depth = ", "$", "$$", "$\n", "${in}", "$in", "${", "}", "$a", ":", "|", "||",
              "|@", "=", "\n  ", "\n", "\t", "#", "restat = 1", "generator = 1", "command = ", "deps = gcc", "depfile = ", "ninja_required_version = 99",
              "rspfile = ", "rspfile_content = ", "dyndep = ", "builddir = ", "./", "../", "//", " " * 200, "\r\n", "a/" * 70, "console"],
    "log": ["# ninja log v5\n", "\t", "0", "-1", "99999999999999999999", "ffffffffffffffffff", "a.o", "\n", "\n\n", "x", " "],
    "deps": ["\x00", "\xff\xff\xff\xff", "\x00\x00\x00\x80", "\x04\x00\x00\x00", "\x08\x00\x00\x00", "\x0c\x00\x00\x80", "# ninjadeps\n", "\xfe\xff\xff\xff"],
    "dep": [":", " ", "\\\n", "\\", "\\\\", "\\ ", "\\#", "$$", "$", "\n", "\n\n", "\r\n", "\xff", "\x00", "a.h", "../", "/", "a.o", "\t"],
    "ini": ["[", "]", "=", "\n", "\n=", "=\n", " ", "#", ";", "[*", "[]", "[*]\n", "{a,b}", "{1..3}", "\\", "**", "?", "[!a]", "\x00", "\xff", "root = true\n", "true", "false",
            "-1", "99999999999", "4"],
    "json": ["{", "}", "[", "]", ",", ":", '"', "\\u0041", "\\u", "\\ud800", "\\", "null", "true", "1e999", "-", "0x1", "99999999999999999999", " "],
    "pc": ["${", "}", "prefix=", "Name: ", "Requires: ", "Requires.private: ", "Libs: ", "Cflags: ", "Version: ", ">=", "-L", "-l", "${prefix}", "\\\n", "#", "\n", "'", '"',
           "${pc_sysrootdir}", "Conflicts: ", "Provides: "],
    "tap": ["ok ", "not ok ", "1..", "1..0", "1..99999999999999999999", "Bail out!", " # TODO", " # SKIP", "#", "\n", "ok", "not ok", "TAP version 13\n", "  ---\n", "  ...\n",
            "pragma +strict\n", "-1", "\x00", "\xff"],
}
HUGE = {"ninja": b"$a", "json": b"[", "dep": b"\\", "ini": b"[", "pc": b"${", "tap": b"ok\n", "log": b"\t", "deps": b"\0"}


def mutate(r, seed, toks, others, kind):
    d = bytearray(seed)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6, 12])):
        k = r.randrange(14)
        n = len(d)
        p = r.randrange(n + 1)
        if k == 0 and n:
            d[p % n] = r.randrange(256)
        elif k == 1 and n:
            d[p % n] ^= 1 << r.randrange(8)
        elif k == 2:
            del d[p:p + r.choice([1, 1, 2, 4, 20])]
        elif k in (3, 4, 5):
            d[p:p] = r.choice(toks).encode("latin1")
        elif k == 6:
            q = min(n, p + r.choice([1, 4, 16, 60]))
            d[p:p] = d[p:q] * r.choice([1, 1, 2, 8])
        elif k == 7:
            del d[p:]
        elif k == 8:
            o = r.choice(others)
            a = r.randrange(len(o) + 1)
            d[p:p + r.choice([0, 0, 8])] = o[a:a + r.choice([4, 16, 100])]
        elif k == 9 and n >= 4:
            q = (p % n) & ~3
            d[q:q + 4] = struct.pack("<I", r.choice([0, 1, 2, 3, 4, 7, 8, 12, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x8000000c, 1 << 19, (1 << 19) + 4,
                                                     r.randrange(64), r.getrandbits(32)]))
        elif k == 10:
            ls = bytes(d).split(b"\n")
            i = r.randrange(len(ls))
            w = r.randrange(4)
            if w == 0:
                del ls[i]
            elif w == 1:
                ls.insert(i, r.choice(ls))
            elif w == 2:
                ls[i] = ls[i].strip()
            else:
                r.shuffle(ls)
            d = bytearray(b"\n".join(ls))
        elif k == 11:
            d[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8, 40])))
        elif k == 12 and r.random() < .3:
            d[p:p] = HUGE.get(kind, b"A") * r.choice([100, 1000, 5000])
        elif k == 13 and r.random() < .5 and d[-1:] == b"\n":
            del d[-1:]
    return bytes(d[:200000])


NINJA = [b"""ninja_required_version = 1.5
builddir = bd
cflags = -O2 $
  -g
pool link
  depth = 2
rule cc
  command = cc $cflags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CC $out
rule ld
  command = cc -o $out @$out.rsp
  rspfile = $out.rsp
  rspfile_content = $in_newline
  pool = link
  restat = 1
rule regen
  command = regen
  generator = 1
  pool = console
build a.o: cc a.c | gen.h || order
build b$ b.o | extra: cc b$:c.c
  cflags = -O0
build prog: ld a.o b$ b.o | gen.h || a.o
build order: phony gen.h
build gen.h: ld in$$put
build build.ninja: regen build.in
default prog order
include other.ninja
subninja other.ninja
""", b"""rule r
  command = echo $a ${b} $$ $: $ x > $out
a = 1
b = $a$a
build x y | z : r in1 in2 | in3 || in4
  a = 2
build all: phony x
default all
""", b"rule r\n command = $command\nbuild a: r\n", b"build a: phony b\nbuild b: phony a\n", b"rule r\n command = c $x\n x = $y\n y = $x\nbuild o: r i\n",
         b"include build.ninja\n", b"subninja build.ninja\n", b"pool p\n depth = -1\nrule r\n command = true\n pool = p\nbuild a: r\n", b"", b"\n", b"#", b"\t", b" ",
         b"pool p\n depth =\n", b"rule r\n command =\nbuild a: r\n", b"default\n", b"default x", b"build : phony\n", b"build a$\n", b"ninja_required_version =\n",
         b"rule r\n command = x\nbuild a: r a\n", b"builddir =\n", b"include\n", b"include nonexistent\n", b"rule\n", b"build a: nosuch\n", b"x = $\n", b"x = ${a",
         b"rule r\n command = x\n rspfile = a\nbuild a: r\n", b"a" * 5000 + b" = 1\n", b"build " + b"a/" * 80 + b": phony\n", b"build /: phony\nbuild x: phony /\ndefault x\n"]

GRAPH = b"""rule cc
  command = cp $in $out
  depfile = $out.d
  deps = gcc
rule gen
  command = true
rule plain
  command = cp $in $out
  depfile = $out.d
rule rs
  command = true
  restat = 1
build a.o: cc a.c || g
build b.o: cc b.c
build c.o: plain a.c
build g: gen a.c
build r: rs a.c
build all: phony a.o b.o c.o g r
default all
"""


def nodes(*paths):
    out = b"# ninjadeps\n" + struct.pack("<I", 4)
    for i, p in enumerate(paths):
        b = p.encode()
        b += b"\0" * (-len(b) % 4)
        out += struct.pack("<I", len(b) + 4) + b + struct.pack("<I", ~i & 0xffffffff)
    return out


def dep(out, mtime, *ids):
    return struct.pack("<IIII", 0x80000000 | (12 + 4 * len(ids)), out, mtime & 0xffffffff, mtime >> 32) + b"".join(struct.pack("<I", i) for i in ids)


DEPS = [nodes("a.o", "a.h", "b.h", "b.o", "c.h") + dep(0, 2 ** 62, 1, 2) + dep(3, 2 ** 62, 2, 4), nodes("a.o") + dep(0, 5), nodes("a.o", "a.o") + dep(1, 2 ** 62, 0),
        nodes("a.o", "x") + dep(1, 1, 0) + dep(0, 2 ** 63, 0, 0, 0), b"", b"# ninjadeps\n", b"# ninjadeps", b"x", nodes(),
        b"# ninjadeps\n" + struct.pack("<II", 4, 8) + b"\0\0\0\0" + b"\xff" * 4, b"# ninjadeps\n" + struct.pack("<II", 4, 4) + b"\xff" * 4,
        b"# ninjadeps\n" + struct.pack("<II", 4, 0), nodes("a.o") + struct.pack("<I", 0x80000000 | 12) + b"\0\0\0", nodes("a.o") + dep(0, 2 ** 62, 0),
        nodes(*["n%d" % i for i in range(1500)]) + dep(3, 2 ** 62, *range(1500)), nodes("a.o", "../" * 300 + "x") + dep(0, 2 ** 62, 1),
        nodes(*(["h%d" % i for i in range(1030)] + ["a.o", "b.o"])) + dep(1030, 2 ** 62, *range(1030)) + dep(1031, 2 ** 62, 1030)]
LOGS = [b"# ninja log v5\n0\t0\t%d\ta.o\tdeadbeef\n0\t0\t5\tb.o\t1\n1\t2\t%d\tr\tabc\n" % (2 ** 62, 2 ** 62), b"# ninja log v5\n", b"", b"# ninja log v4\nx", b"# ninja log v5\n\t\t\t\t\n",
        b"# ninja log v5\n0\t0\t99999999999999999999999\ta.o\tffffffffffffffffffffff\n", b"# ninja log v5", b"\n", b"# ninja log v5\n0\t0\t1\ta.o", b"# ninja log v5\r\n0\t0\t1\ta.o\tff\r\n",
        b"# ninja log v5\n0\t0\t-9223372036854775808\tr\t0\n0\t0\t-1\ta.o\t0\n"]
DEPFILES = [b"a.o: a.c \\\n a.h b\\ c.h d\\#e $$f\n\na.h:\n\nb\\ c.h:\n", b"a.o:", b"a.o", b"", b":", b"a.o: \\", b"a.o: a\\", b"a.o: \\\\\\ x \\\\ y\n", b"a.o a.d : x\\\ny z\r\n", b"a.o: $", b"a.o:\xff\xfe x\n",
            b"C:\\a.o: C:\\b.h\n", b"a.o:a.h\n", b"\\", b"$", b"a.o: a\0b\n", b"a.o: " + b"x/" * 80 + b"y\n", b"a.o: / // . .. ./ ../..\n", b"a.o: a.o\n", b"a.o: " + b"\\" * 501 + b"\n"]
WRAP = [b"[wrap-file]\ndirectory = foo-1.0\nsource_url = file:///nonexistent/foo.tar\nsource_filename = foo-1.0.tar.gz\nsource_hash = " + b"0" * 64 +
        b"\npatch_directory = foo\n\n[provide]\nfoo = foo_dep\ndependency_names = a, b,c\nprogram_names = p\n",
        b"[wrap-git]\nurl = file:///nonexistent\nrevision = head\ndepth = 1\n[provide]\nx = y\n", b"[provide]\n=x\n", b"[wrap-file]\n= \n", b"[wrap-file", b"[]\n", b"=", b"[wrap-file]\ndirectory =\n",
        b"x = y\n[wrap-file]\n", b"[wrap-file]\nsource_url = x\nsource_url = y\n", b"", b"[wrap-file]\n[wrap-git]\n", b"[wrap-file]\ndirectory = ../../x\nsource_url=a\nsource_hash=z\nsource_filename=f\n",
        b"[provide]\ndependency_names = ,, ,\n", b"[wrap-file]\ndirectory = foo\npatch_directory = nosuch\n[provide]\na=\n"]
EDITOR = [b"root = true\n\n[*]\nindent_style = tab\nindent_size = 2\n[*.{build,txt}]\nindent_size = tab\ntab_width = 3\n[meson.build]\nindent_style = space\n[**/x[abc]?.build]\nindent_size=1\n[m*n.build]\nindent_size = 5\n",
          b"[*]\nindent_size = 5000\n", b"[*]\nindent_size = -5\n", b"[\\", b"[\\]\nindent_size=1\n", b"[[a]\nindent_size = 3\n", b"[[]\na=b\n", b"[{]\na=b\n", b"[*{a,b}*]\nindent_size=2\n", b"[a*b*c*d*e*f*g*]\nx=1\n",
          b"[]\na=b\n", b"[***]\na=b\n[**\n", b"[!]\na=b\n", b"[{1..9}]\na=b\n", b"= \n", b"[*]\nindent_size=\n", b"[*]\n =x\n", b"[*]\nindent_size = tab\ntab_width = tab\n", b"[" + b"*" * 60 + b"z]\na=b\n",
          b"[[!a]eson.build]\nindent_size=7\n", b"[" + b"{a,b}" * 40 + b"]\nx=y\n", b"[meson.build\\]\nindent_size=3\n", b"[*]\nindent_size = 99999999999999999999\n"]
FMTCFG = [b"max_line_len = 80\nindent_by = '    '\nspace_array = false\nkwargs_force_multiline = true\nwide_colon = true\nno_single_comma_function = true\nuse_editor_config=true\nsort_files = true\n"
          b"group_arg_value = true\nsimplify_string_literals = true\ninsert_final_newline = false\nsticky_parens=true\ncontinuation_indent=true\n",
          b"max_line_len = -1\n", b"max_line_len = 99999999999999999999\n", b"max_line_len = 0\n", b"indent_by = '\n", b"indent_by = '\\", b"indent_by = ''\n", b"x\n", b"=\n", b"[s]\nmax_line_len=1\n", b"indent_by\n",
          b"indent_style=tab\nindent_size=400\ntab_width=3\nend_of_line=crlf\n", b"space_array = maybe\n", b"indent_by = '" + b"x" * 3000 + b"'\n", b"max_line_len = \n", b"indent_by = 1\n"]
KEYVAL = [b"A=1\nB = two words \n# c\n\nC=\nD==x\nnoval\n=x\n  =  \n", b"=", b"=\n", b" =\n", b"\t=\t", b"A=1", b"", b"A", b"A = \n", b"\n\n=\n", b"A=\0B\n", b"\xff=\xff\n", b"A" * 9000 + b"=" + b"B" * 9000, b"#\n;\n",
          b"CONFIG_X=y\nCONFIG_Y=\"str\"\n"]
JSON = [b'{"a": "b", "purelib": "/x", "n": 1, "neg": -12, "t": true, "f": false, "o": {"x": "y\\u0041\\n"}}', b"{}", b"[]", b"", b"{", b'{"a":', b'{"a":1,}', b'{"a":null}', b'{"a":[1,2,{"b":[]}]}',
        b'{"a":"\\', b'{"a":"\\u12"}', b'{"a":1.5e10}', b'{"":""}', b'{"a":99999999999999999999}', b"[" * 3000, b'{"a":' * 300 + b"1" + b"}" * 300, b'"x"', b"1", b'{"a":"\\ud800\\udc00\\u0000"}']
PC = [b"prefix=/usr\nlibdir=${prefix}/lib\nName: foo\nDescription: d\nVersion: 1.2\nRequires: bar >= 1\nRequires.private: baz\nLibs: -L${libdir} -lfoo 'a b'\nLibs.private: -lm\nCflags: -I${prefix}/include -DX=\\\"a\\\"\n",
      b"Name: foo\nDescription: x\nVersion: ${v}\nv=${v}\n", b"Name: foo\nDescription:\nVersion: 1\nRequires: foo\n", b"", b"Version:\n", b"Name: foo\nDescription: d\nVersion: 1\nLibs: -L\nCflags: -I\n", b"Name: foo\nDescription: d\nVersion: 1\nLibs: \"x\n",
      b"Name: foo\nDescription: d\nVersion: 1\nLibs: -Wl,-rpath,/x -framework A -pthread /abs/lib.a -l -L -lx -lx\n", b"Name: foo\nDescription: d\nVersion: 1\nCflags: -isystem /x -idirafter y -D\n"]
TAP = [b"TAP version 13\n1..3\nok 1 - a\nnot ok 2 # TODO x\nok 3 # SKIP\n", b"1..0 # skip\n", b"ok", b"not ok", b"1..99999999999999999999\nok\n", b"1..-1\n", b"Bail out!\n", b"", b"ok\0\n", b"\0\n", b"1..\n1..x\n", b"ok # \n", b"ok # todo\nok # Skip", b"# \n",
       b"ok 1\n" * 3000, b"1..2\n1..3\nok\nok\n", b"  ok nested\n    1..1\nok 1\n"]


def check(ck):
    vlib.build("asan")
    stats = {}

    def sink(kind):
        def done(j, d):
            r = j.res
            if r.timeout:
                with ck.lock:
                    slow.append((kind, j))
                return
            c = vlib.crashed(r)
            stats[(kind, "ok" if r.rc == 0 else "err")] = stats.get((kind, "ok" if r.rc == 0 else "err"), 0) + 1
            if c or r.rc not in (0, 1, 2):
                ck.violation("%s:%s" % (kind, c or "status %s" % r.rc), "%s ends in %s\n%s" % (j.argv, c or r.rc, r.text[-2500:]), j.files)
            ck.case((kind, j.tag) if not isinstance(j.tag, bytes) else (kind, hash(j.tag)))
        return done
    slow = []

    def fuzz(kind, seeds, toks, mk, n, env=None, extra_seeds=()):
        r = ck.rng(kind)
        jobs = []
        for s in seeds:
            jobs += mk(r, s)
        alls = list(seeds)
        while len(jobs) < n:
            jobs += mk(r, mutate(r, r.choice(alls if r.random() < .5 else alls[:2]), TOKENS[toks], alls, toks))
        del slow[:]
        run_jobs(ck, jobs, fn=sink(kind), env=env)
        for kind_, j in list(slow):
            # alone, with more time: a busy machine is not an endless loop
            jj = Job(j.argv, j.files, j.stdin, j.tag, 90, j.cwd)
            run_jobs(ck, [jj], chunk=1, env=env)
            if jj.res.timeout:
                ck.violation("%s:hang" % kind_, "%s does not end" % j.argv, j.files)
        ck.count("inputs_" + kind, len(jobs))

    N = ck.n(1, 25)
    src = {"a.c": b"x", "b.c": b"y", "b:c.c": b"", "in$put": b"", "build.in": b""}

    def ninja(r, d):
        argv = r.choice([["samu", "-n"], ["samu", "-n", "-j0", "-k0"], ["samu", "-n", "-v", "-d", "explain"], ["samu", "-t", "commands"], ["samu", "-t", "targets", "all"],
                         ["samu", "-t", "targets", "depth", "0"], ["samu", "-t", "graph"], ["samu", "-t", "query", "a.o"], ["samu", "-t", "compdb", "cc", "r"], ["samu", "-n", "-w", "dupbuild=warn", "all"]])
        f = dict(src)
        f["build.ninja"] = d
        f["other.ninja"] = b"x = 1\nrule other\n  command = echo\nbuild oth$x: other\n"
        return [Job(argv, f, tag=d)]
    fuzz("ninja", NINJA, "ninja", ninja, 1200 * N)

    def log(name):
        def mk(r, d):
            f = {"build.ninja": GRAPH, "a.c": b"x", "b.c": b"y", name: d, "c.o.d": b"c.o: a.c\n"}
            if r.random() < .6:
                f.update({"a.o": b"", "b.o": b"", "c.o": b"", "g": b"", "r": b"", "a.h": b"", "b.h": b"", "c.h": b""})
            if r.random() < .3:
                f["a.o.d"] = b"a.o: a.h new.h a.o\n"
                f["new.h"] = b""
            return [Job(["samu", "-j2"], f, tag=d)]
        return mk
    fuzz("ninja_log", LOGS, "log", log(".ninja_log"), 500 * N)
    fuzz("ninja_deps", DEPS, "deps", log(".ninja_deps"), 700 * N)

    def depfile(r, d):
        if r.random() < .5:
            return [Job(["samu", "c.o"], {"build.ninja": GRAPH, "a.c": b"x", "c.o": b"", "c.o.d": d}, tag=d)]
        g = GRAPH.replace(b"command = cp $in $out\n  depfile = $out.d\n  deps", b"command = cp $in $out && cp dep $out.d\n  depfile = $out.d\n  deps")
        return [Job(["samu", "a.o"], {"build.ninja": g, "a.c": b"x", "dep": d}, tag=d)]
    fuzz("depfile", DEPFILES, "dep", depfile, 500 * N)

    def wrap(r, d):
        if r.random() < .5:
            return [Job(["subprojects", "check-wrap", "x.wrap"], {"x.wrap": d}, tag=d)]
        return [Job(["setup", "-Dwrap_mode=nodownload", "build"], {"meson.build": b"project('p')\nsubproject('x', required: false)\ndependency('foo', required: false)\ndependency('a', required: false)\n",
                     "subprojects/x.wrap": d, "subprojects/foo-1.0/meson.build": b"project('x')\nfoo_dep = declare_dependency()\nmeson.override_dependency('a', foo_dep)\n"}, tag=d)]
    fuzz("wrap", WRAP, "ini", wrap, 500 * N)

    FILE = b"project('x', 'c')\nfoo(a, b: [1, 2, 3], # c\n  d: {'x': 'y'})\nif a and b\n  x = 'a' + f'b@c@'\nendif\n"
    fuzz("editorconfig", EDITOR, "ini", lambda r, d: [Job(["fmt", "-e", r.choice(["meson.build", "sub/xa1.build", "meson.build"])],
                                                          {".editorconfig": d, "meson.build": FILE, "sub/xa1.build": FILE}, tag=d, timeout=10)], 600 * N)
    fuzz("fmt_config", FMTCFG, "ini", lambda r, d: [Job(["fmt", "-c", "fmt.ini", "meson.build"], {"fmt.ini": d, "meson.build": FILE}, tag=d)], 500 * N)
    fuzz("keyval", KEYVAL, "ini", lambda r, d: [Job(["internal", "eval", "x.build"], {"x.build": b"d = import('keyval').load('f')\nforeach k, v : d\n  message(k, '<' + v + '>')\nendforeach\n",
                                                                                        "f": d}, tag=d)], 500 * N)
    fake = os.path.join(ck.scratch, "python3")
    vlib.write(fake, "#!/bin/sh\ncase \"$2\" in *version*) case \"$2\" in *sysconfig*) ;; *) echo 3.12; exit;; esac;; esac\ncat data.json\n")
    os.chmod(fake, 0o755)
    fuzz("json", JSON, "json", lambda r, d: [Job(["setup", "build"], {"meson.build": "project('p')\npy = import('python').find_installation('%s', required: false)\nif py.found()\nmessage(py.get_path('purelib', 'd'), py.get_variable('a', 'd'), py.has_path('o'))\nendif\n" % fake,
                                                                       "data.json": d}, tag=d)], 500 * N)
    # one process reads the manifest of a project for each .pc file
    PROJ = b"project('p')\nforeach s : [false, true]\n  d = dependency('foo', required: false, static: s, version: ['>=0'])\n  if d.found()\n    message(d.version(), d.get_variable(pkgconfig: 'libdir', default_value: 'x'), d.partial_dependency(links: true).found())\n  endif\nendforeach\n"
    fuzz("pkgconfig", PC, "pc", lambda r, d: [Job(["setup", "build"], {"meson.build": PROJ, "foo.pc": d, "bar.pc": b"Name: bar\nDescription: b\nVersion: 2\nLibs: -lbar\n", "baz.pc": d.replace(b"foo", b"baz")}, tag=d)],
         300 * N, env={"PKG_CONFIG_PATH": ".", "PKG_CONFIG_LIBDIR": "."})
    tap(ck, N)
    elf(ck, N)
    ck.extra["by_kind"] = {"%s_%s" % k: v for k, v in sorted(stats.items())}
    ck.rule = "distinct (kind of file, bytes) given to muon; by_kind says how many ended well and how many in an error"
    ck.assumptions += ["pkg-config files are read by libpkgconf, whose own code is not instrumented: only deaths by signal are seen there"]
    ck.finish(ck.n(4000, 80000))


def tap(ck, N):
    muon = vlib.build("asan")
    PER = 40

    def one(b):
        r = ck.rng("tap", b)
        base = ck.tmp("tap")
        try:
            os.chmod(base, 0o777)
            data = [mutate(r, r.choice(TAP), TOKENS["tap"], TAP, "tap") if b or i >= len(TAP) else TAP[i] for i in range(PER)]
            for i, d in enumerate(data):
                vlib.write(os.path.join(base, "d%d" % i), d)
            vlib.write(os.path.join(base, "meson.build"), "project('p')\ncat = find_program('cat')\nforeach i : range(%d)\n  test('t@0@'.format(i), cat, args: files('d@0@'.format(i)), protocol: 'tap')\nendforeach\n" % PER)
            subprocess.run(["chown", "-R", "65534:65534", base])
            a = run([muon, "setup", "build"], cwd=base, user=65534, merge=True)
            if a.rc != 0:
                raise vlib.HarnessError("tap project: " + a.text[-800:])
            t = run([muon, "-C", "build", "test"], cwd=base, user=65534, merge=True, timeout=120)
            c = "hang" if t.timeout else vlib.crashed(t)
            if c:
                ck.violation("tap:" + c, "muon test ends in %s\n%s" % (c, t.text[-2000:]), {"d%d" % i: d for i, d in enumerate(data)})
            for d in data:
                ck.case(("tap", hash(d)))
            ck.count("inputs_tap", PER)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    ck.map(one, range(8 * N))


def elf(ck, N):
    """Installed executables whose bytes were changed after they were linked."""
    muon = vlib.build("asan")
    PER = 24

    def one(b):
        r = ck.rng("elf", b)
        base = ck.tmp("elf")
        try:
            os.chmod(base, 0o777)
            vlib.write(os.path.join(base, "m.c"), "int main(void) { return 0; }\n")
            vlib.write(os.path.join(base, "meson.build"), "project('p', 'c')\nforeach i : range(%d)\n  executable('e@0@'.format(i), 'm.c', install: true, build_rpath: '/nowhere')\nendforeach\n" % PER)
            subprocess.run(["chown", "-R", "65534:65534", base])
            a = run([muon, "setup", "-Dprefix=/usr", "build"], cwd=base, user=65534, merge=True)
            if a.rc != 0:
                raise vlib.HarnessError("elf project: " + a.text[-800:])
            good = []
            for flags in (["-Wl,-rpath,%s/build/lib:/usr/x:%s/build" % (base, base)], ["-Wl,--disable-new-dtags", "-Wl,-rpath,%s/build" % base],
                          ["-shared", "-fPIC", "-Wl,-rpath,%s/build:/a" % base], ["-static"], ["-s", "-Wl,-rpath,%s/build" % base]):
                o = os.path.join(base, "good")
                subprocess.run(["gcc", "-w", "-o", o, os.path.join(base, "m.c")] + flags, check=True)
                good.append(vlib.read(o))
            for rnd in range(ck.n(12, 200)):
                datas = []
                for i in range(PER):
                    d = crafted(r, base) if r.random() < .4 else hit(r, r.choice(good))
                    datas.append(d)
                    vlib.write(os.path.join(base, "build", "e%d" % i), d)
                    os.chown(os.path.join(base, "build", "e%d" % i), 65534, 65534)
                t = run([muon, "-C", "build", "install"], cwd=base, user=65534, merge=True, timeout=120, env={"DESTDIR": base + "/dest"})
                c = "hang" if t.timeout else vlib.crashed(t)
                if c or t.rc not in (0, 1):
                    ck.violation("elf:%s" % (c or t.rc), "muon install ends in %s\n%s" % (c or t.rc, t.text[-2500:]), {"e%d" % i: d for i, d in enumerate(datas)})
                for d in datas:
                    ck.case(("elf", hash(d)))
                ck.count("inputs_elf", PER)
                shutil.rmtree(os.path.join(base, "dest"), ignore_errors=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    ck.map(one, range(8))


def hit(r, good):
    """An ELF file with changes where they matter: header, section headers, dynamic section."""
    d = bytearray(good)
    cls = d[4]
    shoff = struct.unpack_from("<Q", d, 40)[0]
    entsize, num = struct.unpack_from("<HH", d, 58)
    for _ in range(r.choice([1, 1, 2, 3])):
        if len(d) < 64:
            break
        k = r.randrange(8)
        if k == 0:
            d[r.randrange(64)] = r.randrange(256)
        elif k == 1:
            struct.pack_into("<Q", d, 40, r.choice([0, 1, len(d), len(d) - 1, 2 ** 63, 2 ** 64 - 1, shoff + 1]))
        elif k == 2:
            struct.pack_into("<HH", d, 58, r.choice([0, 1, 16, 40, 64, 65, 2048, 2049, 65535]), r.choice([0, 1, num, num + 5, 65535]))
        elif k == 3 and num:
            o = shoff + 64 * r.randrange(num) + r.choice([4, 24, 32, 40, 56])
            if o + 8 <= len(d):
                struct.pack_into("<Q", d, o, r.choice([0, 1, 6, 8, 15, 16, 17, 2048, 2049, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63, 2 ** 64 - 1]))
        elif k == 4:
            del d[r.randrange(len(d)):]
        elif k == 5:
            d[4:6] = bytes([r.choice([0, 1, 2, 3]), r.choice([0, 1, 2, 3])])
        elif k == 6 and num:
            # the dynamic section
            for s in range(num):
                o = shoff + 64 * s
                if o + 64 <= len(d) and struct.unpack_from("<I", d, o + 4)[0] == 6:
                    off, size = struct.unpack_from("<QQ", d, o + 24)
                    if size and off + size <= len(d):
                        p = off + 16 * r.randrange(size // 16)
                        struct.pack_into("<QQ", d, p, r.choice([0, 15, 29, 29, 1879048245, 5]), r.choice([0, 1, len(d), 2 ** 32, 2 ** 32 - 1, 2 ** 63, r.randrange(2000)]))
        else:
            p = r.randrange(len(d) + 1)
            d[p:p] = bytes(r.randrange(1, 40))
    return bytes(d)


def crafted(r, base):
    """A small made-up ELF file of either class with a dynamic section and strings."""
    c64 = r.random() < .6
    rp = r.choice(["%s/build" % base, "/a:%s/build/x" % base, "", ":", "::", "/usr/lib", "%s/build:" % base, "x" * 3000]).encode()
    strs = b"\0" + rp + (b"\0" if r.random() < .9 else b"")
    ent = 16 if c64 else 8
    D = []
    for _ in range(r.randrange(0, 5)):
        D.append((r.choice([15, 29, 29, 1, 1879048245]), r.choice([1, 1, 1, 0, len(strs), 10 ** 6])))
    D.append((0, 0))
    dyn = b"".join(struct.pack("<qQ" if c64 else "<iI", t, v) for t, v in D)
    eh = 64 if c64 else 52
    sh = 64 if c64 else 40
    so, do = eh, eh + len(strs)
    ho = do + len(dyn)

    def sect(t, off, size, es):
        return struct.pack("<IIQQQQIIQQ", 0, t, 0, 0, off, size, 0, 0, 1, es) if c64 else struct.pack("<IIIIIIIIII", 0, t, 0, 0, off, size, 0, 0, 1, es)
    es = r.choice([ent, ent, ent, 0, 1, ent - 1, ent + 1, 2048, 2049, 4096, 2 ** 31])
    sects = [sect(0, 0, 0, 0), sect(6, do, r.choice([len(dyn), len(dyn), 0, 10 ** 9]), es), sect(3, so, len(strs), 0)]
    r.shuffle(sects)
    shsz = r.choice([sh, sh, sh, sh, 0, 1, sh - 1, 2048, 3000])
    num = r.choice([len(sects), len(sects), 1, 0, 200])
    ident = b"\x7fELF" + bytes([2 if c64 else 1, r.choice([1, 1, 1, 2]), 1, 0]) + b"\0" * 8
    if c64:
        h = ident + struct.pack("<HHIQQQIHHHHHH", 3, 62, 1, 0, 0, ho, 0, 64, 0, 0, shsz, num, 0)
    else:
        h = ident + struct.pack("<HHIIIIIHHHHHH", 3, 3, 1, 0, 0, ho, 0, 52, 0, 0, shsz, num, 0)
    return h + strs + dyn + b"".join(sects)


if __name__ == "__main__":
    main("C21", check)
