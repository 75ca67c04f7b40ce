#!/usr/bin/env python3
"""C12: configure_file output is the template with exactly the defined substitutions.

Templates are generated from tokens (variables, escapes, lone markers, define lines, arbitrary bytes); the
expected file comes from the Meson definition as a regular expression with alternatives where the
definition leaves the spelling open."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

KEYS = ["A", "B", "ab", "HAVE_X", "x-y", "n1", "9", "_", "VERSION", "name", "LONG_" + "K" * 60, "Z", "true", "define", "mesondefine"]
MARK = {"meson": (b"@", b"@"), "cmake": (b"${", b"}"), "cmake@": (b"@", b"@")}
RE = {"@": re.compile(rb"(?:\\\\)+(?=\\?@)|\\@|@([-a-zA-Z0-9_]+)@"),
      "$": re.compile(rb"(?:\\\\)+(?=\\?\$\{)|\\\$\{|\$\{([-a-zA-Z0-9_]+)\}")}
STR = ["", "v", "1.2.3", '"quoted"', "two words", "back\\slash", "é€", "%s %d%%", "*/", "a'b", "@A@", "${A}", "\\@", "tab\there", "//", "#x", "x" * 3000,
       "-", "0", "true", "\\\\", "$HOME", "a;b", "{}", "@", "nl\nnl"]


def value(r):
    k = r.randrange(10)
    return r.random() < .5 if k < 2 else r.choice([0, 1, -1, 42, 2 ** 31, -2 ** 63, 2 ** 63 - 1, 255]) if k < 4 else r.choice(STR)


def lit(v):
    # the most negative number has no literal of its own
    return ("true" if v else "false") if isinstance(v, bool) else "(-9223372036854775807 - 1)" if v == -2 ** 63 else str(v) if isinstance(v, int) else quote(v)


def alts(v):
    """spellings of a value in running text"""
    if isinstance(v, bool):
        return [b"true", b"True", b"1"] if v else [b"false", b"False", b"0"]
    return [str(v).encode()]


def rx(a):
    return b"(?:" + b"|".join(map(re.escape, a)) + b")"


def subst(s, conf, fmt, unknown):
    out, at = b"", 0
    for m in RE["$" if fmt == "cmake" else "@"].finditer(s):
        out += re.escape(s[at:m.start()])
        at = m.end()
        t = m.group(0)
        if t.endswith(b"\\"):
            out += re.escape(b"\\" * (len(t) // 2))
        elif t.startswith(b"\\"):
            out += re.escape(t[1:])
        else:
            k = m.group(1).decode()
            if k in conf:
                out += rx(alts(conf[k]))
            else:
                unknown.append(k)
    return out + re.escape(s[at:])


def define_line(line, conf, fmt):
    """regular expression of the result of a define line"""
    m = re.match(rb"#(?:meson|cmake)define[ \t]+([-a-zA-Z0-9_]+)[ \t]*(@[^@]*@)?[ \t]*(\r?\n|\Z)", line)
    k, eol = m.group(1), m.group(3)
    eol = rx([b"\n", b"\r\n"]) if eol == b"\r\n" else rb"\n?" if not eol else rb"\n"
    n = re.escape(k)
    if k.decode() not in conf:
        return rb"/\* #?undef " + n + rb" \*/" + eol
    v = conf[k.decode()]
    if v is True:
        return b"#define " + n + (b"" if fmt == "meson" else b"(?: 1)?") + eol
    if v is False:
        return (b"#undef " + n if fmt == "meson" else rb"(?:#undef " + n + rb"|/\* #?undef " + n + rb" \*/)") + eol
    v = str(v).encode()
    return b"#define " + n + (b" " + re.escape(v) if v else b"[ ]?") + eol


def expected(t, conf, fmt, unknown):
    out = b""
    for line in t.splitlines(keepends=True) if 0 else re.findall(rb"[^\n]*\n|[^\n]+\Z", t):
        if line.startswith(b"#mesondefine" if fmt == "meson" else b"#cmakedefine "):
            out += define_line(line, conf, fmt)
        else:
            out += subst(line, conf, fmt, unknown)
    return out


def template(r, conf, fmt):
    a, b = MARK[fmt]
    # of the keys that may stand in a define line, where nested substitution is left open
    dk = [k for k in KEYS if k not in conf or not (isinstance(conf[k], str) and re.search(r"[@$\n\t]|^ | $", conf[k]))]
    if fmt != "meson":
        dk = [k for k in dk if k in conf and conf[k] not in ("", 0)] or ["ZZ"]

    def tok():
        k = r.randrange(16)
        if k < 4 and conf:
            return a + r.choice(sorted(conf)).encode() + b
        if k == 4 and conf:
            return b"\\" * r.randrange(1, 6) + a + r.choice(sorted(conf)).encode() + b
        if k == 5:
            return b"\\" * r.randrange(1, 5) + b" "
        if k == 6:
            return b"\\" * r.randrange(1, 4) + a + b" "
        if k == 7:
            return r.choice([a, a + b" x " + b, a + b, a + b"A", a + b"a.b" + b, a + b"A ", b"A" + b, b"user" + a + b"example.com", a + a + b + b, a + b"\n"])
        if k == 8:
            return r.choice([b"\r\n", b"\n", b"\n\n", b"\t", b"\x0c", b"\xc2\x85"])
        if k == 9:
            return bytes(r.randrange(128, 256) for _ in range(3)) if r.random() < .7 else b"\x01\x00\x7f"
        if k == 10:
            return r.choice([b" #mesondefined", b"# mesondefine A", b"x #mesondefine A", b"/* c */", b"#define X 1", b"//#mesondefine A", b"#undef Q"]) if fmt == "meson" \
                else r.choice([b"x #mesondefine A", b"#define X", b"# cmakedefine"])
        if k == 11:
            return b"w" * r.choice([1, 2, 3, 10, 10, 200, r.choice([1000, 1023, 1024, 4095])])
        return r.choice([b"text", b" ", b"int x = 1;", b"a", b"%d", b"'", b'"', b"{", b"}"])
    L = []
    for _ in range(r.randrange(0, 9)):
        if r.random() < .3:
            d = b"#mesondefine" if fmt == "meson" else b"#cmakedefine"
            n = r.choice(dk).encode()
            sp = r.choice([b" ", b" ", b" ", b"  ", b"\t"]) if fmt == "meson" else r.choice([b" ", b" ", b"  "])
            tail = b" @" + n + b"@" if fmt != "meson" and r.random() < .5 else b""
            L.append(d + sp + n + tail + r.choice([b"", b"", b" ", b"\t "]) + r.choice([b"\n", b"\n", b"\n", b"\r\n"]))
        else:
            L.append(b"".join(tok() for _ in range(r.randrange(0, 7))) + r.choice([b"\n", b"\n", b"\n", b"\r\n"]))
    t = b"".join(L)
    if t and r.random() < .3:
        t = t[:-1]
        if t.endswith(b"\r"):
            t = t[:-1]
    if b"\x00" in t:
        # only as plain text
        t = b"".join(x.replace(b"\0", b"") if x.startswith(b"#") else x for x in t.splitlines(keepends=True))
    return t


def conf_src(r, name, conf):
    """statements that build the configuration"""
    if r.random() < .25:
        return ["%s = {%s}" % (name, ", ".join("%s: %s" % (quote(k), lit(v)) for k, v in conf.items()))]
    L, todo, have = [], list(conf.items()), {}
    merge = []
    if r.random() < .3:
        merge = todo[:len(todo) // 2]
        todo = todo[len(merge):]
    if r.random() < .3:
        L.append("%s = configuration_data({%s})" % (name, ", ".join("%s: %s" % (quote(k), lit(v)) for k, v in todo)))
        todo = []
    else:
        L.append("%s = configuration_data()" % name)
    for k, v in todo:
        d = ", description: %s" % quote(r.choice(["what", "a 'b'", "two\nlines", "*/"])) if r.random() < .2 else ""
        if r.random() < .15:
            L.append("%s.set(%s, 'overwritten')" % (name, quote(k)))
        if v in (0, 1) and not isinstance(v, bool) and r.random() < .7:
            L.append("%s.set10(%s, %s%s)" % (name, quote(k), "true" if v else "false", d))
        elif isinstance(v, str) and len(v) > 1 and v[0] == v[-1] == '"' and '"' not in v[1:-1]:
            L.append("%s.set_quoted(%s, %s%s)" % (name, quote(k), quote(v[1:-1]), d))
        else:
            L.append("%s.set(%s, %s%s)" % (name, quote(k), lit(v), d))
    if merge:
        L.append("%s_m = configuration_data()" % name)
        for k, v in merge:
            if r.random() < .3:
                L.append("%s.set(%s, 'old')" % (name, quote(k)))
            L.append("%s_m.set(%s, %s)" % (name, quote(k), lit(v)))
        L.append("%s.merge_from(%s_m)" % (name, name))
        if r.random() < .3:
            k, v = merge[0]
            L.append("%s_m.set(%s, 'later')" % (name, quote(k)))
    for k, v in conf.items():
        if r.random() < .4:
            L.append("assert(%s.get(%s) == %s)" % (name, quote(k), lit(v)))
        if r.random() < .2:
            L.append("assert(%s.has(%s) and %s.get(%s, 'dflt') == %s)" % (name, quote(k), name, quote(k), lit(v)))
        if r.random() < .3 and isinstance(v, str):
            u = v[1:-1] if len(v) > 1 and v[0] == v[-1] == '"' else v
            L.append("assert(%s.get_unquoted(%s) == %s)" % (name, quote(k), lit(u)))
        if r.random() < .2:
            L.append("assert(%s in %s.keys())" % (quote(k), name))
    if r.random() < .4:
        L.append("assert(not %s.has('absent') and %s.get('absent', 'dflt') == 'dflt' and %s.get_unquoted('absent', '\"d\"') == 'd' and 'absent' not in %s.keys())" % ((name,) * 4))
        L.append("assert(%s.keys().length() == %d)" % (name, len(conf)))
    return L


def header(data, conf, ch):
    """problems of a header listing exactly conf"""
    t = data.decode("utf-8", "surrogateescape")
    got = {}
    t = re.sub(r"\A\s*/\*.*?\*/", "", t, flags=re.S)
    for l in t.split("\n"):
        m = re.match(r"%s(define|undef) (\S+)(?: (.*))?\Z" % re.escape(ch), l, re.S)
        if m:
            got.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
    for k, v in conf.items():
        w = ("define" if v is not False else "undef", "" if isinstance(v, bool) else str(v))
        g = got.pop(k, [])
        if len(g) != 1 or g[0][0] != w[0] or (g[0][1] or "") != w[1]:
            return "%s = %r is listed as %r" % (k, v, g)
    return "%r are listed" % sorted(got) if got else None


def some_conf(r, header=False):
    c = {k: value(r) for k in r.sample(KEYS, r.randrange(0, len(KEYS)))}
    if header:
        c = {k: v for k, v in c.items() if not isinstance(v, str) or not re.search(r"[\n\t]|^ | $", v)}
        if r.random() < .1:
            c.update(("K%d" % i, i) for i in range(r.choice([20, 300])))
    return c


class Proj:
    """one project with several configure_file calls, all expected to succeed"""

    def __init__(self, r, prb):
        self.L, self.files, self.exp = ["project('p')"], {}, []
        for j in range(r.randrange(2, 6)):
            k = r.randrange(10)
            conf = some_conf(r, k == 0)
            if k == 0:
                fmt = r.choice([None, "c", "nasm"])
                self.L += conf_src(r, "c%d" % j, conf)
                self.L.append("configure_file(output: 'o%d', configuration: c%d%s)" % (j, j, ", output_format: '%s'" % fmt if fmt else ""))
                self.exp.append(("o%d" % j, (lambda d, conf=conf, ch="%" if fmt == "nasm" else "#": header(d, conf, ch)), "header"))
            elif k == 1:
                data = r.choice([b"", b"plain\n", bytes(r.randrange(256) for _ in range(500)), b"@A@\n#mesondefine A\n", b"x" * 200001])
                self.files["i%d" % j] = data
                self.L.append("configure_file(input: %s, output: 'o%d', copy: true)" % (r.choice(["'i%d'", "files('i%d')", "['i%d']"]) % j, j))
                self.exp.append(("o%d" % j, (lambda d, data=data: None if d == data else "copy differs"), "copy"))
            elif k == 2:
                data = r.choice([b"", b"plain", bytes(r.randrange(256) for _ in range(300)), b"a\r\n\0b", b"z" * 20000])
                self.L.append("configure_file(output: 'o%d', capture: true, command: ['%s', 'out=%s'])" % (j, prb, data.hex()))
                self.exp.append(("o%d" % j, (lambda d, data=data: None if d == data else "captured output differs"), "capture"))
            else:
                fmt = r.choice(["meson", "meson", "meson", "cmake", "cmake@"])
                while 1:
                    unknown = []
                    t = template(r, conf, fmt)
                    e = expected(t, conf, fmt, unknown)
                    if not unknown:
                        break
                self.L += conf_src(r, "c%d" % j, conf)
                inp, out = "i%d" % j, "o%d" % j
                if r.random() < .3:
                    inp, o, out = r.choice([("i%d.h.in" % j, "@BASENAME@", "i%d.h" % j), ("i%d.in" % j, "p @PLAINNAME@.x", "p i%d.in.x" % j),
                                            ("i%d.in" % j, "@BASENAME@_@BASENAME@", "i%d_i%d" % (j, j)), ("n%d" % j, "b@BASENAME@", "bn%d" % j)])
                else:
                    o = out
                self.files[inp] = t
                self.L.append("configure_file(input: %s, output: '%s', configuration: c%d%s)" % (
                    r.choice(["'%s'", "files('%s')", "['%s']"]) % inp, o, j, ", format: '%s'" % fmt if fmt != "meson" or r.random() < .2 else ""))
                if r.random() < .1:
                    self.L[-1] = self.L[-1][:-1] + ", copy: false)"
                pat = re.compile(e, re.S)
                self.exp.append((out, (lambda d, p=pat, t=t: None if p.fullmatch(d) else "template %r gave %r\n(expected %r)" % (t[:600], d[:600], p.pattern[:600])), "template"))
        self.files["meson.build"] = "\n".join(self.L) + "\n"


def good(ck, prb):
    jobs = []
    for i in range(ck.n(1600, 20000)):
        p = Proj(ck.rng("good", i), prb)
        jobs.append(Job(["setup", "build"], p.files, tag=p))

    def chk(j, d):
        p = j.tag
        ck.case(p.files["meson.build"])
        k = crashed(j.res)
        if k or j.res.rc != 0:
            ck.violation(k or "refused", j.res.text[-1500:] + p.files["meson.build"][:2500], p.files)
            return
        for o, f, kind in p.exp:
            ck.count(kind)
            fn = os.path.join(d, "build", o)
            if not os.path.exists(fn):
                ck.violation("missing", o + "\n" + p.files["meson.build"][:2500], p.files)
                return
            e = f(read(fn))
            if e:
                ck.violation(kind, "%s: %s\n%s" % (o, e[:2500], p.files["meson.build"][:1500]), p.files)
                return
    run_jobs(ck, jobs, fn=chk)


def bad(ck):
    """templates and calls that must be reported"""
    jobs = []
    for i in range(ck.n(500, 5000)):
        r = ck.rng("bad", i)
        conf = some_conf(r)
        k = r.randrange(7)
        fmt = r.choice(["meson", "cmake", "cmake@"])
        a, b = MARK[fmt]
        files = {}
        L = ["project('p')"] + conf_src(r, "c", conf)
        t = template(r, conf, fmt)
        call = "configure_file(input: 'i', output: 'o', configuration: c, format: '%s')" % fmt
        name = None
        if k < 3:
            u = []
            expected(t, conf, fmt, u)
            if u:
                continue
            name = r.choice(["UNKNOWN", "a" * 50, "A_", "a"])
            t += r.choice([b"\n", b"x ", b""]) + a + name.encode() + b + r.choice([b"", b"\n", b" more\n"])
            if t.count(b"\\") or b"\\" + a in t:
                t = a + name.encode() + b
        elif k == 3:
            t = r.choice([b"", b"text\n"]) + r.choice([b"#mesondefine\n", b"#mesondefine A B\n", b"#mesondefine", b"#mesondefine  \nx", b"#mesondefine A 1", b"#mesondefine A B\r\n"])
            call = "configure_file(input: 'i', output: 'o', configuration: c)"
        elif k == 4:
            call = "configure_file(input: 'i', output: 'o', configuration: {'A': %s})" % r.choice(["[]", "['x', 'y']", "{}"])
            t = r.choice([b"#mesondefine A\n"])
        elif k == 5:
            call = r.choice(["configure_file(input: 'nope', output: 'o', configuration: c)", "configure_file(input: 'i', output: 'd/o', configuration: c)",
                             "configure_file(input: 'i', output: 'o', configuration: c, copy: true)", "configure_file(input: 'i', output: 'o')",
                             "configure_file(input: 'i', output: 'o', configuration: c, format: 'nope')", "configure_file(output: 'o', configuration: c, output_format: 'nope')",
                             "configure_file(input: ['i', 'i'], output: 'o', configuration: c)", "configure_file(input: 'i', configuration: c)",
                             "configure_file(input: ['i', 'i'], output: '@BASENAME@', copy: true)", "configure_file(output: 'o', capture: true, command: ['false'])",
                             "configure_file(output: 'o', capture: true, command: ['/nonexistent/prog'])"])
        else:
            call = "error(c.get%s('absent'))" % r.choice(["", "_unquoted"])
            L = ["project('p')", "c = configuration_data(%s)" % r.choice(["", "{'a': 1}"]), "x = c.get%s('absent')" % r.choice(["", "_unquoted"])]
            call = ""
        files["i"] = t
        files["meson.build"] = "\n".join(L + [call]) + "\n"
        jobs.append(Job(["setup", "build"], files, tag=(k, name)))

    def chk(j, d):
        ck.case(j.files["meson.build"] + repr(j.files["i"]))
        ck.count("refusals")
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation(k or "timeout", j.res.text[-1500:] + j.files["meson.build"][:2500], j.files)
        elif j.res.rc == 0 and not (j.tag[1] and re.search(r"warn[^\n]*%s|%s[^\n]*\n?[^\n]*(not found|not present|unknown)" % (j.tag[1], j.tag[1]), j.res.text)):
            ck.violation("accepted", "expected an error\n%s\n%r\n%s" % (j.files["meson.build"][:1500], j.files["i"][:500], j.res.text[-600:]), j.files)
    run_jobs(ck, jobs, fn=chk)


def touch(ck, prb, muon):
    """an unchanged result does not touch the file, a changed one replaces it"""
    def one(i):
        r = ck.rng("touch", i)
        p = Proj(r, prb)
        d = ck.tmp("t")
        for n, s in p.files.items():
            write(os.path.join(d, n), s)
        os.chmod(d, 0o777)
        subprocess.run(["chown", "-R", "65534:65534", d])

        def setup():
            res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
            if crashed(res) or res.rc != 0:
                ck.violation("setup:" + str(crashed(res) or "failed"), res.text[-1500:] + p.files["meson.build"], p.files)
                return False
            return True
        if not setup():
            return
        old = 1500000000 * 10 ** 9
        changed = r.choice(p.exp)[0] if r.random() < .5 else None
        for o, _, _ in p.exp:
            f = os.path.join(d, "build", o)
            if o == changed:
                data = read(f)
                # same length where possible, so that only the bytes tell
                data = (bytes([data[0] ^ 1]) + data[1:] if r.random() < .5 else data[:-1] if r.random() < .5 else data + b"\n") if data else b"x"
                with open(f, "wb") as fh:
                    fh.write(data)
            os.utime(f, ns=(old, old))
        if not setup():
            return
        for o, f, kind in p.exp:
            fn = os.path.join(d, "build", o)
            ck.count("second_runs")
            e = f(read(fn))
            if e:
                ck.violation("stale", "%s: %s\n%s" % (o, e[:1500], p.files["meson.build"][:1500]), p.files)
            t = os.stat(fn).st_mtime_ns != old
            if t != (o == changed):
                ck.violation("touched" if t else "not-rewritten", "%s (%s)\n%s" % (o, kind, p.files["meson.build"][:2500]), p.files)
        ck.case("t" + p.files["meson.build"])
        shutil.rmtree(d, ignore_errors=True)
    ck.map(one, range(ck.n(120, 1500)))


def body(ck):
    ck.rule = "one case is one generated project with several configure_file calls; every output file is compared as a whole"
    prb, muon = probe(), build("asan")
    good(ck, prb)
    bad(ck)
    touch(ck, prb, muon)
    ck.assumptions = ["left open: booleans in running text, spelling of undef comments, line end of a define line with CRLF or at the end of the file, "
                      "values of define lines that contain markers themselves, #cmakedefine01, @VAR@ in cmake templates"]
    ck.finish(min_evals=500)


if __name__ == "__main__":
    main("C12", body)
