#!/usr/bin/env python3
"""C18: output, status and environment of commands come back complete and exact.

lib/probe.c writes known bytes in known chunks to both streams, with pauses, and records what it was given.
run_command(): comparisons against literals in the generated build file itself; captured and fed custom
targets and generators: the files on disk; compiler.run(): the same comparisons."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

CH = ["a", "line\n", "\n", " ", "\t", "é", "\udcff", "\\", "'", "%s", "@X@", "\x1b[1m", "${X}", "\r\n", "0", "%"]
BIN = [bytes([b]) for b in (0, 1, 10, 13, 32, 39, 64, 92, 127, 128, 255)]
SIZES = [0, 1, 2, 5, 40, 300, 4095, 4096, 4097, 8192, 12000, 30000]


def content(r, n, binary=False):
    """n bytes and a little"""
    if not n:
        return b""
    L = [r.choice(BIN) for _ in range(12)] if binary else [r.choice(CH).encode("utf-8", "surrogateescape") for _ in range(12)]
    unit = b"".join(L) or b"x"
    s = unit * (n // len(unit) + 1)
    return s[:n]


def u8(b):
    return b.decode("utf-8", "surrogateescape")


class Streams:
    """probe arguments that write, and what they write"""
    def __init__(self, r, d, files, binary=False, big=False, base="files", cmdline=None):
        self.args, self.out, self.err = [], b"", b""
        for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12])):
            k = r.randrange(12)
            n = r.choice(SIZES if cmdline is None else SIZES[:6])
            if k < 5:
                b = content(r, n, binary)
                self.args.append("out=" + b.hex())
                self.out += b
            elif k < 8:
                b = content(r, n, binary)
                self.args.append("err=" + b.hex())
                self.err += b
            elif k == 8:
                self.args.append("sleep=%d" % r.choice([1, 3, 8, 20]))
            elif k == 9:
                b = content(r, r.choice([1, 3, 20, 90]), binary)
                self.args.append("drip=" + b.hex())
                self.out += b
            else:
                n = r.choice([65535, 65536, 65537, 131072, 200000] if big or r.random() < .25 else [4096, 40000, 70000])
                if big and r.random() < .3:
                    n = r.choice([1000000, 3000000])
                b = content(r, n, binary)
                name = "f%d" % len(files)
                files["%s/%s" % (base, name)] = b
                if r.random() < .6 and not big:
                    self.args.append("ecat=@DIR@/%s/%s" % (base, name))
                    self.err += b
                else:
                    # cat uses stdio: nothing of ours is buffered there
                    self.args.append("cat=@DIR@/%s/%s" % (base, name))
                    self.out += b
        # the total of an argument vector is limited
        if sum(map(len, self.args)) > (cmdline or 700000) or any(len(a) > 120000 for a in self.args):
            self.__init__(r, d, files, binary, big, base, cmdline)

    def closing(self, r):
        if r.random() < .12:
            self.args.append("close=%d" % r.choice([1, 2]))
            if r.random() < .5:
                self.args.append("sleep=%d" % r.choice([2, 10]))


def arr(a):
    return "[" + ", ".join("dir / %s" % quote(x[6:]) if x.startswith("@DIR@/") else
                           ("'%s' + dir + %s" % (x.split("@DIR@")[0], quote(x.split("@DIR@")[1])) if "@DIR@" in x else quote(x)) for x in a) + "]"


def run_commands(r, big):
    """meson.build text, files, expected messages"""
    files = {}
    L = ["project('p')", "dir = meson.current_source_dir()", "probe = find_program('probe')", "fs = import('fs')"]
    n = 0
    for _ in range(r.randrange(2, 7)):
        s = Streams(r, None, files, big=False)
        rc = r.choice([0, 0, 0, 1, 2, 77, 126, 127, 128, 137, 200, 255])
        s.closing(r)
        a = s.args + (["exit=%d" % rc] if rc else [])
        if r.random() < .1:
            a.append("child=%d" % r.choice([5, 40, 120]))
        if r.random() < .08:
            a.append("daemon=%d" % r.choice([5, 40]))
        kw, cap = [], True
        if r.random() < .3:
            cap = r.random() < .5
            kw.append("capture: " + ("true" if cap else "false"))
        if rc == 0 and r.random() < .5 or r.random() < .4:
            kw.append("check: " + ("true" if rc == 0 else "false"))
        r.shuffle(kw)
        v = "r%d" % n
        L.append("%s = run_command(probe, %s)" % (v, ", ".join([arr(a)] + kw)))
        for what, want in (("stdout", s.out if cap else b""), ("stderr", s.err if cap else b"")):
            L.append("if %s.%s() == %s\n  message('GOOD')\nelse\n  message('BAD %s %s')\nendif" % (v, what, quote(u8(want)), v, what))
        L.append("if %s.returncode() == %d\n  message('GOOD')\nelse\n  message('BAD %s returncode', %s.returncode())\nendif" % (v, rc, v, v))
        n += 1
    files["meson.build"] = "\n".join(L) + "\nmessage('THE END')\n"
    return files, 3 * n


EKEYS = ["A", "B_1", "lower", "LONG" * 20, "PATHX", "E", "HOME2"]
EVALS = ["", "x", "a b", "a=b", "=", "$HOME", "'q'", '"', "\\", "l1\nl2", "é", "\udcfe", "a:b", "%", "y" * 5000, " ", "a;b"]


def env_case(r, inherited):
    """an env value: (prelude, expression, expected dict of set variables)"""
    k = r.randrange(5)
    want = {}
    if k == 0:
        ks = r.sample(EKEYS, r.randrange(1, 5))
        for x in ks:
            want[x] = r.choice(EVALS)
        return "", "{" + ", ".join("%s: %s" % (quote(x), quote(v)) for x, v in want.items()) + "}", want
    if k == 1:
        ks = r.sample(EKEYS, r.randrange(1, 5))
        for x in ks:
            want[x] = r.choice(EVALS)
        return "", "[" + ", ".join(quote(x + "=" + v) for x, v in want.items()) + "]", want
    if k == 2:
        x, v = r.choice(EKEYS), r.choice(EVALS)
        return "", quote(x + "=" + v), {x: v}
    L = []
    if k == 3 and r.random() < .5:
        x, v = r.choice(EKEYS), r.choice(EVALS)
        L.append("e = environment({%s: %s})" % (quote(x), quote(v)))
        want[x] = v
    else:
        L.append("e = environment()")
    for _ in range(r.randrange(1, 7)):
        x = r.choice(EKEYS[:4] + ["INH"])
        vs = [r.choice(EVALS) for _ in range(r.choice([1, 1, 2, 3]))]
        sep = r.choice([None, None, ":", ",", "", "--", " "])
        m = r.choice(["set", "append", "prepend"])
        L.append("e.%s(%s, %s%s)" % (m, quote(x), ", ".join(map(quote, vs)), "" if sep is None else ", separator: " + quote(sep)))
        sep = ":" if sep is None else sep
        j = sep.join(vs)
        cur = want.get(x, inherited.get(x))
        want[x] = j if m == "set" or cur is None else cur + sep + j if m == "append" else j + sep + cur
    return "\n".join(L) + "\n", "e", want


def env_project(r, inherited):
    L = ["project('p')", "dir = meson.current_source_dir()", "probe = find_program('probe')"]
    want = {}
    for i in range(r.randrange(2, 5)):
        pre, e, w = env_case(r, inherited)
        if pre:
            L.append(pre.rstrip())
        how = r.randrange(3)
        ident = "e%d" % i
        if how < 2:
            L.append("run_command(probe, 'id=%s', 'dump=' + meson.current_build_dir() / 'dump', env: %s, check: true)" % (ident, e))
        else:
            L.append("custom_target('%s', output: '%s', command: [probe, 'id=%s', 'dump=' + meson.current_build_dir() / 'dump', 'touch=@OUTPUT@'], env: %s, build_by_default: true)" % (ident, ident, ident, e))
        want[ident] = w
    return {"meson.build": "\n".join(L) + "\n"}, want


def dumped(path):
    out, cur = {}, None
    if not os.path.exists(path):
        return out
    for l in read(path).decode().splitlines():
        k, _, v = l.partition(" ")
        if k == "RUN":
            cur = dict(A=[], V={}, I=None)
            out.setdefault(v, []).append(cur)
        elif k == "A":
            cur["A"].append(u8(bytes.fromhex(v)))
        elif k == "V":
            a, _, b = u8(bytes.fromhex(v)).partition("=")
            cur["V"][a] = b
        elif k == "I":
            cur["I"] = bytes.fromhex(v)
    return out


OWN_ENV = {"MUON_PATH", "MESON_BUILD_ROOT", "MESON_SOURCE_ROOT", "MESON_SUBDIR", "PWD", "OLDPWD", "SHLVL", "_", "MESONINTROSPECT"}
INH = {"PATH": "/usr/bin:/bin", "HOME": "/tmp", "INH": "inherited one", "LC_ALL": "C.UTF-8"}


class Targets:
    """captured, fed, failing custom targets and generators"""
    def __init__(self, r, k):
        self.files, self.want, self.fed, self.bad, self.no = {}, {}, {}, [], []
        L = ["project('p')", "dir = meson.current_source_dir()", "probe = find_program('probe')"]
        fails = r.random() < .3
        for i in range(r.randrange(1, 5)):
            s = Streams(r, None, self.files, binary=r.random() < .5, big=r.random() < .4, cmdline=60000)
            kind = r.choice(["capture", "capture", "feed", "both", "gen"])
            name = r.choice(["o%d", "out put%d", "é%d.x", "-o%d", "o$%d", "o'%d"]) % i
            ident = "c%d" % i
            a = ["id=" + ident]
            kw = ["output: " + quote(name)]
            if kind in ("feed", "both", "gen"):
                src = "in%d" % i
                self.files[src] = content(r, r.choice(SIZES + [65536, 65537, 300000]), True)
                kw.append("input: '%s'" % src)
                if kind != "gen":
                    kw.append("feed: true")
                    a.append("dumpin=@DIR@/dump")
                    self.fed[ident] = self.files[src]
            if fails and kind in ("capture", "both") and not self.bad:
                a += s.args + [r.choice(["exit=1", "exit=77", "exit=255", "sig=9", "sig=11"])]
                self.bad.append(name)
            else:
                a += s.args
                if kind in ("capture", "both"):
                    self.want[name] = s.out
            if kind in ("capture", "both"):
                kw.append("capture: true")
            if kind == "feed":
                a.append("touch=@OUTPUT@")
            env = ""
            if r.random() < .2:
                kw.append("env: {'K': 'v w'}")
            cmd = "[probe] + %s" % arr([x for x in a if x != "touch=@OUTPUT@"])
            if "touch=@OUTPUT@" in a:
                cmd += " + ['touch=@OUTPUT@']"
            if kind == "gen":
                L.append("g%d = generator(probe, output: '@BASENAME@.g', capture: true, arguments: %s)" % (i, arr(a)))
                L.append("custom_target('t%d', output: '%s', input: g%d.process('%s'), command: [probe, 'cat=@INPUT@'], capture: true, build_by_default: true)" % (i, ident + ".gen", i, src))
                self.want[ident + ".gen"] = s.out
            else:
                r.shuffle(kw)
                L.append("custom_target('t%d', %s, command: %s, build_by_default: true)" % (i, ", ".join(kw), cmd))
        self.files["meson.build"] = "\n".join(L) + "\n"


NOSTART = ["run_command('/nonexistent/prog')", "run_command('no-such-program-anywhere')", "run_command(files('plain.txt'))",
           "run_command(files('badint'))", "run_command('./badint')", "run_command(dir / 'sub')", "run_command(dir / 'plain.txt')",
           "run_command(probe, 'sig=9')", "run_command(probe, 'out=6161', 'sig=11')", "run_command(probe, 'sig=15', check: false)",
           "run_command(probe, 'exit=1', check: true)", "run_command(probe, 'exit=255', check: true)", "run_command(probe, 'err=61', 'exit=3', check: true)",
           "run_command(probe, 'out=6161', 'exit=77', check: true, capture: false)", "run_command('')",
           "run_command(probe, 'sig=9', check: true)"]


def body(ck):
    ck.rule = "one case is one observed command"
    prb = probe()
    pf = read(prb)
    exe = {"probe": (pf, 0o755)}

    def prep(d):
        shutil.copy(prb, os.path.join(d, "probe"))
        os.chmod(os.path.join(d, "probe"), 0o755)
        subprocess.run(["chown", "-R", "65534:65534", d])

    # A: run_command streams and status
    muon = build("asan")

    def project(files, argvs, timeout=90, env=None):
        d = ck.tmp("p")
        for n, s in files.items():
            write(os.path.join(d, n), s)
        prep(d)
        out = []
        for a in argvs:
            res = run([muon] + a, cwd=d, user=65534, merge=True, timeout=timeout, env=env)
            if res.timeout:
                res = run([muon] + a, cwd=d, user=65534, merge=True, timeout=400, env=env)
            out.append(res)
            if crashed(res) or res.timeout or res.rc != 0:
                break
        return d, out

    def show(files):
        return "\n".join("--- %s (%d)\n%s" % (n, len(s), (u8(s) if isinstance(s, bytes) else s)[:1800]) for n, s in sorted(files.items(), key=lambda x: x[0] != "meson.build")[:3])

    def streams(i):
        r = ck.rng("rc", i)
        files, n = run_commands(r, False)
        d, (res,) = project(files, [["setup", "build"]])
        k = crashed(res)
        if k or res.timeout:
            ck.violation("crash:" + str(k or "hang"), res.text[-1500:] + show(files), files)
        elif res.rc != 0:
            ck.violation("refused", res.text[-1500:] + show(files), files)
        else:
            bad = [l for l in res.text.splitlines() if "BAD" in l]
            good = res.text.count("GOOD")
            if bad or good != n or "THE END" not in res.text:
                ck.violation("differs:" + (bad[0].split()[-1] if bad and "returncode" not in bad[0] else "status"), "%s\n%s" % (bad, show(files)), files)
        ck.case(files["meson.build"], n // 3)
        ck.count("commands", n // 3)
        shutil.rmtree(d, ignore_errors=True)
    ck.map(streams, range(ck.n(150, 3000)))

    def envs(i):
        r = ck.rng("env", i)
        files, want = env_project(r, INH)
        env = INH
        d, rs = project(files, [["setup", "build"], ["-C", "build", "samu"]], env=env)
        res = rs[-1]
        k = crashed(res)
        if k or res.timeout or res.rc != 0:
            ck.violation("env:" + str(k or ("hang" if res.timeout else "refused")), res.text[-1500:] + show(files), files)
        else:
            got = dumped(os.path.join(d, "build", "dump"))
            for ident, w in want.items():
                ck.case(files["meson.build"] + ident)
                ck.count("environments")
                if len(got.get(ident, [])) != 1:
                    ck.violation("env-runs", "%s ran %d times\n%s" % (ident, len(got.get(ident, [])), show(files)), files)
                    continue
                v = got[ident][0]["V"]
                exp = dict(BASE_ENV)
                exp.update(INH)
                exp.update(w)
                a = {x: y for x, y in v.items() if x not in OWN_ENV}
                if a != exp:
                    x = sorted(x for x in set(a) | set(exp) if a.get(x) != exp.get(x))[0]
                    ck.violation("env-differs", "%s: variable %r is %.300r, expected %.300r\n%s" % (ident, x, a.get(x), exp.get(x), show(files)), files)
        shutil.rmtree(d, ignore_errors=True)
    ck.map(envs, range(ck.n(80, 1500)))

    def targets(i):
        r = ck.rng("tgt", i)
        t = Targets(r, i)
        d, rs = project(t.files, [["setup", "build"], ["-C", "build", "samu"] + (["-k", "0"] if r.random() < .5 else [])])
        res = rs[-1]
        k = crashed(res)
        f = t.files
        ck.case(f["meson.build"], len(t.want) + len(t.bad) + len(t.fed))
        if k or res.timeout or len(rs) != 2:
            ck.violation("targets:" + str(k or ("hang" if res.timeout else "refused")), res.text[-1500:] + show(f), f)
            return
        if (res.rc != 0) != bool(t.bad):
            ck.violation("targets-status", "the build ended with %s, failing commands: %s\n%s\n%s" % (res.rc, t.bad, res.text[-1200:], show(f)), f)
            return
        for n, w in t.want.items():
            p = os.path.join(d, "build", n)
            if not os.path.exists(p):
                if not t.bad:
                    ck.violation("capture-missing", "%r was not written\n%s" % (n, show(f)), f)
                continue
            g = read(p)
            ck.count("captured_bytes", len(g))
            if g != w:
                at = next((j for j in range(min(len(g), len(w))) if g[j] != w[j]), min(len(g), len(w)))
                ck.violation("capture-differs", "%r has %d bytes, %d expected; first difference at %d\n%s" % (n, len(g), len(w), at, show(f)), f)
        for n in t.bad:
            if os.path.exists(os.path.join(d, "build", n)):
                ck.violation("capture-of-failure", "%r exists although its command failed\n%s" % (n, show(f)), f)
        got = dumped(os.path.join(d, "dump"))
        for ident, w in t.fed.items():
            g = got.get(ident, [])
            if not g and t.bad:
                continue
            ck.count("fed")
            if len(g) != 1 or g[0]["I"] != w:
                ck.violation("feed-differs", "%s read %s bytes, expected %d\n%s" % (ident, [len(x["I"] or b"") for x in g], len(w), show(f)), f)
        shutil.rmtree(d, ignore_errors=True)
    ck.map(targets, range(ck.n(110, 2000)))

    # D: what cannot start, is killed or fails under check is an error
    def refused(s):
        files = {"meson.build": "project('p')\ndir = meson.current_source_dir()\nprobe = find_program('probe')\nmessage('BEFORE')\nx = %s\nmessage('AFTER')\n" % s,
                 "plain.txt": "just text\n", "badint": "#!/nonexistent/interpreter\n", "sub/x": ""}
        d = ck.tmp("n")
        for n, c in files.items():
            write(os.path.join(d, n), c)
        os.chmod(os.path.join(d, "badint"), 0o755)
        prep(d)
        res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
        k = crashed(res)
        ck.case(s)
        ck.count("refusals")
        if k or res.timeout or res.rc == 0 or "AFTER" in res.text or "BEFORE" not in res.text or not re.search(r"error|err", res.text):
            ck.violation("not-an-error:" + s, "%s -> status %s %s\n%s" % (s, res.rc, k, res.text[-1000:]), files)
    ck.map(refused, NOSTART)

    # E: compiler.run
    def crun(i):
        r = ck.rng("cr", i)
        out, err = content(r, r.choice(SIZES[:-2])), content(r, r.choice(SIZES[:-4]))
        rc = r.choice([0, 0, 1, 3, 255])

        def c(b):
            return "".join("\\%03o" % x for x in b)
        cuts = [c(out[j:j + 400]) for j in range(0, len(out), 400)]
        code = "#include <stdio.h>\nint main(void) {\n" + "".join("fputs(\"%s\", stdout);\n" % x.replace("%", "\\045") for x in cuts) + \
            "".join("fputs(\"%s\", stderr);\n" % c(err[j:j + 400]) for j in range(0, len(err), 400)) + "return %d;\n}\n" % rc
        files = {"meson.build": "project('p', 'c')\nr = meson.get_compiler('c').run(files('t.c'))\n" + "".join(
            "message(%s ? 'GOOD' : 'BAD %s')\n" % (e, n) for e, n in (
                ("r.compiled()", "compiled"), ("r.returncode() == %d" % rc, "returncode"), ("r.stdout() == " + quote(u8(out)), "stdout"), ("r.stderr() == " + quote(u8(err)), "stderr"))),
            "t.c": code}
        d, (res,) = project(files, [["setup", "build"]])
        ck.case(files["meson.build"])
        ck.count("compiler_runs")
        if crashed(res) or res.rc or res.text.count("GOOD") != 4:
            ck.violation("compiler-run:" + str(crashed(res) or ",".join(re.findall(r"BAD (\w+)", res.text))), res.text[-1200:] + show(files), files)
        shutil.rmtree(d, ignore_errors=True)
    ck.map(crun, range(ck.n(12, 150)))
    ck.assumptions = ["output a background process writes after the command itself has ended is left open"]
    ck.finish(min_evals=300)


if __name__ == "__main__":
    main("C18", body)
