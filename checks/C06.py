#!/usr/bin/env python3
"""C06: formatting converges, checks honestly and rewrites files safely.

Monitor: the same source is given to every output mode of the formatter and to a second pass; the
oracle is the relation between the outputs, exit statuses and file bytes observed. Faults: sources
that cannot be parsed, file size limits that make a write fail part way, read-only files and
directories, full and closed standard output. The formatter runs under ASan/UBSan, the fault
runs use the plain build as an unprivileged user."""
import os, resource, shutil, signal, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fmtcases, fmtgen, mesonparse
import fuzzlang
from vlib import *

sys.setrecursionlimit(20000)

ERRS = ["x = (\n", "]\n", "if\n", "x = 'open\n", "foreach\n", "x = = 1\n", "x = 1 +\n", "x = @\n", "endif\n", "if true\n", "x = [1, 2\n", "x = {'a' 1}\n", "f(a b)\n",
        "x = 1 2\n", "x = '''open\n", "x = not\n", "f(,)\n", "x = ? 1 : 2\n", "x = true ? 1\n", "foreach a b : c\nendforeach\n", "x = a.\n", "x = \"a\"\n", "x = 1 == \n",
        "else\n", "x = !a\n", "x = a && b\n", "x = 09\n", "x = 0x\n", "x = 99999999999999999999\n"]


def name(ext):
    return "f.meson" if ext else "f.build"


def sources(ck, corp, what, n):
    for i in range(n):
        r = ck.rng(what, i)
        if r.random() < .5:
            ext = r.random() < .3
            t = fmtgen.layout(r, fmtgen.Gen(r, ext).program(), comments=r.random() < .6, wild=r.choice([0, .02, .05, .15]))
        else:
            t, ext = r.choice(corp)
            if r.random() < .7:
                t = fmtcases.relayout(r, t, r.random() < .7, r.choice([0, .01, .03, .15]))
        yield r, t, ext


class Case:
    def __init__(self, src, ext, cfg, args, expect):
        self.src, self.ext, self.cfg, self.args, self.expect = src, ext, cfg, args, expect
        self.f = name(ext)
        self.r = {}

    def files(self, text=None):
        d = dict(self.cfg)
        d[self.f] = self.src if text is None else text
        return d

    def conf(self):
        return "fmt %s\n%s" % (" ".join(self.args), "".join("%s:\n%s" % x for x in self.cfg.items()))

    def evidence(self, **more):
        d = {self.f: self.src, "c.ini": self.cfg.get("c.ini", "")}
        d.update(more)
        return d


def modes(ck, cases):
    """all output modes of one source, then a second pass over what was printed"""
    jobs = []
    for c in cases:
        for m in ([], ["-q"], ["-i"]):
            jobs.append(Job(["fmt"] + c.args + m + [c.f], c.files(), tag=(c, (m or ["out"])[0])))

    def got(j, d):
        c, m = j.tag
        ls = sorted(os.listdir(d))
        c.r[m] = (j.res, read(os.path.join(d, c.f)), ls)
    run_jobs(ck, jobs, fn=got)
    jobs = []
    for c in cases:
        src = c.src.encode("utf-8", "surrogateescape")
        for m in c.r:
            res, after, ls = c.r[m]
            if res.timeout or crashed(res):
                ck.violation("crash", "%s %s: %s" % (c.conf(), m, res.text[-500:]), c.evidence())
                break
            if m != "-i" and after != src:
                ck.violation("touched", "fmt %s changed the file\n%s" % (m, c.conf()), c.evidence(after=after))
                break
            if m != "-i" and ls != sorted(c.files()):
                ck.violation("litter", "fmt %s left %s behind\n%s" % (m, ls, c.conf()), c.evidence())
                break
        else:
            out, q, i = c.r["out"], c.r["-q"], c.r["-i"]
            if c.expect == "error" and out[0].rc == 0:
                ck.violation("accepted", "a source that cannot be parsed was formatted with success\n%s" % c.conf(), c.evidence())
                continue
            if out[0].rc != 0:
                if c.expect == "ok":
                    ck.count("refused")
                ck.count("error_paths")
                if i[1] != src:
                    ck.violation("lost", "fmt -i failed to parse the file and changed it\n%s" % c.conf(), c.evidence(after=i[1]))
                elif i[0].rc == 0:
                    ck.violation("status-i", "fmt -i exits with 0 for a file fmt refuses\n%s" % c.conf(), c.evidence())
                elif q[0].rc == 0:
                    ck.violation("status-q", "fmt -q exits with 0 for a file fmt refuses\n%s" % c.conf(), c.evidence())
                else:
                    ck.case("err" + c.src)
                continue
            text, left = fmtcases.strip_notice(out[0].out.decode("utf-8", "surrogateescape"))
            c.text = text
            new = text.encode("utf-8", "surrogateescape")
            if left:
                ck.count("left_alone")
            if i[0].rc != 0:
                ck.violation("status-i", "fmt succeeds, fmt -i exits with %s: %s\n%s" % (i[0].rc, i[0].text[-300:], c.conf()), c.evidence())
            elif i[1] != new:
                ck.violation("inplace", "fmt -i wrote something else than fmt prints\n%s" % c.conf(), c.evidence(printed=new, written=i[1]))
            elif (q[0].rc == 0) != (new == src):
                ck.violation("check", "formatting %s the file, but fmt -q exits with %s\n%s" % ("changes" if new != src else "does not change", q[0].rc, c.conf()),
                             c.evidence(printed=new))
            else:
                ck.case(c.src + c.conf() if new != src else None, 1, {"source": c.src[:200], "args": c.args, "changed": new != src})
                for m in ([], ["-q"]):
                    jobs.append(Job(["fmt"] + c.args + m + [c.f], c.files(text), tag=(c, (m or ["out"])[0])))

    def again(j, d):
        c, m = j.tag
        if j.res.timeout or crashed(j.res):
            ck.violation("crash", "%s (second pass): %s" % (c.conf(), j.res.text[-500:]), c.evidence())
        elif j.res.rc != 0:
            ck.violation("unstable", "fmt %s of formatted text exits with %s: %s\n%s" % (m, j.res.rc, j.res.text[-300:], c.conf()), c.evidence(formatted=c.text))
        elif m == "out":
            text, left = fmtcases.strip_notice(j.res.out.decode("utf-8", "surrogateescape"))
            ck.count("second_passes")
            if text != c.text:
                ck.violation("unstable", "formatting formatted text changes it\n%s" % c.conf(), c.evidence(formatted=c.text, again=text))
    run_jobs(ck, jobs, fn=again)


def several(ck, pool):
    """more than one file on one command line"""
    jobs = []
    for i in range(ck.n(120, 800)):
        r = ck.rng("several", i)
        cs = [r.choice(pool) for _ in range(r.choice([2, 2, 3, 5]))]
        base = cs[0]
        files = dict(base.cfg)
        names = []
        bad = []
        for k, c in enumerate(cs):
            n = "d%d.%s" % (k, "meson" if c.ext else "build")
            names.append(n)
            if r.random() < .2:
                files[n] = r.choice(ERRS)
                bad.append(k)
            elif r.random() < .08:
                bad.append(k)       # does not exist
            else:
                files[n] = c.src
        m = r.choice(["-q", "-i", "-i"])
        jobs.append(Job(["fmt"] + base.args + [m] + names, files, tag=(m, names, bad, base)))
        for n in names:
            if n in files:
                g = dict(base.cfg)
                g[n] = files[n]
                jobs.append(Job(["fmt"] + base.args + ["-i", n], g, tag=(None, n, i, None)))
    state = {}
    single = {}

    def got(j, d):
        if j.tag[0] is None:
            single[(j.tag[2], j.tag[1])] = (j.res.rc, read(os.path.join(d, j.tag[1])))
        else:
            state[id(j)] = {n: read(os.path.join(d, n)) for n in j.tag[1] if n in j.files}
    run_jobs(ck, jobs, fn=got)
    k = -1
    for j in jobs:
        if j.tag[0] is None:
            continue
        k += 1
        m, names, bad, base = j.tag
        if crashed(j.res) or j.res.timeout:
            ck.violation("crash", "fmt %s of several files: %s" % (m, j.res.text[-400:]), {n: j.files[n] for n in j.files})
            continue
        after = state[id(j)]
        ok = True
        for n in after:
            src = j.files[n].encode("utf-8", "surrogateescape")
            rc, alone = single[(k, n)]
            want = src if m == "-q" or rc else alone
            if after[n] != want:
                ok = False
                ck.violation("several", "fmt %s of %s: %s does not have the bytes it gets when formatted alone" % (m, names, n), {x: j.files[x] for x in j.files})
            if rc and n not in [names[b] for b in bad]:
                bad.append(names.index(n))
        expect = bool(bad) or (m == "-q" and any(single[(k, n)][1] != j.files[n].encode("utf-8", "surrogateescape") for n in after))
        if (j.res.rc != 0) != expect:
            ok = False
            ck.violation("several-status", "fmt %s of %s exits with %s" % (m, names, j.res.rc), {x: j.files[x] for x in j.files})
        if ok:
            ck.case("several%d" % k)
            ck.count("several_files")


def faults(ck, pool):
    muon = build("plain")
    exe = os.path.join(ck.tmp("bin"), "muon")
    shutil.copy(muon, exe)
    os.chmod(os.path.dirname(exe), 0o755)
    os.chmod(exe, 0o755)

    def one(i):
        r = ck.rng("fault", i)
        c = r.choice(pool)
        src = c.src
        while r.random() < .4 and len(src) < 60000:
            src += "\n" + r.choice(pool).src if not c.ext else "\n" + src
        src = src.encode("utf-8", "surrogateescape")
        d = ck.tmp("fault")
        os.chmod(d, 0o777)
        try:
            for n, t in c.cfg.items():
                write(os.path.join(d, n), t)
            f = os.path.join(d, c.f)
            write(f, src)
            os.chmod(f, 0o666)

            def go(args, limit=None, ignore=True, stdout=subprocess.PIPE):
                def pre():
                    if limit is not None:
                        if ignore:
                            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                        else:
                            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                kw = dict(user=65534, group=65534, extra_groups=[]) if os.getuid() == 0 else {}
                p = subprocess.run([exe, "fmt"] + c.args + args, cwd=d, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=pre, timeout=60,
                                   env=BASE_ENV, **kw)
                return p
            p = go([c.f])
            if p.returncode != 0:
                return
            new = p.stdout
            if new == src:
                return
            kind = r.choice(["limit", "limit", "limit", "limit", "readonly", "rodir", "full", "closed", "link"])
            detail = None
            if kind == "limit":
                lim = r.choice([0, 1, len(new) // 2, len(new) - 1, max(0, len(new) - 4097), r.randrange(len(new)), 4096, len(new), len(new) + 1])
                ignore = r.random() < .8
                p = go(["-i", c.f], lim, ignore)
                after = read(f)
                if lim < len(new):
                    if after != src:
                        detail = "a write that failed after %d of %d bytes lost the file (%d bytes now, %d before)" % (lim, len(new), len(after), len(src))
                    elif p.returncode == 0:
                        detail = "a write that failed after %d of %d bytes ends in exit status 0" % (lim, len(new))
                elif p.returncode != 0 or after != new:
                    detail = "a file size limit that leaves room for the file made fmt -i fail"
            elif kind == "readonly":
                os.chmod(f, 0o444)
                p = go(["-i", c.f])
                after = read(f)
                if after == src and p.returncode == 0:
                    detail = "a read-only file was not formatted and fmt -i exits with 0"
                elif after not in (src, new) or (after == new and p.returncode):
                    detail = "a read-only file was damaged"
            elif kind == "rodir":
                os.chmod(d, 0o755)
                p = go(["-i", c.f])
                after = read(f)
                if after == src and p.returncode == 0:
                    detail = "a file in a read-only directory was not formatted and fmt -i exits with 0"
                elif after not in (src, new) or (after == new and p.returncode):
                    detail = "a file in a read-only directory was damaged"
            elif kind == "full":
                with open("/dev/full", "wb") as full:
                    p = go([c.f], stdout=full)
                if p.returncode == 0:
                    detail = "printing to a full device ends in exit status 0"
                elif read(f) != src:
                    detail = "printing changed the file"
            elif kind == "closed":
                rd, wr = os.pipe()
                os.close(rd)
                p = go([c.f], stdout=wr)
                os.close(wr)
                if p.returncode == 0:
                    detail = "printing to a closed pipe ends in exit status 0"
                elif read(f) != src:
                    detail = "printing changed the file"
            else:
                os.rename(f, f + ".real")
                os.symlink(c.f + ".real", f)
                p = go(["-i", c.f])
                if p.returncode != 0 or read(f) != new:
                    detail = "formatting through a symbolic link failed"
            if detail:
                ck.violation("fault-" + kind, "%s\n%s%s" % (detail, c.conf(), p.stderr.decode("utf-8", "replace")[-300:]), {c.f: src, "after": read(f), "c.ini": c.cfg.get("c.ini", "")})
            else:
                ck.case("fault%d" % i)
                ck.count("fault_" + kind)
        finally:
            os.chmod(d, 0o777)
            shutil.rmtree(d, ignore_errors=True)
    ck.map(one, range(ck.n(450, 4000)))


def body(ck):
    ck.rule = ("sources are random token programs and the repository's build files in random layouts, and the same damaged, each run through every output mode, a second pass and "
               "(for a share) with other files or under a fault; one is distinct and non-trivial if its text and configuration are new and formatting changes it or fails")
    ck.assumptions += ["an in-place run on a read-only file or directory may either format it or fail, but has to say which"]
    build_fork("asan")
    corp = fmtcases.corpus()
    cases = []
    for r, t, ext in sources(ck, corp, "good", ck.n(900, 10000)):
        cfg, args = fmtcases.config(r)
        cases.append(Case(t, ext, cfg, args, "ok"))
    good = list(cases)
    for r, t, ext in sources(ck, corp, "bad", ck.n(450, 5000)):
        cfg, args = fmtcases.config(r)
        if r.random() < .6:
            try:
                toks, _ = mesonparse.tokens(t)
            except mesonparse.Bad:
                continue
            cut = r.choice([len(t)] + [x[2] for x in toks if x[0] == "nl" and (x[2] == len(t) or t[x[2]] == "\n")])
            t = t[:cut].rstrip(" ") + "\n" + r.choice(ERRS) + t[cut:]
            try:
                mesonparse.parse(t, ext)
                continue
            except mesonparse.Bad:
                pass
            cases.append(Case(t, ext, cfg, args, "error"))
        else:
            b = fuzzlang.mutate(r, t.encode(), [x[0].encode() for x in corp[:50]])
            if len(b) > 20000:
                continue
            cases.append(Case(b.decode("utf-8", "surrogateescape"), ext, cfg, args, None))
    modes(ck, cases)
    several(ck, good)
    faults(ck, good)
    if ck.counters.get("refused", 0) > 20:
        ck.give_up("%d valid sources were refused" % ck.counters["refused"])
    ck.finish(min_evals=800)


if __name__ == "__main__":
    main("C06", body)
