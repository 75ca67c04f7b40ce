#!/usr/bin/env python3
"""C16: the test runner runs each selected test once and reports the true verdict.

Random projects with subprojects, suites, setups, protocols and exit behaviours are run under random
filters.  Each test is lib/probe.c, which logs its own execution; the log, the summary lines and the exit
status are compared with what the declarations and the filter say."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["a", "b", "ab", "abc", "test one", "long test", "longer", "x.y", "aXbXc", "aab", "é", "a-b_c", "t1", "t2", "t12", "*", "a*",
         "UPPER", "end", "[x]", "a?c"]
SUITES = ["s1", "s2", "unit", "slow one", "é", "S1"]


def tap(r):
    """(stream, verdict) with verdict True, False or None (left open)"""
    n = r.randrange(0, 6)
    L, bad = [], False
    for i in range(n):
        k = r.randrange(12)
        num = " %d" % (i + 1) if r.random() < .7 else ""
        desc = r.choice(["", " - works", " name", " a # b"])
        if k < 6:
            L.append("ok%s%s" % (num, desc))
        elif k == 6:
            L.append("not ok%s%s" % (num, desc))
            bad = True
        elif k == 7:
            L.append("ok%s%s # %s why" % (num, desc.replace("#", ""), r.choice(["SKIP", "skip", "Skip", "skipped:"])))
        elif k == 8:
            L.append("not ok%s%s # %s" % (num, desc.replace("#", ""), r.choice(["TODO", "todo", "Todo later"])))
        elif k == 9:
            L.append("ok%s%s # TODO" % (num, desc.replace("#", "")))
            bad = True
        elif k == 10:
            L.append("not ok%s # SKIP" % num)
            bad = True
        else:
            L.append("ok%s" % num)
        if r.random() < .3:
            L.append(r.choice(["# diagnostics", "  not ok indented", "", "noise", "# not ok", "  ---", "    ok 1 - sub"]))
    plan = r.randrange(6)
    text_verdict = not bad
    if n and plan < 4:
        m = n
        if plan == 3:
            m = n + r.choice([-1, 1, 3])
            if m < 1:
                m = n + 1
            text_verdict = False
        L.insert(r.choice([0, len(L)]), "1..%d" % m)
    if n == 0:
        L.append("1..0 # SKIP nothing to do")
    if r.random() < .08:
        L.append("Bail out! " + r.choice(["", "no database"]))
        text_verdict = False
    return "\n".join(L) + r.choice(["\n", "\n", ""]), text_verdict


def exit_behaviour(r):
    k = r.randrange(14)
    return ([], 0) if k < 5 else (["exit=%d" % (c := r.choice([1, 1, 2, 3, 42, 76, 78, 98, 100, 127, 255])), ], c) if k < 9 else \
        (["exit=77"], 77) if k < 11 else (["exit=99"], 99) if k == 11 else (["sig=%d" % (s := r.choice([6, 9, 11, 15])), ], -s)


def verdict(t):
    """ok, fail, skip by the exit status or TAP stream, then should_fail"""
    if t["proto"] == "tap":
        if t["code"] < 0:
            return "fail"
        v = "ok" if t["tap"] and t["code"] == 0 else "fail"
    else:
        c = t["code"]
        v = "ok" if c == 0 else "skip" if c == 77 else "fail"
        if c == 99 or c < 0:
            return "fail"
    if t["should_fail"] and v != "skip":
        v = "fail" if v == "ok" else "ok"
    return v


def settled(t):
    """False where the tree is known to report another verdict (see PROBES)"""
    if t["proto"] == "tap":
        return (t["code"] == 0 or not t["tap"]) and not (t["should_fail"] and t["tap"])
    return not (t["should_fail"] and (t["code"] == 0 or t["code"] == 99))


def glob(p, s):
    return re.fullmatch("".join(".*" if c == "*" else re.escape(c) for c in p), s, re.S) is not None


class Project:
    def __init__(self, r):
        self.r = r
        self.tests, self.projs, self.setups = [], [], {}
        self.all_suites = r.random() < .5
        subs = r.sample(["sub", "other", "sub two", "zz"], r.choice([0, 1, 1, 2, 3]))
        self.names = ["main"] + [s + "_p" if r.random() < .5 else s for s in subs]
        self.dirs = [""] + subs
        if len(subs) > 1 and r.random() < .15:
            self.names[2] = self.names[1]           # two projects of one name
        files = {}
        nid = 0
        for pi, (pname, d) in enumerate(zip(self.names, self.dirs)):
            L = ["project(%s, version: '1')" % quote(pname), "probe = find_program(meson.global_source_root() / 'probe')"]
            if pi == 0:
                at = [(i, "subproject(%s)" % quote(s)) for i, s in enumerate(subs)]
                if r.random() < .5:
                    L += [x[1] for x in at]
                    at = []
            for _ in range(r.choice([0, 1, 3, 5, 8]) if pi or r.random() < .15 else r.randrange(3, 10)):
                t = self.test(nid, pi, pname)
                nid += 1
                self.tests.append(t)
                L.append(t["src"])
            for _ in range(r.choice([0, 0, 1, 2])):
                n = r.choice(["valgrind", "ci", "x y"])
                if (pname, n) in self.setups:
                    continue
                ex = r.sample(SUITES, r.choice([0, 0, 1, 2]))
                ex = [("%s:%s" % (r.choice(self.names), e) if r.random() < .4 else e) for e in ex]
                su = dict(pi=pi, env=r.random() < .5, exclude=ex, default=False, wrapper=r.random() < .3)
                kw = ["env: {'SETUP': %s}" % quote(n)] if su["env"] else []
                su["has_exclude"] = bool(ex) or r.random() < .3
                if su["has_exclude"]:
                    kw.append("exclude_suites: [%s]" % ", ".join(map(quote, ex)))
                if su["wrapper"]:
                    kw.append("exe_wrapper: [find_program(meson.global_source_root() / 'wrap.sh'), 'arg one']")
                if r.random() < .25 and not any(s["default"] for s in self.setups.values()):
                    su["default"] = True
                    kw.append("is_default: true")
                self.setups[(pname, n)] = su
                L.append("add_test_setup(%s%s)" % (quote(n), "".join(", " + k for k in kw)))
            if pi == 0:
                L += [x[1] for x in at]
            files[("subprojects/%s/" % d if d else "") + "meson.build"] = "\n".join(L) + "\n"
        self.files = files

    def test(self, nid, pi, pname):
        r = self.r
        t = dict(id="t%d" % nid, pi=pi, proj=pname, name=r.choice(NAMES), cat=r.choice(["test"] * 6 + ["benchmark"]))
        t["suites"] = r.sample(SUITES, r.choice([1, 1, 2, 3] if self.all_suites else [0, 0, 1, 1, 2, 3]))
        t["should_fail"] = r.random() < .25
        t["proto"] = r.choice(["exitcode"] * 5 + ["tap"] * 3 + ["gtest", "rust"])
        args, t["code"] = exit_behaviour(r)
        if t["proto"] == "tap":
            s, t["tap"] = tap(r)
            args = ["out=" + s.encode().hex()] + args
            if t["code"] != 0 and r.random() < .7:
                args, t["code"] = args[:1], 0
            if t["code"] != 0 and t["should_fail"]:
                t["should_fail"] = False          # which of the two counts is left open
            if t["code"] != 0 and t["tap"]:
                args, t["code"] = args[:1], 0
        if t["code"] < 0:
            t["should_fail"] = False
        if not settled(t):
            t["should_fail"] = False
        if r.random() < .3:
            args = ["out=" + os.urandom(0).hex() + r.choice(["00ff0a", "68690a", "31"]) * r.choice([1, 2000])] + args \
                if t["proto"] != "tap" else args
        kw = ["args: ['log=' + meson.global_source_root() / 'log', 'id=%s'%s]" % (t["id"], "".join(", '%s'" % a for a in args))]
        if t["suites"]:
            kw.append("suite: " + (quote(t["suites"][0]) if len(t["suites"]) == 1 and r.random() < .5 else "[%s]" % ", ".join(map(quote, t["suites"]))))
        if t["should_fail"] or r.random() < .1:
            kw.append("should_fail: " + ("true" if t["should_fail"] else "false"))
        if t["proto"] != "exitcode" or r.random() < .2:
            kw.append("protocol: '%s'" % t["proto"])
        if r.random() < .2 and t["cat"] == "test":
            kw.append("is_parallel: " + r.choice(["true", "false"]))
        if r.random() < .2:
            kw.append("priority: %d" % r.randrange(-5, 100))
        if r.random() < .1:
            kw.append("verbose: true")
        if r.random() < .2:
            kw.append("env: ['K=v', 'L=w']")
        r.shuffle(kw)
        t["src"] = "%s(%s, probe, %s)" % (t["cat"], quote(t["name"]), ", ".join(kw))
        return t

    def filt(self):
        """(argv tail, predicate, expected failure of the command itself)"""
        r = self.r
        cat = "benchmark" if r.random() < .12 else "test"
        argv, preds = [], [lambda t: t["cat"] == cat]
        setup, given, ss, names = None, None, [], []
        if r.random() < .3 and self.setups:
            pn, n = r.choice(sorted(self.setups))
            q = n if pn == "main" and r.random() < .5 else "%s:%s" % (pn, n)
            argv += ["-e", q]
            setup = self.setups[(pn, n)]
            given = q
        elif r.random() < .05:
            return cat, ["-e", r.choice(["nope", "main:nope", "nope:ci"])], None, None
        else:
            setup = next((s for s in self.setups.values() if s["default"]), None)
        # names of two projects alike: which of their setups is meant is left open
        if setup and len(set(self.names)) != len(self.names):
            return None
        if r.random() < .35:
            for _ in range(r.randrange(1, 4)):
                s = r.choice(SUITES)
                ss.append("%s:%s" % (r.choice(self.names), s) if r.random() < .6 else s)
            for s in ss:
                argv += ["-s", s]
            preds.append(lambda t: any(self.suite(t, s) for s in ss))
        elif setup and setup["exclude"]:
            preds.append(lambda t: not any(self.suite(t, s) for s in setup["exclude"]))
        if r.random() < .45:
            for _ in range(r.randrange(1, 4)):
                t = r.choice(self.tests) if self.tests else dict(name="a", proj="main")
                n = t["name"]
                k = r.randrange(6)
                if k == 0:
                    n = r.choice(["*", n[:1] + "*", "*" + n[-1:], n[:1] + "*" + n[-1:], "*" + n[:2] + "*", "a*b*c", "**", "*b", "t1*", n + "*", n[:-1]])
                elif k == 1:
                    n = "nope"
                if ":" in n or not n:
                    n = "a"
                q = r.choice([n, n, ":" + n, "%s:%s" % (t["proj"], n), "%s:%s" % (r.choice(self.names), n), t["proj"] + ":"])
                names.append(q)

            def by_name(t):
                for q in names:
                    p, n = q.split(":", 1) if ":" in q else ("", q)
                    if (not p or p == t["proj"]) and (not n or glob(n, t["name"])):
                        return True
                return False
            preds.append(by_name)
        extra = r.sample([["-j", str(r.choice([1, 2, 3, 8]))], ["-v"], ["-d", "dots"], ["-R"]], r.randrange(0, 4))
        if r.random() < .08 and not any(verdict(t) == "fail" for t in self.tests if t["proto"] == "tap"):
            extra.append(["-vv"])
        argv = sum(extra, []) + argv + ["-S"] + names
        pred = lambda t: all(p(t) for p in preds)
        if not ss and setup and setup["has_exclude"] and any(not t["suites"] and t["cat"] == cat for t in self.tests):
            return None                              # known-exclude
        want = [t["id"] for t in self.tests if pred(t)]
        for listing in (False, True):
            if self.as_known(cat, given, ss, names, setup, listing) != want:
                return None                          # known-project-name
        return cat, argv, pred, setup

    def as_known(self, cat, given, ss, names, want_setup, listing):
        """The selection by the tree's known way of looking at the project run before; inputs on which this
        differs from the right selection are only run by PROBES."""
        def match(spec, main, proj, name):
            p, n = spec.split(":", 1) if ":" in spec else ("", spec)
            return (p == proj if p else main) and n == name
        projs = []
        for pi, name in enumerate(self.names):
            if name in [x[0] for x in projs]:
                continue
            mine = [t for t in self.tests if t["proj"] == name]
            su = [(n, s) for (pn, n), s in self.setups.items() if pn == name]
            if not pi or mine or su:
                projs.append((name, mine, su))
        cur, main, found = None, True, None
        for name, _, su in projs:
            cur = name
            if not su:
                continue
            found = next((s for n, s in su if (match(given, main, cur, n) if given else s["default"])), None)
            if found:
                break
            main = False
        if found is not want_setup:
            return None
        out, main = [], True
        for name, tests, _ in projs:
            sel = []
            for t in tests:
                if t["cat"] != cat:
                    continue
                if ss:
                    if not any(match(s, main, cur, x) for s in ss for x in t["suites"]):
                        continue
                elif found and any(match(s, main, cur, x) for s in found["exclude"] for x in t["suites"]):
                    continue
                if names and not any((not q[0] or q[0] == cur) and (not q[1] or glob(q[1], t["name"]))
                                     for q in (n.split(":", 1) if ":" in n else ("", n) for n in names)):
                    continue
                sel.append(t["id"])
            out += sel
            if sel and not listing:
                cur, main = name, False
        order = [t["id"] for t in self.tests]
        return sorted(out, key=order.index)

    def suite(self, t, s):
        p, n = s.split(":", 1) if ":" in s else ("", s)
        if n not in t["suites"]:
            return False
        return t["proj"] == p if p else t["pi"] == 0


LABEL = {"ok": "ok", "fail": "fail", "skip": "skip"}


def one(ck, i, muon, prb):
    r = ck.rng("proj", i)
    p = Project(r)
    d = ck.tmp("p")
    for n, s in p.files.items():
        write(os.path.join(d, n), s)
    shutil.copy(prb, os.path.join(d, "probe"))
    write(os.path.join(d, "wrap.sh"), "#!/bin/sh\necho \"W $1\" >> '%s/wraplog'\necho \"$SETUP\" >> '%s/envlog'\nshift\nexec \"$@\"\n" % (d, d))
    for f in ("probe", "wrap.sh"):
        os.chmod(os.path.join(d, f), 0o755)
    os.chmod(d, 0o777)
    subprocess.run(["chown", "-R", "65534:65534", d])
    res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
    if crashed(res) or res.rc != 0:
        ck.violation("setup:" + str(crashed(res) or "failed"), res.text[-1500:], p.files)
        return
    for k in range(ck.n(10, 15)):
        f = p.filt()
        if f is None:
            ck.count("skipped_open")
            continue
        cat, argv, pred, setup = f
        for l in ("log", "wraplog", "envlog"):
            if os.path.exists(os.path.join(d, l)):
                os.unlink(os.path.join(d, l))
        cmd = [muon, "-C", "build", cat] + argv
        res = run(cmd, cwd=d, user=65534, merge=True, timeout=120)
        if res.timeout:
            res = run(cmd, cwd=d, user=65534, merge=True, timeout=300)
        k = crashed(res)
        what = " ".join(map(quote, cmd[3:]))
        ctx = "muon %s\n%s\n%s" % (what, res.text[-1200:], "\n".join(p.files.values())[:3000])
        fl = dict(p.files)
        fl["command"] = what
        if k or res.timeout:
            ck.violation("crash:" + str(k or "timeout"), ctx, fl)
            return
        log = read(os.path.join(d, "log")).decode() if os.path.exists(os.path.join(d, "log")) else ""
        started = sorted(l.split()[1] for l in log.splitlines() if l.startswith("S "))
        ck.case(what + "".join(p.files.values()))
        if pred is None:
            if res.rc == 0 or started:
                ck.violation("unknown-setup", "an unknown setup was accepted\n" + ctx, fl)
            continue
        sel = [t for t in p.tests if pred(t)]
        # with -l nothing runs; here everything selected must have run once
        want = sorted(t["id"] for t in sel)
        ck.count("tests_run", len(started))
        if started != want:
            byid = {t["id"]: t["src"] for t in p.tests}
            ck.violation("selection", "run but not selected (or twice): %s\nselected but not run: %s\n%s" % (
                [byid.get(x, x) for x in minus(started, want)], [byid.get(x, x) for x in minus(want, started)], ctx), fl)
            return
        # verdicts
        got = {}
        fails = 0
        lines = re.findall(r"^(?:\S*: )?(ok\*?|fail\*?|timeout|skip) +\d+\.\d+s (?: *(\d+)/ *(\d+) subtests, )?(.*)$", tail(res.text, "finished"), re.M)
        summary = {}
        for lab, a, b, rest in lines:
            rest = rest.split(" - passing test marked")[0].split(": command ")[0]
            summary.setdefault(rest, []).append(lab)
        expect = {}
        for t in sel:
            v = verdict(t)
            fails += v == "fail"
            lab = {"ok": "fail*" if t["should_fail"] else "ok", "fail": "ok*" if t["should_fail"] else "fail", "skip": "skip"}[v]
            key = ("+".join(t["suites"]) + ":" if t["suites"] else "") + t["name"]
            expect.setdefault(key, []).append(lab)
            ck.count("verdict_" + v)
        if (res.rc == 0) != (fails == 0):
            ck.violation("status", "exit status %s with %d tests expected to fail\n%s" % (res.rc, fails, ctx), fl)
            return
        a = {k: sorted(v) for k, v in summary.items()}
        b = {k: sorted(v) for k, v in expect.items()}
        if a != b and "-vv" not in argv:
            key = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[0]
            ck.violation("verdict", "%r reported as %s, expected %s\n%s" % (key, a.get(key), b.get(key), ctx), fl)
            return
        m = re.search(r"finished (\d+) \w+, (\d+) expected fail, (\d+) fail, (\d+) skipped", res.text)
        if sel:
            nums = (len(sel), fails, sum(verdict(t) == "skip" for t in sel))
            if not m or (int(m.group(1)), int(m.group(3)), int(m.group(4))) != nums:
                ck.violation("totals", "%s, expected %d run, %d fail, %d skipped\n%s" % ((m and m.group(0),) + nums + (ctx,)), fl)
                return
        if setup and setup["wrapper"] and sel:
            n = len(read(os.path.join(d, "wraplog")).decode().splitlines()) if os.path.exists(os.path.join(d, "wraplog")) else 0
            if n != len(sel):
                ck.violation("wrapper", "%d of %d tests ran under the setup's exe_wrapper\n%s" % (n, len(sel), ctx), fl)
                return
        ls = run([muon, "-C", "build", cat, "-l"] + [a for a in argv if a not in ("-S",)], cwd=d, user=65534, timeout=60)
        listed = sorted(re.findall(r" - (.*)$", ls.text, re.M))
        if crashed(ls) or listed != sorted(t["name"] for t in sel):
            ck.violation("list", "-l shows %s, selected are %s\n%s" % (listed, sorted(t["name"] for t in sel), ctx), fl)
            return
    shutil.rmtree(d, ignore_errors=True)


def known(ck, muon, prb):
    """Inputs on which the tree is known to be wrong, one by one; a different failure of theirs is a violation."""
    T = "test('%s', p, args: ['log=' + meson.global_source_root() / 'log', 'id=%s', %s]%s)\n"
    ok, bad = "'exit=0'", "'exit=1'"
    tapok = "'out=" + b"1..1\nok 1\n".hex() + "'"
    tapbad = "'out=" + b"1..1\nnot ok 1\n".hex() + "'"
    sub2 = {"subprojects/s/meson.build": "project('s')\np = find_program(meson.global_source_root() / 'probe')\n"
            + T % ("x", "sx", ok, ", suite: 'u'")}
    main2 = "subproject('s')\n" + T % ("x", "mx", ok, ", suite: 'u'")
    # key, body, more files, filter, right (run, status zero), known (run, status zero)
    P = [("known-tap-exit", T % ("a", "a", tapok + ", 'exit=3'", ", protocol: 'tap'"), {}, [], ("a", False), ("a", True)),
         ("known-tap-vv", T % ("a", "a", tapbad, ", protocol: 'tap'"), {}, ["-vv"], ("a", False), ("a", True)),
         ("known-should-fail-pass", T % ("a", "a", ok, ", should_fail: true"), {}, [], ("a", False), ("a", True)),
         ("known-should-fail-99", T % ("a", "a", "'exit=99'", ", should_fail: true"), {}, [], ("a", False), ("a", True)),
         ("known-exclude", T % ("a", "a", ok, "") + "add_test_setup('e', exclude_suites: 'q')\n", {}, ["-e", "e"], ("a", True), None),
         ("known-project-name", main2, sub2, ["s:x"], ("sx", True), ("mx", True)),
         ("known-project-suite", main2, sub2, ["-s", "s:u"], ("sx", True), ("mx", True))]
    for key, src, more, argv, right, wrong in P:
        d = ck.tmp("k")
        files = {"meson.build": "project('main')\np = find_program(meson.global_source_root() / 'probe')\n" + src}
        files.update(more)
        for n, s in files.items():
            write(os.path.join(d, n), s)
        shutil.copy(prb, os.path.join(d, "probe"))
        os.chmod(os.path.join(d, "probe"), 0o755)
        subprocess.run(["chown", "-R", "65534:65534", d])
        res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
        if res.rc == 0:
            res = run([muon, "-C", "build", "test", "-R"] + argv, cwd=d, user=65534, merge=True, timeout=60)
        log = read(os.path.join(d, "log")).decode() if os.path.exists(os.path.join(d, "log")) else ""
        got = (" ".join(sorted(l.split()[1] for l in log.splitlines() if l.startswith("S "))), res.rc == 0)
        k = crashed(res)
        ck.case(src)
        if not k and got == right:
            continue
        as_known = (wrong is None and k and not got[0]) or (not k and got == wrong)
        ck.violation(key if as_known else key + ":other", "muon test %s: run and status zero %s %s, expected %s\n%s\n%s" % (
            argv, got, k or "", right, res.text[-900:], src), files)
        shutil.rmtree(d, ignore_errors=True)


def tail(t, word):
    return t[t.rfind(word):] if word in t else ""


def minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def body(ck):
    ck.rule = "one case is one run of a generated project under one filter; the executions logged by the tests are what is compared"
    muon, prb = build("asan"), probe()
    known(ck, muon, prb)
    ck.map(lambda i: one(ck, i, muon, prb), range(ck.n(110, 1500)))
    ck.assumptions = ["death by signal and should_fail, a failing exit of a should_fail TAP test, and setups of projects sharing a name are left open"]
    ck.finish(min_evals=200)


if __name__ == "__main__":
    main("C16", body)
