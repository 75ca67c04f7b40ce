#!/usr/bin/env python3
"""C17: job limits, serial tests, priorities, timeouts and fail-fast of the test runner.

Every test is lib/probe.c, which logs monotonic timestamps when it starts, every 15 ms while it runs and
when it ends, and the processes it leaves behind; the log of each run is checked against the scheduling
rules.  An interval runs from a test's first to its last event, so it is never longer than the process."""
import os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


class Suite:
    def __init__(self, r):
        self.r = r
        self.mode = r.choice(["order", "order", "mix", "mix", "timeout", "timeout", "failfast", "failfast"])
        self.jobs = r.choice([1, 1, 2, 3, 4, 7, 16])
        self.mult = None
        if self.mode == "timeout" and r.random() < .3:
            self.mult = r.choice([2, 20])
        nproj = r.choice([1, 1, 1, 2, 3])
        self.tests, self.files = [], {}
        for pi in range(nproj):
            L = ["project('p%d')" % pi, "probe = find_program(meson.global_source_root() / 'probe')"]
            if pi == 0:
                L += ["subproject('p%d')" % k for k in range(1, nproj)]
                if self.mult:
                    L.append("add_test_setup('m', timeout_multiplier: %d)" % self.mult)
            n = r.randrange(3, 14) if nproj == 1 else r.randrange(1, 7)
            prios = r.choice([[0], [0, 0, 1], [-100, -1, 0, 1, 5, 5, 1000], list(range(-20, 20))])
            for _ in range(n):
                t = self.test(len(self.tests), pi, prios)
                self.tests.append(t)
                L.append(t["src"])
            if pi == 0 and self.mode == "timeout" and not any(t["kind"] == "over" for t in self.tests):
                t = self.test(len(self.tests), pi, prios, "over")
                self.tests.append(t)
                L.append(t["src"])
            self.files[("subprojects/p%d/" % pi if pi else "") + "meson.build"] = "\n".join(L) + "\n"
        if self.mode == "failfast" and not any(t["kind"] in ("fail", "over") for t in self.tests):
            t = self.tests[0]
            self.files["meson.build"] += "test('ff', probe, args: ['log=' + meson.global_source_root() / 'log', 'id=ff', 'exit=1'])\n"
            self.tests.append(dict(id="ff", pi=0, prio=0, serial=False, kind="fail", limit=30))

    def test(self, i, pi, prios, kind=None):
        r = self.r
        long = self.mode != "order"
        k = kind or "ok"
        x = r.random()
        if not kind and self.mode == "timeout" and x < .3:
            k = "over"
        elif not kind and self.mode == "failfast" and x < .3:
            k = r.choice(["fail", "fail", "fail", "fail", "over"])
        elif not kind and x > .9:
            k = "skip"
        t = dict(id="t%d" % i, pi=pi, prio=r.choice(prios), serial=r.random() < .25, kind=k, limit=30, kids=False)
        a, kw = [], []
        if k == "over":
            t["limit"] = r.choice([1, 1, 1, 2])
            if self.mult:
                t["limit"] = 1
                t["limit"] *= self.mult if self.mult < 5 else 1
                kw.append("timeout: 1")
                if self.mult == 20:
                    t["kind"] = k = "ok"
                    t["limit"] = 20
                    a = ["beat=1600"]
            else:
                kw.append("timeout: %d" % t["limit"])
            if k == "over":
                if r.random() < .35:
                    a.append("term=ignore")
                if r.random() < .4:
                    t["kids"] = True
                    a += r.sample(["child=25000", "daemon=25000", "child=25000"], r.randrange(1, 4))
                if r.random() < .3:
                    a.append("out=" + "68690a" * r.choice([1, 3000]))
                a.append("beat=25000")
        else:
            a.append("beat=%d" % (r.choice([0, 15, 60, 150, 300]) if long else r.choice([15, 30, 45, 100])))
            if r.random() < .2 and not self.mult:
                # no limit at all
                kw.append("timeout: %d" % r.choice([0, -1, 60, 100000]))
                t["limit"] = 0
            if k == "fail":
                a.append(r.choice(["exit=1", "exit=3", "sig=6", "sig=9", "exit=99"]))
            if k == "skip":
                a.append("exit=77")
        if k == "ok" and r.random() < .1:
            kw.append("should_fail: true")
            a.append("exit=1")
        kw.append("args: ['log=' + meson.global_source_root() / 'log', 'id=%s', %s]" % (t["id"], ", ".join("'%s'" % x for x in a)))
        if t["prio"] or r.random() < .2:
            kw.append("priority: %d" % t["prio"])
        if t["serial"] or r.random() < .1:
            kw.append("is_parallel: %s" % ("false" if t["serial"] else "true"))
        r.shuffle(kw)
        t["src"] = "test('%s', probe, %s)" % (t["id"], ", ".join(kw))
        return t


def alive(pid, d):
    try:
        with open("/proc/%d/cmdline" % pid, "rb") as f:
            c = f.read()
        with open("/proc/%d/stat" % pid) as f:
            return d.encode() in c and f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def rules(ck, p, res, log, took, d):
    """the list of (key, detail) of violated rules"""
    ev = [l.split() for l in log.splitlines()]
    ev = [(e[0], e[1], int(e[2]) / 1e9, int(e[3])) for e in ev if len(e) == 5]
    byid = {t["id"]: t for t in p.tests}
    start, last, end, pid, kids = {}, {}, {}, {}, {}
    out = []
    ck.count("events", len(ev))
    for k, i, t, q in ev:
        if k == "S":
            if i in start:
                out.append(("twice", i))
            start[i] = t
            pid[i] = q
        if k in "SBE" and t > last.get(i, 0):
            last[i] = t
        if k == "E":
            end[i] = t
        if k == "C":
            kids.setdefault(i, []).append(q)
    marks = sorted([(t, 1, i) for i, t in start.items()] + [(last[i], 0, i) for i in start])
    run_now = set()
    for t, k, i in marks:
        if not k:
            run_now.discard(i)
            continue
        run_now.add(i)
        if len(run_now) > p.jobs:
            out.append(("jobs", "%d tests run at once with -j %d: %s" % (len(run_now), p.jobs, sorted(run_now))))
        if len(run_now) > 1 and any(byid[x]["serial"] for x in run_now):
            out.append(("serial", "a test that is not parallel overlaps: %s" % sorted(run_now)))
        ck.count("overlaps", len(run_now) - 1)
    for pi in {t["pi"] for t in p.tests}:
        ids = sorted((i for i in start if byid[i]["pi"] == pi), key=lambda i: pid[i])
        if ids and pid[ids[-1]] - pid[ids[0]] > 200000:
            continue                                        # the counter may have wrapped
        for a, b in zip(ids, ids[1:]):
            ck.count("order_pairs")
            if byid[a]["prio"] < byid[b]["prio"]:
                out.append(("priority", "%s (priority %d) started before %s (priority %d)" % (a, byid[a]["prio"], b, byid[b]["prio"])))
    over = {i for i in start if byid[i]["kind"] == "over"}
    ff = p.mode == "failfast"
    if not ff and len(start) != len(p.tests):
        out.append(("missing", "never started: %s" % sorted(set(byid) - set(start))))
    for i in start:
        t = byid[i]
        if i in over:
            ck.count("timed_out")
            if i in end:
                out.append(("not-stopped", "%s ran to its end beyond its limit" % i))
            if last[i] - start[i] > t["limit"] + 6:
                out.append(("late", "%s ran %.1fs with a limit of %ds" % (i, last[i] - start[i], t["limit"])))
            if last[i] - start[i] < t["limit"] - .9 and not ff:
                out.append(("early", "%s was stopped after %.2fs with a limit of %ds" % (i, last[i] - start[i], t["limit"])))
        elif i not in end:
            if not ff:
                out.append(("stopped", "%s did not reach its end" % i))
    lines = dict((b, a) for a, b in re.findall(r"^(ok\*?|fail\*?|timeout|skip) +\d+\.\d+s (t\d+|ff)\b", res.text, re.M))
    for i, lab in lines.items():
        if (lab == "timeout") != (i in over):
            out.append(("report", "%s is reported as %r" % (i, lab)))
    if not ff and set(lines) != set(start):
        out.append(("unreported", "run %s, reported %s" % (sorted(start), sorted(lines))))
    bad = [i for i in start if byid[i]["kind"] in ("over", "fail")]
    if bad and res.rc == 0 or not bad and res.rc != 0:
        out.append(("status", "exit status %s with %d failing tests" % (res.rc, len(bad))))
    if ff:
        # a failure counts when its process has ended and the runner had ample time to see it
        fails = sorted(max(end.get(i, 0), last[i]) + (0 if i in end else 2) for i in start if byid[i]["kind"] in ("fail", "over"))
        if fails:
            # the failing test of the lowest end; with one job nothing may start at all
            first = min((end.get(i, last[i] + 2), i) for i in start if byid[i]["kind"] in ("fail", "over"))
            late = [i for i in start if p.jobs == 1 and pid[i] > pid[first[1]] and pid[i] - pid[first[1]] < 200000 or start[i] > first[0] + 1.5]
            # one more is a known finding (see known())
            if len(late) > 1:
                out.append(("fail-fast", "%s started after the failure of %s" % (late, first[1])))
            ck.count("fail_fast")
        elif len(start) != len(p.tests):
            out.append(("missing", "no failure, yet never started: %s" % sorted(set(byid) - set(start))))
    # nothing of a stopped test may be left behind; its children are a known finding
    left = [(i, pid[i]) for i in start if i in over and not ff]
    until = time.time() + 4
    while left and time.time() < until:
        left = [x for x in left if alive(x[1], d)]
        if left:
            time.sleep(.05)
    for i, q in left:
        out.append(("left", "process %d of %s is still there after the run" % (q, i)))
    ck.count("children_watched", sum(len(v) for i, v in kids.items() if i in over))
    for i in pid:
        for q in [pid[i]] + kids.get(i, []):
            if alive(q, d):
                os.kill(q, 9)
    return out


def one(ck, i, muon, prb):
    p = Suite(ck.rng("suite", i))
    d = ck.tmp("p")
    for n, s in p.files.items():
        write(os.path.join(d, n), s)
    shutil.copy(prb, os.path.join(d, "probe"))
    os.chmod(os.path.join(d, "probe"), 0o755)
    subprocess.run(["chown", "-R", "65534:65534", d])
    res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
    if crashed(res) or res.rc != 0:
        ck.violation("setup:" + str(crashed(res) or "failed"), res.text[-1500:], p.files)
        return
    cmd = [muon, "-C", "build", "test", "-R", "-S", "-d", "dots", "-j", str(p.jobs)]
    if p.mode == "failfast":
        cmd.append("-f")
    if p.mult:
        cmd += ["-e", "m"]

    def go():
        if os.path.exists(os.path.join(d, "log")):
            os.unlink(os.path.join(d, "log"))
        t0 = time.time()
        res = run(cmd, cwd=d, user=65534, merge=True, timeout=150)
        log = read(os.path.join(d, "log")).decode() if os.path.exists(os.path.join(d, "log")) else ""
        k = crashed(res)
        if k or res.timeout:
            return [("crash:" + str(k or "timeout"), "")], res, log
        return rules(ck, p, res, log, time.time() - t0, d), res, log
    out, res, log = go()
    if out:
        ck.count("repeated")
        print("repeating alone: %s" % out[:2], file=sys.stderr)
        with ck.solo:                    # alone, so that the load of the other runs does not matter
            out, res, log = go()
            # scheduling differs from run to run: a rule broken only sometimes is still broken
            for _ in range(3):
                if not out:
                    out, res, log = go()
    ck.case(p.files["meson.build"] + str(p.jobs) + p.mode)
    ck.count("mode_" + p.mode)
    seen = set()
    for k, s in out:
        if k not in seen:
            seen.add(k)
            fl = dict(p.files)
            fl["command"] = " ".join(cmd[3:])
            fl["log"] = log
            ck.violation(k, "%s\nmuon %s\n%s\n%s\n%s" % (s, fl["command"], res.text[-800:], "".join(p.files.values())[:2500], log[:1500]), fl)
    shutil.rmtree(d, ignore_errors=True)


def known(ck, muon, prb):
    """Inputs on which the tree is known to be wrong, one by one."""
    T = "test('%s', p, args: ['log=' + meson.global_source_root() / 'log', 'id=%s', %s]%s)\n"
    P = [("known-fail-fast-one-more", T % ("a", "a", "'exit=1'", ", priority: 9") + T % ("b", "b", "'exit=0'", "") + T % ("c", "c", "'exit=0'", ""), ["-f", "-j", "1"]),
         ("known-fail-fast-left", T % ("a", "a", "'beat=300', 'exit=1'", ", priority: 9") + T % ("b", "b", "'beat=8000'", "") + T % ("c", "c", "'beat=8000'", "")
          + T % ("d", "d", "'exit=0'", ""), ["-f", "-j", "2"]),
         ("known-children", T % ("a", "a", "'child=9000', 'beat=9000'", ", timeout: 1"), ["-j", "1"])]
    for key, src, argv in P:
        d = ck.tmp("k")
        files = {"meson.build": "project('main')\np = find_program(meson.global_source_root() / 'probe')\n" + src}
        for n, s in files.items():
            write(os.path.join(d, n), s)
        shutil.copy(prb, os.path.join(d, "probe"))
        os.chmod(os.path.join(d, "probe"), 0o755)
        subprocess.run(["chown", "-R", "65534:65534", d])
        res = run([muon, "setup", "build"], cwd=d, user=65534, merge=True, timeout=60)
        if res.rc == 0:
            res = run([muon, "-C", "build", "test", "-R"] + argv, cwd=d, user=65534, merge=True, timeout=60)
        time.sleep(.3)
        log = read(os.path.join(d, "log")).decode() if os.path.exists(os.path.join(d, "log")) else ""
        ev = [l.split() for l in log.splitlines()]
        left = [(e[1], int(e[3])) for e in ev if len(e) == 5 and e[0] in "SC" and alive(int(e[3]), d)]
        started = [e[1] for e in ev if e[0] == "S"]
        ck.case(src)
        for q in {q for _, q in left}:
            os.kill(q, 9)
        if crashed(res) or res.rc == 0 or "a" not in started:
            ck.violation(key + ":other", "status %s, started %s\n%s" % (res.rc, started, res.text[-900:]), files)
        elif "one-more" in key and len(started) > 1:
            ck.violation(key if started == ["a", "b"] else key + ":other", "started after a failure: %s\n%s" % (started, res.text[-900:]), files)
        elif "one-more" not in key and left:
            ck.violation(key, "left running: %s\n%s" % (left, res.text[-900:]), files)
        shutil.rmtree(d, ignore_errors=True)


def body(ck):
    ck.rule = "one case is one run of a generated test suite; its event log is what is checked"
    import threading
    ck.solo = threading.Lock()
    muon, prb = build("asan"), probe()
    known(ck, muon, prb)
    ck.map(lambda i: one(ck, i, muon, prb), range(ck.n(170, 2400)))
    ck.assumptions = ["a failure counts for fail-fast when its process has ended (with one job) or 1.5 s later (with several)",
                      "a process that leaves the process group of its test is not followed"]
    ck.finish(min_evals=60)


if __name__ == "__main__":
    main("C17", body)
