"""C19: incremental builds by the embedded ninja against a model of which commands must run and what they leave."""
import os, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, btgraph
from vlib import main


def check(ck):
    plain, asan, tool = vlib.build("plain"), vlib.build("asan"), btgraph.bt()
    maxpar = [0]

    def one(h):
        r = ck.rng("h", h)
        base = ck.tmp("g")
        os.chmod(base, 0o777)
        hist = []
        try:
            g = btgraph.Graph(r, tool)
            site = btgraph.Site(ck, g, base, asan if h % 3 == 0 else plain)
            steps = r.randrange(3, 9)
            for step in range(steps):
                if step:
                    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                        d = g.edit(base)
                        if d:
                            hist.append(d)
                            ck.count("edits")
                    site.flush()
                    site.write_manifest()
                    site.own()
                    time.sleep(.012)
                if not verify(site, r, hist, h):
                    return
                time.sleep(.012)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def verify(site, r, hist, h):
        g = site.g
        jobs = r.choice([1, 2, 3, 4, 8, 16])
        targets = None
        if r.random() < .35:
            c = g.allouts() + list(g.phony)
            targets = r.sample(c, min(len(c), r.randrange(1, 4)))
        g.loaded()
        runs, seen = g.plan(targets)
        args = ["-j%d" % jobs]
        faults = {}
        if runs and r.random() < .25:
            for i in r.sample(runs, min(len(runs), r.choice([1, 1, 2]))):
                faults[i] = r.choice(["fail", "faillate", "failearly", "kill"])
            keep = r.choice([0, 0, 1, 2])
            args.append("-k%d" % keep)
        table = {}
        for i in g.edges:
            a = r.choice([0, 0, 1, 3, 8]) if r.random() < .6 else 0
            b = r.choice([0, 0, 2, 5]) if r.random() < .4 else 0
            if a or b or i in faults:
                table[i] = "%d %d %s\n" % (a, b, faults.get(i, ""))
        site.ctl(table)
        tl = [t for t in targets] if targets else []
        hist.append("build %s %s" % (" ".join(args), tl))

        def bad(key, text, res):
            ck.violation(key, "%s\nhistory: %s\nevents: %s\nexpected to run: %s\n%s" % (
                text, hist, site.events(), runs, res.text[-1500:]), {"build.ninja": site.text, "output.txt": res.out})
            return False

        def basic(res):
            if res.timeout:
                return bad("hang", "the build does not end", res)
            c = vlib.crashed(res)
            if c:
                return bad("crash:" + c, "the build crashes", res)
            return True
        if not site.regen and r.random() < .08:
            res = site.build(["-n"] + args + tl)
            if not basic(res):
                return False
            if res.rc != 0 or site.events():
                return bad("dryrun", "-n ran something or failed: %s" % res.rc, res)
            ck.count("dry_runs")
        res = site.build(args + tl)
        if not basic(res):
            return False
        ev = site.events()
        ck.count("builds")
        ck.count("commands", sum(1 for w, _, _ in ev if w == "S"))
        par = cur = 0
        for w, _, _ in ev:
            cur += (w == "S") - (w in "EF")
            par = max(par, cur)
        maxpar[0] = max(maxpar[0], par)
        for kind, text in btgraph.schedule_faults(g, ev, jobs, seen):
            return bad(kind, text, res)
        started = {i for w, i, _ in ev if w == "S"}
        extra = started - set(runs)
        if extra:
            i = sorted(extra)[0]
            return bad("unneeded" + (":restat" if any(g.edges[x].restat for x in g.edges) else ""), "%s ran although nothing it depends on changed" % i, res)
        # account
        for w, i, _ in ev:
            if w == "E":
                g.ran(i)
            elif w == "F":
                g.failed(i, faults.get(i, ""))
                ck.count("failures")
        if faults:
            if res.rc == 0:
                return bad("failed-exit", "a command failed and the build exits 0", res)
            if res.rc not in (1, 2):
                return bad("failed-exit", "exit status %s" % res.rc, res)
            if "-k0" in args:
                exp = set(runs) - blocked_by(g, faults, seen)
                # restat may prune what a failing run decides, so only commands independent of failures are demanded
                miss = exp - started
                if miss:
                    return bad("keep-going", "-k0 did not run %s" % sorted(miss)[0], res)
            site.ctl({})
            ck.case("fail %d %s" % (len(runs), sorted(faults.values())))
            return True
        if res.rc != 0:
            return bad("fails", "the build fails with status %s" % res.rc, res)
        miss = set(runs) - started
        if miss:
            return bad("stale", "%s did not run" % sorted(miss)[0], res)
        want = g.scratch(targets)
        for o, t in want.items():
            got = site.text_of(o)
            if got != t:
                return bad("content", "%s is %r, a build from scratch makes %r" % (o, got, t), res)
        for i in started:
            if ("ran %s\n" % i) not in res.text:
                return bad("output", "the output of %s is missing" % i, res)
            e = g.edges[i]
            if e.rsp is not None and os.path.exists(os.path.join(site.base, i + ".rsp")):
                return bad("rspfile", "the response file of %s is left behind" % i, res)
        ck.case("%d %d %d" % (len(g.edges), len(runs), jobs), sample="%d edges, %s: ran %d of %d" % (len(g.edges), hist[-3:], len(runs), len(seen)))
        if r.random() < .7:
            hist.append("repeat")
            res = site.build(["-j%d" % r.choice([1, 4])] + tl)
            if not basic(res):
                return False
            if res.rc != 0 or site.events():
                return bad("repeat", "an immediately repeated build runs %s (status %s)" % (site.events()[:3], res.rc), res)
            ck.count("repeats")
        return True

    def blocked_by(g, faults, seen):
        prod, memo = g.producers(), {}

        def dep(i):
            if i not in memo:
                memo[i] = i in faults and None
                e = g.edges[i]
                d = g.deps.get(e.outs[0])
                memo[i] = any(prod[p].id in faults or dep(prod[p].id) for p in g.expand(e.order + e.ins + e.imp) + (d[0] if d else []) if p in prod)
            return memo[i]
        return {i for i in seen if dep(i)}

    ck.map(one, range(ck.n(220, 6000)))
    ck.extra["max_commands_at_once"] = maxpar[0]
    ck.rule = "a build counts once per (edges, commands run, jobs); failing builds once per kind of failures"
    ck.assumptions += [
        "inputs change at least one clock tick after the outputs made from them: two changes within one tick cannot be told apart by any tool that compares modification times",
        "commands are deterministic functions of the inputs they name, of their dependency file and of their command line",
    ]
    ck.finish(ck.n(300, 8000))


if __name__ == "__main__":
    main("C19", check)
