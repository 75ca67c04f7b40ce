"""C20: builds by the embedded ninja that are killed, fail or find their logs damaged, and what the next build makes of it."""
import os, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, btgraph
from vlib import main


def group_alive(pgid):
    """Whether some process of the group, zombies aside, is left."""
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read()
                rest = f[f.rindex(")") + 2:].split()
                if int(rest[2]) == pgid and rest[0] != "Z":
                    return True
            except (OSError, ValueError):
                pass
    return False


KINDS = ["kill-all", "kill-all", "kill-samu", "kill-command", "fail", "fail", "truncate", "truncate", "damage", "unstartable", "delout-fail"]


def check(ck):
    plain, asan, tool = vlib.build("plain"), vlib.build("asan"), btgraph.bt()

    def one(h):
        r = ck.rng("h", h)
        base = ck.tmp("g")
        os.chmod(base, 0o777)
        hist = []
        try:
            g = btgraph.Graph(r, tool, size=r.choice([3, 5, 8, 13]))
            for e in g.edges.values():
                if r.random() < .15 and e.dep is None:
                    e.restat = True
            site = btgraph.Site(ck, g, base, asan if h % 4 == 0 else plain)
            if r.random() < .75:
                if not recover(site, r, hist):
                    return
            for _ in range(r.randrange(1, 5)):
                edits(site, r, hist)
                undone = False
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    kind = r.choice(KINDS)
                    while undone and kind in ("truncate", "damage"):
                        kind = r.choice(KINDS)
                    undone |= kind not in ("truncate", "damage")
                    if not incident(site, r, hist, kind):
                        return
                    if r.random() < .25:
                        edits(site, r, hist)
                if not recover(site, r, hist):
                    return
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def edits(site, r, hist):
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            d = site.g.edit(site.base)
            if d:
                hist.append(d)
        site.flush()
        site.write_manifest()
        site.own()
        time.sleep(.012)

    def bad(site, hist, key, text, res):
        ck.violation(key, "%s\nhistory: %s\nevents: %s\n%s" % (text, hist, site.events(), res.text[-1500:] if res else ""),
                     {"build.ninja": site.text, "output.txt": res.out if res else b""})
        return False

    def sane(site, hist, res, jobs, what):
        if res.timeout:
            return bad(site, hist, what + ":hang", "the build does not end", res)
        c = vlib.crashed(res)
        if c:
            return bad(site, hist, "crash:" + c, "the build crashes", res)
        for kind, text in btgraph.schedule_faults(site.g, site.events(), jobs, None):
            return bad(site, hist, what + ":" + kind, text, res)
        return True

    def recover(site, r, hist):
        """A build that nothing disturbs must end well, whatever came before it, and leave what a build from scratch leaves."""
        g = site.g
        jobs = r.choice([1, 2, 4, 8])
        site.ctl({})
        time.sleep(.012)
        # what the model knows of the dependency records cannot be relied on here
        g.deps.clear()
        targets = r.sample(g.allouts(), 1) if r.random() < .1 else None
        hist.append("build -j%d %s" % (jobs, targets or ""))
        res = site.build(["-j%d" % jobs] + (targets or []))
        if not sane(site, hist, res, jobs, "recover"):
            return False
        if res.rc != 0:
            return bad(site, hist, "recover:fails", "the next build fails with status %s" % res.rc, res)
        ck.count("recoveries")
        ck.count("commands", sum(1 for w, _, _ in site.events() if w == "S"))
        for o, t in g.scratch(targets).items():
            got = site.text_of(o)
            if got != t:
                return bad(site, hist, "recover:content", "%s is %r, a build from scratch makes %r" % (o, got, t), res)
        time.sleep(.012)
        hist.append("repeat")
        res = site.build(["-j%d" % jobs] + (targets or []))
        if not sane(site, hist, res, jobs, "repeat"):
            return False
        if res.rc != 0 or site.events():
            return bad(site, hist, "repeat", "the build after that runs %s (status %s)" % (site.events()[:3], res.rc), res)
        # the model is in step again for everything on disk
        for e in g.edges.values():
            for o in e.outs:
                t = site.text_of(o)
                if t is None:
                    g.stamp.pop(o, None)
                else:
                    g.stamp[o] = g.tick()
                    g.content[o] = t
        return True

    def incident(site, r, hist, kind):
        g = site.g
        ck.count("incidents_" + kind)
        ck.case("%s %d %s" % (kind, len(g.edges), r.random()))
        jobs = r.choice([1, 2, 4, 8])
        if kind in ("truncate", "damage"):
            names = [n for d in ("", "bd/") for n in (d + ".ninja_log", d + ".ninja_deps") if os.path.exists(os.path.join(site.base, n))]
            for n in r.sample(names, min(len(names), r.choice([1, 1, 2]))):
                p = os.path.join(site.base, n)
                d = vlib.read(p)
                if kind == "truncate":
                    k = r.choice([0, len(d), r.randrange(len(d) + 1), r.randrange(len(d) + 1), max(0, len(d) - r.randrange(1, 40))])
                    d = d[:k]
                    hist.append("truncate %s to %d" % (n, k))
                else:
                    how = r.choice(["garbage", "append", "header", "line", "nul", "double", "nohash"])
                    hist.append("damage %s: %s" % (n, how))
                    junk = bytes(r.randrange(256) for _ in range(r.randrange(1, 200)))
                    ls = d.split(b"\n")
                    if how == "garbage":
                        d = junk
                    elif how == "append":
                        d += junk
                    elif how == "header":
                        d = junk[:8] + d[8:]
                    elif how == "line" and n.endswith("log"):
                        ls.insert(r.randrange(1, len(ls) + 1), junk.replace(b"\n", b""))
                        d = b"\n".join(ls)
                    elif how == "nul":
                        d += b"\0" * r.randrange(1, 5000)
                    elif how == "double" and n.endswith("log"):
                        k = r.randrange(len(ls))
                        ls.insert(k, ls[k][:r.randrange(len(ls[k]) + 1)])
                        d = b"\n".join(ls)
                    elif how == "nohash" and n.endswith("log"):
                        # a later line for an output, cut off before its command hash
                        k = r.randrange(1, len(ls)) if len(ls) > 2 else 0
                        f = ls[k].split(b"\t")
                        if len(f) == 5:
                            d += b"0\t0\t%d\t%s" % (time.time_ns(), f[3])
                vlib.write(p, d)
            site.own()
            return True
        table = {}
        for i in g.edges:
            table[i] = "%d %d\n" % (r.choice([0, 0, 1, 4, 10]), r.choice([0, 1, 4, 10]))
        if kind == "unstartable":
            for i in r.sample(sorted(g.edges), r.randrange(1, 3)):
                e = g.edges[i]
                if e.rsp is None:
                    e.rsp = "x"
                p = os.path.join(site.base, i + ".rsp")
                if not os.path.exists(p):
                    os.mkdir(p)
            site.write_manifest()
            site.own()
        if kind == "delout-fail":
            # outputs of finished commands go, and their commands fail after writing half of them
            for e in r.sample(sorted(g.edges.values(), key=lambda e: e.id), r.randrange(1, 3)):
                o = r.choice(e.outs)
                if os.path.exists(os.path.join(site.base, o)):
                    os.unlink(os.path.join(site.base, o))
                    hist.append("delete " + o)
                table[e.id] = "0 0 %s\n" % r.choice(["fail", "kill", "faillate"])
        if kind == "fail":
            for i in r.sample(sorted(g.edges), r.randrange(1, 1 + max(1, len(g.edges) // 2))):
                table[i] = "%d 0 %s\n" % (r.choice([0, 3]), r.choice(["fail", "kill", "failearly", "faillate"]))
        site.ctl(table)
        args = ["-j%d" % jobs] + (["-k%d" % r.choice([0, 2])] if r.random() < .4 else [])
        hist.append("build %s, %s" % (" ".join(args), kind))
        if kind in ("fail", "unstartable", "delout-fail"):
            g.deps.clear()
            res = site.build(args)
            for d in os.listdir(site.base):
                p = os.path.join(site.base, d)
                if d.endswith(".rsp") and os.path.isdir(p):
                    os.rmdir(p)
            if not sane(site, hist, res, jobs, "failing"):
                return False
            failed = any(w == "F" for w, _, _ in site.events())
            if failed and res.rc == 0:
                return bad(site, hist, "failing:status", "a command failed and the build exits 0", res)
            if kind == "fail" and not failed and res.rc != 0:
                return bad(site, hist, "failing:nothing", "no command failed and the build exits %s" % res.rc, res)
            if failed:
                ck.count("failed_builds")
            prod = g.producers()
            dead = {i for w, i, _ in site.events() if w == "F"}
            for w, i, _ in site.events():
                if w == "S":
                    e = g.edges[i]
                    for p in g.expand(e.order + e.ins + e.imp):
                        if p in prod and prod[p].id in dead:
                            return bad(site, hist, "failing:dependent", "%s ran after %s, which makes its input, had failed" % (i, prod[p].id), res)
            return True
        # kill something once some number of events has been seen
        if os.path.exists(site.log):
            os.unlink(site.log)
        env = dict(vlib.BASE_ENV)
        out = open(os.path.join(ck.scratch, "kill-%s.out" % os.path.basename(site.base)), "wb+")
        kw = dict(user=65534, group=65534, extra_groups=[]) if os.getuid() == 0 else {}
        p = subprocess.Popen([site.muon, "samu", "-C", site.base] + args, cwd="/", env=env, stdin=subprocess.DEVNULL,
                             stdout=out, stderr=out, start_new_session=True, **kw)
        after = r.randrange(0, len(g.edges) + 1)
        delay = r.choice([0, 0, .001, .004, .02]) * r.random()
        t0 = time.monotonic()
        while p.poll() is None and time.monotonic() - t0 < 30:
            if after == 0 or (os.path.exists(site.log) and vlib.read(site.log).count(b"\n") >= after):
                break
            time.sleep(.0005)
        time.sleep(delay)
        was = p.poll() is None
        killed = []
        if was:
            ck.count("killed_while_running")
            if kind == "kill-all":
                os.killpg(p.pid, signal.SIGKILL)
            elif kind == "kill-samu":
                os.kill(p.pid, r.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
            else:
                for q in os.listdir("/proc"):
                    if q.isdigit() and int(q) != p.pid:
                        try:
                            st = open("/proc/%s/stat" % q).read()
                            if int(st[st.rindex(")") + 2:].split()[2]) == p.pid and st.split("(")[1].startswith(("bt-", "sh")):
                                os.kill(int(q), signal.SIGKILL)
                                killed.append(q)
                                break
                        except (OSError, ValueError, ProcessLookupError):
                            pass
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            ck.violation("killed:hang", "the build does not end after a command was killed\nhistory: %s" % hist)
            return False
        t0 = time.monotonic()
        while group_alive(p.pid):
            time.sleep(.002)
            if time.monotonic() - t0 > 30:
                os.killpg(p.pid, signal.SIGKILL)
        out.close()
        text = vlib.read(out.name)
        os.unlink(out.name)
        if kind == "kill-command":
            res = vlib.Res(rc, text, b"", False, 0)
            if vlib.crashed(res):
                return bad(site, hist, "crash:" + vlib.crashed(res), "the build crashes", res)
            # a command that ended in the record was done: whether its shell was still there then is not known
            running = [i for w, i, _ in site.events() if w == "S"]
            ended = [i for w, i, _ in site.events() if w == "E"]
            if killed and rc == 0 and set(running) - set(ended):
                return bad(site, hist, "killed:status", "a command was killed and the build exits 0", res)
        g.deps.clear()
        return True

    ck.map(one, range(ck.n(300, 6000)))
    ck.rule = "an incident (kill, failure, damage to a log) counts once per random instance; recoveries are counted apart"
    ck.assumptions += [
        "a log is only damaged after a build that ended well: a log that lost what an interrupted build wrote last says the outputs of that build are as before",
        "commands left running by a killed build have ended before the next build starts",
        "damage to a log is what cannot pass for a different valid record: cut off files, foreign or cut off lines, other headers (the formats carry no checksums)",
    ]
    ck.finish(ck.n(150, 4000))


if __name__ == "__main__":
    main("C20", check)
