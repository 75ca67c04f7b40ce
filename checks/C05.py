#!/usr/bin/env python3
"""C05: formatting never changes what a build file means.

Monitor: every formatted text is read by a parser of our own (lib/mesonparse.py) and its tree and
comments are compared with those of the original; muon itself has to accept it; and for runnable
programs the messages printed by the formatted text are compared with the reference model of the
language. The formatter runs under ASan/UBSan."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fmtcases, fmtgen, mesonparse
import langmodel as lm
from vlib import *

sys.setrecursionlimit(20000)


def show(a, b):
    """first place where two trees differ"""
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    return show(x, y)
        return "%.200r became %.200r" % (a, b)
    return "%.200r became %.200r" % (a, b)


def judge(src, out, ext):
    """None, or (kind, what is wrong with out as a formatted src)"""
    ta, ca, sa = mesonparse.parse(src, ext)
    try:
        tb, cb, sb = mesonparse.parse(out, ext)
    except (mesonparse.Bad, RecursionError) as e:
        return "invalid", "the formatted text is no build file: %s" % e
    if ta != tb:
        return "meaning", show(ta, tb)
    if sa or sb:
        ca, cb = sorted(ca), sorted(cb)
    if ca != cb:
        lost = [c for c in ca if ca.count(c) > cb.count(c)]
        new = [c for c in cb if cb.count(c) > ca.count(c)]
        return "comments", "lost %.300r, new %.300r%s" % (lost, new, "" if lost or new else ", order changed")
    return None


def body(ck):
    ck.rule = ("build files are random token programs, the repository's own build files and runnable model programs, laid out in random ways with comments "
               "between any two tokens, formatted with random configurations; one is distinct and non-trivial if its text and configuration are new, "
               "muon accepts it and formatting changes its bytes")
    ck.assumptions += ["the order of the arguments of files(), and of comments in files that call it with two or more arguments, is left open",
                       "a file the formatter leaves byte for byte as it was counts as formatted"]
    build_fork("asan")
    corp = fmtcases.corpus()
    if len(corp) < 150:
        ck.give_up("only %d build files to start from" % len(corp))
    stats = {}
    jobs = []

    def add(kind, src, ext, r, prog=None):
        f = "f.meson" if ext else "f.build"
        if "\0" in src:
            return
        try:
            mesonparse.parse(src, ext)
        except (mesonparse.Bad, RecursionError) as e:
            ck.count("not_buildfile_" + kind)
            return
        cfg, args = fmtcases.config(r)
        files = dict(cfg)
        files[f] = src
        jobs.append(Job(["fmt"] + args + ["-i", f], files, tag=(kind, src, ext, f, prog, args)))

    for i in range(ck.n(1100, 14000)):
        r = ck.rng("tokens", i)
        ext = r.random() < .3
        add("tokens", fmtgen.layout(r, fmtgen.Gen(r, ext).program(), comments=r.random() < .6, wild=r.choice([0, .02, .05, .15])), ext, r)
    for i in range(ck.n(900, 9000)):
        r = ck.rng("corpus", i)
        t, ext = r.choice(corp)
        if r.random() < .8:
            t = fmtcases.relayout(r, t, r.random() < .7, r.choice([0, .01, .03, .15]))
        add("corpus", t, ext, r)
    for i in range(ck.n(350, 4000)):
        r = ck.rng("model", i)
        p = lm.make(r, r.choice([3, 8, 15]), tracers=True, bad=0)
        if p is None or p[2] is not None:
            continue
        src = p[0]
        if r.random() < .5:
            try:
                t, _ = mesonparse.tokens(src)
            except mesonparse.Bad:
                continue
            src = fmtgen.layout(r, [x[1] for x in t], r.random() < .6, r.choice([0, .02, .1]))
        add("model", src, True, r, p)

    second = []

    def got(j, d):
        kind, src, ext, f, prog, args = j.tag
        res = j.res
        out = read(os.path.join(d, f))
        conf = "".join("%s:\n%s" % (n, j.files[n]) for n in j.files if n != f)
        if res.timeout or crashed(res):
            ck.violation("crash", "fmt %s: %s\n%s" % (" ".join(args), res.text[-600:], conf), {f: src, "c.ini": j.files.get("c.ini", "")})
            return
        if res.rc != 0:
            second.append(Job(["check"] + (["-m", "functions"] if ext else []) + [f], {f: src}, tag=("original", j, out)))
            return
        try:
            text = out.decode("utf-8")
        except UnicodeDecodeError:
            ck.violation("bytes", "the formatted text is not UTF-8 any more", {f: src})
            return
        bad = judge(src, text, ext)
        if bad:
            second.append(Job(["check"] + (["-m", "functions"] if ext else []) + [f], {f: src}, tag=("original", j, (bad, text))))
            return
        same = text == src
        notice = "leaving it unchanged" in res.text
        for k in (kind, "same" if same else "changed") + (("left",) if notice else ()):
            stats[k] = stats.get(k, 0) + 1
        ck.case(None if same else "%s%s%s" % (src, args, conf), 1, {"args": args, "source": src[:300], "formatted": text[:300]})
        second.append(Job(["check"] + (["-m", "functions"] if ext else []) + [f], {f: text}, tag=("formatted", j, text)))
        if prog and not same:
            second.append(Job(["internal", "eval", f], {f: text}, tag=("run", j, text)))

    run_jobs(ck, jobs, fn=got)

    def got2(j, d):
        what, first, extra = j.tag
        kind, src, ext, f, prog, args = first.tag
        conf = "".join("%s:\n%s" % (n, first.files[n]) for n in first.files if n != f)
        files = {f: src, "c.ini": first.files.get("c.ini", "")}
        if what == "original":
            if j.res.rc != 0:
                ck.count("rejected")
                if isinstance(extra, tuple) and extra[0][0] == "meaning":
                    ck.count("accepted_by_fmt_only")
                return
            if isinstance(extra, tuple):
                (key, detail), text = extra
                files["formatted"] = text
                ck.violation(key, "%s\nfmt %s\n%s" % (detail, " ".join(args), conf), files)
            else:
                ck.violation("refused", "accepted by check, but fmt %s: %s\n%s" % (" ".join(args), first.res.text[-500:], conf), files)
        elif what == "formatted":
            if j.res.rc != 0:
                files["formatted"] = extra
                ck.count("formatted_rejected")
                second2.append(Job(["check"] + (["-m", "functions"] if ext else []) + [f], {f: src}, tag=("original", first, (("rejected", "muon rejects the formatted text: " + j.res.text[-400:]), extra))))
        else:
            ck.count("programs_run")
            d = cmp(j, f, prog)
            if d:
                files["formatted"] = extra
                second2.append(Job(["internal", "eval", f], {f: src}, tag=("runorig", first, (d, extra))))

    def cmp(j, f, prog):
        return lm.compare(j.res.text, f, prog[1], prog[2], j.res.rc)
    second2 = []
    run_jobs(ck, second, fn=got2)

    def got3(j, d):
        what, first, (det, text) = j.tag
        kind, src, ext, f, prog, args = first.tag
        files = {f: src, "c.ini": first.files.get("c.ini", ""), "formatted": text}
        if what == "original":
            if j.res.rc == 0:
                ck.violation(det[0], det[1], files)
        elif cmp(j, f, prog) is None:
            ck.violation("behaviour", "the formatted program behaves in another way: %s" % det, files)
        else:
            ck.count("model_disagrees")
    run_jobs(ck, second2, fn=got3)
    for k, v in stats.items():
        ck.count("n_" + k, v)
    if stats.get("changed", 0) * 3 < len(jobs):
        ck.give_up("only %d of %d texts were changed by the formatter" % (stats.get("changed", 0), len(jobs)))
    ck.finish(min_evals=1500)


if __name__ == "__main__":
    main("C05", body)
