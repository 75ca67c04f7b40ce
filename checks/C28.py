#!/usr/bin/env python3
"""C28: lookups in large and churning containers stay exact.

Long histories of insertions, overwrites, merges and deletions on dictionaries, arrays, variable
scopes and configuration data are replayed on a plain model; every lookup, membership test, key
listing and iteration the history asks for is compared, on ASan/UBSan builds with assertions."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm


def q(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(q, v)) + "]"
    return "'" + "".join("\\" + c if c in "'\\" else c if ord(c) >= 32 else "\\x%02x" % ord(c) for c in v) + "'"


def keys(r, n, ident=False):
    """n distinct keys of one style or several mixed"""
    out, seen = [], set()
    style = r.choice(["num", "prefix", "short", "long", "mixed", "mixed", "bytes", "pad"])
    if ident:
        style = r.choice(["num", "prefix", "short", "long", "pad"])
    i = 0
    while len(out) < n:
        i += 1
        s = style if style != "mixed" else r.choice(["num", "prefix", "short", "long", "bytes", "pad", "empty"])
        if s == "num":
            k = "k%d" % i
        elif s == "prefix":
            k = "a" * (1 + i % 60) + ("" if i < 60 else "b%d" % (i // 60))
        elif s == "short":
            k = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGH") for _ in range(r.choice([1, 2, 2, 3, 3])))
        elif s == "long":
            k = "p" * r.choice([30, 200, 300, 1000 if n < 200 else 40]) + "%d" % i
        elif s == "bytes":
            k = "".join(chr(r.choice([1, 9, 31, 32, 33, 39, 92, 97, 126, 127, 233, 0x6f22])) for _ in range(r.randrange(5)))
        elif s == "pad":
            k = "x%08d_%d" % (i, i % 7)
        else:
            k = ""
        if style == "short" and len(seen) > 800:
            k += "_%d" % i
        if style == "bytes" and len(seen) > 1000:
            k += "%d" % i
        if k not in seen and (not ident or re.fullmatch("[a-zA-Z_][a-zA-Z0-9_]*", k)):
            seen.add(k)
            out.append(k)
    return out


class H:
    def __init__(self, r):
        self.r, self.L, self.out, self.checks = r, [], [], 0

    def w(self, s):
        self.L.append(s)

    def ask(self, expr, v):
        self.w("message('Q', %s)" % expr)
        self.out.append("message: Q %s \n" % (v if isinstance(v, str) and v in ("true", "false") else lm.show(v)))
        self.checks += 1

    def dump(self, name, d):
        self.w("foreach k, v : %s\n  message('K', v, k)\nendforeach\nmessage('end')" % name)
        self.out += ["message: K %d %s \n" % (v, lm.show_top(k)) for k, v in d.items()] + ["message: end \n"]
        self.checks += len(d)


def b(x):
    return "true" if x else "false"


def dict_history(r, big):
    h = H(r)
    n = r.choice([14, 15, 16, 17, 40, 100, 300] + ([700, 1500] if big else []))
    ks = keys(r, n)
    infn = n > 300 or r.random() < .6
    if infn:
        h.w("d = {}\nfunc put(k str, v any)\n  d += {k: v}\nendfunc\nfunc del(k str)\n  d.delete(k)\nendfunc")
    else:
        h.w("d = {}")
    d = {}
    ops = r.choice([n, n * 2, 60 + n])
    churn = r.random()
    val = 0
    phase = r.choice(["grow", "churn"])
    for i in range(ops):
        if r.random() < .004:
            phase = r.choice(["grow", "churn", "shrink"])
        k = r.choice(ks) if phase != "grow" else ks[i % n]
        x = r.random()
        if x < {"grow": .75, "churn": .4, "shrink": .1}[phase]:
            val += 1
            if infn and r.random() < .9:
                h.w("put(%s, %d)" % (q(k), val))
                d[k] = val
            elif not infn:
                h.w("d += {%s: %d}" % (q(k), val))
                d[k] = val
        elif x < .85 and churn < .7:
            h.w("d.delete(%s)" % q(k) if not infn or r.random() < .5 else "del(%s)" % q(k))
            d.pop(k, None)
        elif x < .9:
            h.ask("%s in d" % q(k), b(k in d))
        elif x < .94:
            h.ask("d.get(%s, 'none')" % q(k), d.get(k, "none"))
        elif x < .96 and k in d:
            h.ask("d[%s]" % q(k), d[k])
        elif x < .98:
            h.ask("d.has_key(%s)" % q(k), b(k in d))
        elif n <= 300 or r.random() < .05:
            h.ask("d.keys().length()", len(d))
    h.ask("d.keys()", list(d))
    h.dump("d", d)
    for k in (ks if n <= 300 else r.sample(ks, 300)):
        h.ask("d.get(%s, 'none')" % q(k), d.get(k, "none"))
    # merges and equality, the operands stay what they were
    e = {k: 100000 + i for i, k in enumerate(r.sample(ks, r.randrange(len(ks) + 1)) + ["extra1", "extra2"])}
    h.w("e = {%s}" % ", ".join("%s: %d" % (q(k), v) for k, v in e.items()))
    h.w("m = d + e")
    m = dict(d)
    m.update(e)
    h.dump("m", m)
    h.ask("d.keys().length()", len(d))
    h.ask("e.keys().length()", len(e))
    h.w("n = {%s}" % ", ".join("%s: %d" % (q(k), v) for k, v in reversed(list(m.items()))))
    h.ask("m == n", b(True))
    if m:
        k = r.choice(list(m))
        h.ask("m + {%s: -1} == n" % q(k), b(False))
        h.ask("m + {'other': 1} == n", b(False))
        h.ask("n == m + {'other': 1}", b(False))
    # emptied and filled again
    if r.random() < .5:
        h.w("foreach k, v : d\n  d.delete(k)\nendforeach")
        h.ask("d == {}", b(True))
        h.ask("d.keys().length()", 0)
        if infn:
            for i in range(r.choice([1, 15, 20])):
                h.w("put('again%d', %d)" % (i, i))
            h.ask("d.has_key('again0')", b(True))
            h.ask("d.has_key(%s)" % q(ks[0]), b(False))
    return h


def array_history(r, big):
    h = H(r)
    n = r.choice([1, 2, 3, 20, 200] + ([3000] if big else []))
    infn = n > 200 or r.random() < .5
    h.w("l = []")
    if infn:
        h.w("func push(v list[any])\n  l += v\nendfunc")
    l = []
    for i in range(r.choice([n, 2 * n, 40])):
        x = r.random()
        if x < .6:
            v = [r.randrange(50) for _ in range(r.choice([1, 1, 2, 5, 0]))]
            if len(v) == 1 and not infn and r.random() < .5:
                h.w("l += %d" % v[0])
            else:
                h.w("push(%s)" % q(v) if infn else "l += %s" % q(v))
            l += v
        elif x < .75 and l:
            j = r.choice([0, -1, r.randrange(-len(l), len(l)), len(l) - 1])
            h.w("l.delete(%d)" % j)
            del l[j]
        elif x < .85 and l:
            j = r.randrange(-len(l), len(l))
            h.ask(r.choice(["l[%d]", "l.get(%d)"]) % j, l[j])
        elif x < .9:
            v = r.randrange(60)
            h.ask(r.choice(["%d in l", "l.contains(%d)"]) % v, b(v in l))
        elif x < .95:
            h.ask("l.length()", len(l))
        else:
            m = [1000 + i, 7]
            h.ask("(l + %s).length()" % q(m), len(l) + 2)
    h.ask("l", l)
    h.w("foreach v : l\n  message('V', v)\nendforeach")
    h.out += ["message: V %d \n" % v for v in l]
    h.checks += len(l)
    m = [r.randrange(9) for _ in range(r.randrange(40))]
    h.w("m = %s" % q(m))
    h.ask("l + m", l + m)
    h.ask("m + l + m", m + l + m)
    h.ask("l.length()", len(l))
    h.ask("m", m)
    return h


def scope_history(r, big, proj):
    h = H(r)
    n = r.choice([14, 16, 30, 120] + ([1500] if big else []))
    ks = ["z_" + k for k in keys(r, n, True)]
    d = {}
    for i in range(r.choice([n * 2, n * 4])):
        k = r.choice(ks)
        x = r.random()
        if x < .2:
            h.w("%s = %d" % (k, i))
            d[k] = i
        elif x < .4:
            h.w("set_variable(%s, %d)" % (q(k), i))
            d[k] = i
        elif x < .6 and k in d:
            h.w("unset_variable(%s)" % q(k))
            del d[k]
        elif x < .7:
            h.ask("is_variable(%s)" % q(k), b(k in d))
        elif x < .85:
            h.ask("get_variable(%s, 'none')" % q(k), d.get(k, "none"))
        elif k in d:
            if r.random() < .3:
                h.w("%s += 1" % k)
                d[k] += 1
            h.ask(k, d[k])
    for k in ks:
        h.ask("get_variable(%s, 'none')" % q(k), d.get(k, "none"))
    return h


def conf_history(r, big):
    h = H(r)
    n = r.choice([14, 16, 30, 120] + ([2000] if big else []))
    ks = keys(r, n, True)
    h.w("d = configuration_data()\ne = configuration_data()")
    d, e = {}, {}
    for i in range(n * 2 + 20):
        k = r.choice(ks)
        x = r.random()
        if x < .5:
            h.w("d.set(%s, %d)" % (q(k), i))
            d[k] = i
        elif x < .6:
            h.w("e.set(%s, %d)" % (q(k), i))
            e[k] = i
        elif x < .61:
            h.w("d.merge_from(e)")
            d.update(e)
        elif x < .8:
            h.ask("d.has(%s)" % q(k), b(k in d))
        elif x < .95:
            h.ask("d.get(%s, 'none')" % q(k), d.get(k, "none"))
        elif n < 200:
            h.ask("d.keys().length()", len(d))
    for k in ks:
        h.ask("d.get(%s, 'none')" % q(k), d.get(k, "none"))
    h.w("foreach k : d.keys()\n  message('K', k, d.get(k))\nendforeach")
    return h, d


def body(ck):
    ck.rule = ("one evaluation is one history (tens to thousands of operations) whose every observation is compared with a plain "
               "model; distinct by program text, non-trivial if it compares at least ten observations")
    build_fork("asan")
    jobs = []
    N = ck.n(1500, 20000)
    for i in range(N):
        r = ck.rng("h", i)
        big = i % 25 == 0
        kind = r.choice(["dict"] * 5 + ["array"] * 2 + ["scope"] * 2 + ["conf"])
        extra = None
        if kind == "dict":
            h = dict_history(r, big)
        elif kind == "array":
            h = array_history(r, big)
        elif kind == "scope":
            h = scope_history(r, big, False)
        else:
            h, extra = conf_history(r, big)
        src = "\n".join(h.L) + "\n"
        proj = kind == "conf" or kind == "scope" and r.random() < .5
        if proj:
            src = "project('p')\n" + src
        nm = "meson.build" if proj else "f.meson"
        jobs.append(Job(["setup", "b"] if proj else ["internal", "eval", nm], {nm: src}, tag=(kind, proj, h, extra), timeout=120))
    # whole batches at scale, generated inside the language
    for i in range(ck.n(6, 40)):
        r = ck.rng("scale", i)
        n, step = r.choice([20000, 33000, 50000]), r.choice([2, 3, 7])
        h = H(r)
        h.w("d = {}\nl = []\nfunc fill(n int)\n  foreach i : range(n)\n    d += {'%s@0@'.format(i): i}\n    l += i\n  endforeach\nendfunc\n"
            "func thin(n int)\n  foreach i : range(0, n, %d)\n    d.delete('%s@0@'.format(i))\n  endforeach\nendfunc\nfill(%d)" % (*(["k", step, "k"]), n))
        h.ask("d.keys().length()", n)
        h.ask("l.length()", n)
        h.w("s = 0\nforeach k, v : d\n  s += v\nendforeach")
        h.ask("s", n * (n - 1) // 2)
        h.w("thin(%d)" % n)
        left = [x for x in range(n) if x % step]
        h.ask("d.keys().length()", len(left))
        h.w("s = 0\nlast = -1\nordered = true\nforeach k, v : d\n  s += v\n  if v <= last or k != 'k@0@'.format(v)\n    ordered = false\n  endif\n  last = v\nendforeach")
        h.ask("s", sum(left))
        h.ask("ordered", b(True))
        for _ in range(60):
            x = r.randrange(n + 10)
            h.ask("d.get('k%d', 'none')" % x, x if x < n and x % step else "none")
            if x < n:
                h.ask("l[%d]" % x, x)
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(h.L) + "\n"}, tag=("scale", False, h, None), timeout=300))

    def judge(j, d=None):
        kind, proj, h, conf = j.tag
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation("crash:%s" % (k or "timeout"), j.res.all[-2500:], j.files)
            return
        t = j.res.text
        if proj:
            t = re.sub(r"\A.*?^configuring 'p'[^\n]*\n", "", t, flags=re.S | re.M)
            t = re.sub(r"\n(version: [^\n]*\n)?setup complete\n\Z", "\n", t)
        ck.case(list(j.files.values())[0] if h.checks >= 10 else None,
                sample=dict(kind=kind, comparisons=h.checks) if len(t) % 97 == 0 else None)
        ck.count(kind + "_observations", h.checks)
        want = "".join(h.out)
        if conf is not None:
            i = t.find("message: K ")
            ks = re.findall(r"message: K (\S+) (\d+) \n", t[i:]) if i >= 0 else []
            t = t[:i] if i >= 0 else t
            if sorted(ks) != sorted((k, str(v)) for k, v in conf.items()):
                ck.violation("conf-keys", "keys() listed %s\nwant %s" % (ks[:50], list(conf.items())[:50]), j.files)
                return
        if j.res.rc or re.sub(r"\s+\Z", "", re.sub(r"\A\s+", "", t)) != want.strip():
            a, w = t.strip(), want.strip()
            p = next((x for x in range(min(len(a), len(w))) if a[x] != w[x]), min(len(a), len(w)))
            ck.violation("history:" + kind, "rc %s, differ at %d\n got  %s\n want %s" % (j.res.rc, p, a[max(0, p - 200):p + 300], w[max(0, p - 200):p + 300]), j.files)
    run_jobs(ck, jobs, fn=judge, chunk=8)
    ck.finish(min_evals=1000)


if __name__ == "__main__":
    main("C28", body)
