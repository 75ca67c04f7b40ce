#!/usr/bin/env python3
"""C04: string methods and version comparison compute their defined results.

Oracle: for every generated call the value computed by an independent definition of the method
(Python's string operations where Meson defines itself by them); each program prints the results
of a few dozen calls and compares each of them inside the language with the expected literal too."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm

WS = " \t\n\r\f\v"


def q(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, list):
        return "[" + ", ".join(q(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(q(k) + ": " + q(x) for k, x in v.items()) + "}"
    return "'" + "".join("\\" + c if c in "'\\" else c if ord(c) >= 32 else "\\x%02x" % ord(c) for c in v) + "'"


class Err(Exception):
    pass


def vcmp(a, b):
    def seg(x):
        return [(1, int(s)) if s.isdigit() else (0, s) for s in re.findall(r"[0-9]+|[a-zA-Z]+", x)]
    x, y = seg(a), seg(b)
    return (x > y) - (x < y)


OPS = {">=": lambda c: c >= 0, "<=": lambda c: c <= 0, ">": lambda c: c > 0, "<": lambda c: c < 0, "==": lambda c: c == 0,
       "!=": lambda c: c != 0, "=": lambda c: c == 0, "": lambda c: c == 0}


def fmtstr(s, args):
    def f(m):
        i = int(m.group(1))
        if i >= len(args):
            raise Err("index")
        a = args[i]
        return a if isinstance(a, str) else q(a).strip("()")
    return re.sub(r"@([0-9]+)@", f, s)


class G:
    def __init__(self, r):
        self.r = r

    def s(self, n=None):
        r = self.r
        al = r.choice(["ab", "ab ", "abAB01_-. ", "a,b;", WS + "ab", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
                       "@0", "".join(map(chr, range(32, 127))), "aba", "/.a", "[]^`{|}@z{Z", "\x01\x1f~a\x7f", "é漢a𝄞"])
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 14, 30, 200 if r.random() < .1 else 5]) if n is None else n
        return "".join(r.choice(al) for _ in range(n))

    def sub(self, s):
        """a string likely to occur in s, or to nearly do"""
        r = self.r
        k = r.random()
        if s and k < .6:
            i = r.randrange(len(s))
            t = s[i:i + r.choice([1, 1, 2, 3, 5])]
            if r.random() < .15:
                t += r.choice("ab ")
            return t
        if k < .7:
            return ""
        if k < .8:
            return s
        if k < .85:
            return s + "a"
        return self.s(r.choice([1, 2, 3]))

    def pre(self, s):
        r = self.r
        k = r.random()
        if k < .5:
            return s[:r.randrange(len(s) + 1)]
        return self.sub(s)

    def int(self):
        return self.r.choice([0, 1, 2, 3, 5, -1, -2, -5, 7, 100, -100, 2**31, -2**31, 2**32, 2**63 - 1, -2**63 + 1, self.r.randrange(-20, 20)])

    def val(self, d=0):
        r = self.r
        k = r.random()
        if d > 2 or k < .6:
            return r.choice([self.r.randrange(4), r.choice("abc"), r.random() < .5, "", "ab"])
        if k < .85:
            return [self.val(d + 1) for _ in range(r.randrange(4))]
        return {x: self.val(d + 1) for x in r.sample(["a", "b", "c", ""], r.randrange(4))}

    def ver(self):
        r = self.r
        al = r.choice([["0", "1", "2", "10", "00", "01"], ["0", "1", "a", "b", "rc", "A"], ["1", "99999999999999999999", "100000000000000000000", "18446744073709551616"]])
        sep = r.choice([[".", "."], [".", "-", "_", "", "+", "~", " ", ".."]])
        v = "".join(r.choice(al) + r.choice(sep) for _ in range(r.randrange(1, 6)))
        if r.random() < .6:
            v = v.rstrip(".-_+~ ")
        return r.choice(["", "", "", "v", "."]) + v

    def case(self):
        """(expression, expected value) ; expected is an Err for a call outside the domain"""
        r = self.r
        k = r.randrange(26)
        s = self.s()
        asc = "".join(c for c in s if ord(c) < 128)
        S = "%s" % q(s)
        if k == 0:
            return S + ".strip()", s.strip(WS)
        if k == 1:
            if r.random() < .5:
                s = r.choice(WS) * r.randrange(3) + s + r.choice(WS) * r.randrange(3)
                return q(s) + ".strip()", s.strip(WS)
            c = "".join(x for x in self.sub(asc)) or "ab"
            return q(asc) + ".strip(%s)" % q(c), asc.strip(c)
        if k in (2, 3):
            if r.random() < .4:
                return S + ".split()", s.split() if not set(s) & set("\x1c\x1d\x1e\x1f\x85\xa0") else [x for x in re.split("[ \t\n\r\f\v]+", s) if x]
            sep = self.sub(s)
            return S + ".split(%s)" % q(sep), s.split(sep) if sep else Err("empty separator")
        if k in (4, 5):
            a, b = self.sub(s), self.s(r.randrange(3))
            return S + ".replace(%s, %s)" % (q(a), q(b)), s.replace(a, b) if a or s.isascii() else None
        if k in (6, 7):
            args = [r.randrange(-len(asc) - 3, len(asc) + 4) if r.random() < .9 else self.int() for _ in range(r.randrange(3))]
            st, en = (args + [None, None])[:2]
            return q(asc) + ".substring(%s)" % ", ".join(map(q, args)), asc[st:en]
        if k in (8, 9):
            args = [r.choice([self.s(2), r.random() < .5, self.int(), "@1@", "@0@", "\\"]) for _ in range(r.randrange(1, 12))]
            f = "".join(r.choice(["@%d@" % r.randrange(len(args)), "@", "@@", "0", "@a@", "x", "@-1@", "@0", "@ 0@", "@%d@" % r.randrange(14),
                                  "@+0@", "@00@", " "]) for _ in range(r.randrange(6)))
            try:
                return q(f) + ".format(%s)" % ", ".join(map(q, args)), fmtstr(f, args)
            except Err as e:
                return q(f) + ".format(%s)" % ", ".join(map(q, args)), e
        if k == 10:
            return q(asc) + ".to_upper()", asc.upper()
        if k == 11:
            return q(asc) + ".to_lower()", asc.lower()
        if k == 12:
            return q(asc) + ".underscorify()", re.sub("[^a-zA-Z0-9]", "_", asc)
        if k == 13:
            t = r.choice(["%d", " %d", "%d ", "%dx", "x%d", "0%d", "%d.0", "--%d", "%d %d", "\t%d\n", "%d", "0x%d", "%d-", "+"]).replace("%d", str(self.int()))
            t = r.choice([t, t, t, "", " ", "-", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999"])
            m = re.fullmatch(r"[ \t\n\r\f\v]*([-]?[0-9]+)[ \t\n\r\f\v]*", t)
            if m and -2**63 < int(m.group(1)) < 2**63:
                return q(t) + ".to_int()", int(m.group(1))
            return q(t) + ".to_int()", Err("int")
        if k == 14:
            p = self.pre(s)
            return S + ".startswith(%s)" % q(p), s.startswith(p)
        if k == 15:
            p = s[r.randrange(len(s) + 1):] if r.random() < .5 else self.sub(s)
            return S + ".endswith(%s)" % q(p), s.endswith(p)
        if k == 16:
            p = self.sub(s)
            return r.choice([S + ".contains(%s)" % q(p), "%s in %s" % (q(p), S)]), p in s
        if k == 17:
            xs = [self.s(r.randrange(4)) for _ in range(r.randrange(5))]
            j = self.s(r.randrange(3))
            if r.random() < .5:
                return q(j) + ".join(%s)" % q(xs), j.join(xs)
            xs.append("z")
            return q(j) + ".join(%s)" % ", ".join(map(q, xs)), j.join(xs)
        if k == 18:
            i = r.randrange(-len(asc) - 2, len(asc) + 2)
            return q(asc) + "[%s]" % q(i), asc[i] if -len(asc) <= i < len(asc) else Err("index")
        if k in (19, 20):
            a, b = self.ver(), self.ver()
            if r.random() < .35:
                b = a + r.choice(["", ".", ".0", "a", "-1", "0"])
            if r.random() < .3:
                a, b = b, a
            op = r.choice(list(OPS))
            return q(a) + ".version_compare(%s)" % q(op + b), OPS[op](vcmp(a, b))
        if k == 21:
            n = self.int()
            m, v = r.choice([("to_string()", str(n)), ("is_even()", n % 2 == 0), ("is_odd()", n % 2 == 1)])
            return "(%s).%s" % (q(n), m), v
        if k == 22:
            b = r.random() < .5
            a, c = self.s(3), self.s(3)
            m, v = r.choice([("to_string()", q(b)), ("to_int()", int(b)), ("to_string(%s, %s)" % (q(a), q(c)), a if b else c)])
            return "%s.%s" % (q(b), m), v
        if k in (23, 24):
            xs = [self.val(1) for _ in range(r.randrange(6))]
            i = r.randrange(-len(xs) - 2, len(xs) + 3) if r.random() < .9 else self.int()
            ok = -len(xs) <= i < len(xs)
            v = self.val() if r.random() < .5 or not xs else r.choice(xs)

            if k == 23 and not ok and r.random() < .4:
                return "[0]\nl = %s\nl.delete(%s)" % (q(xs), q(i)), Err("index")
            xq = q(xs)
            return r.choice([(xq + ".length()", len(xs)), (xq + ".get(%s)" % q(i), xs[i] if ok else Err("index")),
                             (xq + "[%s]" % q(i), xs[i] if ok else Err("index")), (xq + ".get(%s, 'dflt')" % q(i), xs[i] if ok else "dflt"),
                             (xq + ".contains(%s)" % q(v), lm_contains(xs, v)), ("%s in %s" % (q(v), xq), any(same(x, v) for x in xs)),
                             ("%s not in %s" % (q(v), xq), not any(same(x, v) for x in xs))])
        d = {x: self.val(1) for x in r.sample(["a", "b", "c", "", "aa", "a b"], r.randrange(6))}
        key = r.choice(["a", "b", "", "aa", "zz", "a ", "A"])
        dq = q(d)
        return r.choice([(dq + ".keys()", list(d)), (dq + ".has_key(%s)" % q(key), key in d), ("%s in %s" % (q(key), dq), key in d),
                         (dq + ".get(%s)" % q(key), d[key] if key in d else Err("key")), (dq + "[%s]" % q(key), d[key] if key in d else Err("key")),
                         (dq + ".get(%s, 'dflt')" % q(key), d.get(key, "dflt"))])


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def lm_contains(xs, v):
    return any(same(x, v) or isinstance(x, list) and lm_contains(x, v) for x in xs)


def body(ck):
    ck.rule = ("one evaluation is one method call with generated receiver and arguments; its printed result and its equality with "
               "the expected literal are both compared; distinct by call text; calls outside the domain must be refused")
    build_fork("asan")
    jobs = []
    seen = set()
    for i in range(ck.n(3000, 60000)):
        g = G(ck.rng("prog", i))
        lines, out, calls, bad = [], [], [], []
        while len(calls) < 40:
            e, v = g.case()
            if v is None or e in seen:
                if v is None:
                    continue
            if isinstance(v, Err):
                bad.append(e)
                continue
            seen.add(e)
            n = len(calls)
            if g.r.random() < .3:
                # through a variable, so that the receiver is used again afterwards
                lines += ["v = %s" % e, "message('R%d', v, v == %s)" % (n, q(v)) if not isinstance(v, bool) else "message('R%d', v, v)" % n]
                out.append("message: R%d %s %s \n" % (n, lm.show(v), "true" if not isinstance(v, bool) else q(v)))
            else:
                lines.append("message('R%d', %s)" % (n, e))
                out.append("message: R%d %s \n" % (n, lm.show(v)))
            calls.append(e)
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(lines) + "\n"}, tag=(out, calls), timeout=40))
        for b in bad[:3]:
            jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "message('before')\nx = %s\nmessage('after', x)\n" % b}, tag=(None, [b]), timeout=40))

    def judge(j, d=None):
        out, calls = j.tag
        k = crashed(j.res)
        if k or j.res.timeout:
            ck.violation("crash:%s" % (k or "timeout"), j.res.all[-2000:], j.files)
            return
        t = re.sub(r"(?m)^f\.meson:\d+:\d+: warning unclosed @.*\n *\d+ \|.*\n *\^\n", "", j.res.text)
        if out is None:
            ck.count("refused_calls")
            ck.case(calls[0])
            if j.res.rc != 1 or "after" in t.split("error")[0].replace("message('after'", "") and "message: after" in t or (":2:" if "\n" not in calls[0] else ":4:") not in t:
                ck.violation("accepted:" + re.sub(r"^.*\.(\w+)\(.*", r"\1", calls[0], flags=re.S)[:30], "call outside the domain: %s\n%s" % (calls[0], t[-500:]), j.files)
            return
        got = re.split(r"(?m)^(?=message: R\d+ )", t)
        if got and got[0] == "":
            got = got[1:]
        for n, (w, c) in enumerate(zip(out, calls)):
            ck.case(c, sample=c + " => " + w.strip() if n == 7 and len(c) % 11 == 0 else None)
            ck.count("results_compared")
            # a result may itself look like the start of a message: compare from where it should start
            if n >= len(got) or got[n] != w:
                if "".join(out) == t:
                    continue
                m = re.findall(r"\.(\w+)\(", c)
                ck.violation("value:" + (m[-1] if m else "op"), "%s\n got  %s\n want %s" % (c, (got[n] if n < len(got) else t[-300:])[:600], w[:600]), j.files)
                break
        else:
            if j.res.rc != 0 or len(got) != len(out) and "".join(out) != t:
                ck.violation("status", "rc %s\n%s" % (j.res.rc, t[-800:]), j.files)
    run_jobs(ck, jobs, fn=judge)

    # mutating delete against a list model, and the version order over whole sets of versions
    jobs = []
    for i in range(ck.n(60, 600)):
        g = G(ck.rng("del", i))
        r = g.r
        lst = [r.randrange(5) for _ in range(r.randrange(1, 9))]
        dct = {x: r.randrange(9) for x in "abcdefghij"[:r.randrange(1, 10)]}
        # in a function += extends the captured list in place, at top level it may copy
        infn = r.random() < .5
        lines, out = ["l = %s" % q(lst), "d = %s" % q(dct), "func push(v int)", "  l += [v, 7]", "endfunc"], []
        for _ in range(8):
            if lst and r.random() < .6:
                x = r.randrange(-len(lst), len(lst))
                lines.append("l.delete(%d)" % x)
                del lst[x]
            elif r.random() < .5:
                lines.append("l += [%d, %d]" % (len(lines), 7) if not infn else "push(%d)" % len(lines))
                lst += [len(lines) - 1, 7]
            x = r.choice("abcdefghijz")
            if r.random() < .6:
                lines.append("d.delete('%s')" % x)
                dct.pop(x, None)
            else:
                lines.append("d += {'%s': %d}" % (x, len(lines)))
                dct[x] = len(lines) - 1
            lines.append("message('R', l, l.length(), d, d.keys())")
            out.append("message: R %s %d %s %s \n" % (lm.show(lst), len(lst), lm.show(dct), lm.show(list(dct))))
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(lines) + "\n"}, tag=("delete", out, lines)))
    for i in range(ck.n(12, 120)):
        g = G(ck.rng("ver", i))
        vs = [g.ver() for _ in range(14)] + ["", "1", "1.0", "1.0.0", "1.0a"]
        lines = ["vs = %s" % q(vs), "foreach a : vs", "  foreach b : vs"]
        lines += ["    message(%s)" % ", ".join("a.version_compare('%s' + b).to_int()" % o for o in sorted(OPS)), "  endforeach", "endforeach"]
        out = ["message: %s \n" % " ".join(str(int(OPS[o](vcmp(a, b)))) for o in sorted(OPS)) for a in vs for b in vs]
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(lines) + "\n"}, tag=("version-order", out, [(a, b) for a in vs for b in vs])))

    def judge2(j, d=None):
        name, out, info = j.tag
        k = crashed(j.res)
        if k or j.res.timeout or j.res.rc:
            ck.violation("crash:%s" % (k or j.res.rc), j.res.all[-2000:], j.files)
            return
        t = re.split(r"(?m)^(?=message: )", j.res.text)[1:]
        ck.case(repr(info))
        ck.count(name + "_results", len(out))
        for n, w in enumerate(out):
            if n >= len(t) or norm(t[n]) != norm(w):
                ck.violation(name, "%s\n got  %s\n want %s" % (info if name == "delete" else info[n], t[n] if n < len(t) else "nothing", w), j.files)
                return

    def norm(x):
        return re.sub(r"\s+", " ", x)
    run_jobs(ck, jobs, fn=judge2)
    ck.assumptions = ["case conversion and indexing are compared on ASCII text only", "format strings with a backslash are left out"]
    ck.finish(min_evals=40000)


if __name__ == "__main__":
    main("C04", body)
