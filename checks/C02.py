#!/usr/bin/env python3
"""C02: expressions and control flow evaluate as the Meson language defines.

Oracle: an independent evaluator (lib/langmodel.py) run on the same program tree predicts every
message (including those of tracing functions wrapped around subexpressions, which expose
evaluation order and short-circuiting) and, for programs that reach an ill-typed operation, the
line of the error."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm

# a line that cannot be parsed must be reported with its number, before anything is executed
BADLINES = ["x = 1 not", "x = true not true", "x = = 1", "x = )", "x = 'abc", "endif", "x = [1 2]", "x = {'a' 1}", "foreach : [1]", "1 = x", "x = f(1,,2)",
            "x = 1 2", "x = 0b12", "x = 09999999999999999999999", "if true x", "x = a.", "x = a.b", "else", "x = @",
            "x = 'a' 'b'", "x += ", "endforeach", "foreach i [1]", "x = not", "x = 1 <", "x = (1", "x ? 1 : 2 = 3", "elif true"]

# expressions whose value the definition fixes, one per rule of the grammar
TABLE = [
    ("1 + 2 * 3 - 4 / 2 % 3", "5"), ("(1 + 2) * 3", "9"), ("10 - 3 - 2", "5"), ("100 / 10 / 5", "2"), ("2 * 7 % 4", "2"),
    ("17 % 10 * 2", "14"), ("20 / 3 * 3", "18"), ("1 - -1", None), ("7 - 2 + 1", "6"), ("-3 + 5", "2"), ("- (1 + 2)", "-3"),
    ("not true or true", "true"), ("not (true or true)", "false"), ("true or false and false", "true"),
    ("(true or false) and false", "false"), ("false and false or true", "true"), ("1 + 1 == 2", "true"), ("1 < 2 and 2 < 3", "true"),
    ("2 in [1, 2] and true", "true"), ("3 not in [1, 2]", "true"), ("'k' in {'k': 1}", "true"), ("'v' in {'k': 'v'}", "false"),
    ("'el' in 'hello'", "true"), ("'x' not in 'hello'", "true"), ("true ? 1 : 2 + 10", "1"), ("false ? 1 : 2 + 10", "12"),
    ("true ? false ? 1 : 2 : 3", "2"), ("false ? 1 : true ? 2 : 3", "2"), ("1 == 2 ? 'a' : 'b'", "b"), ("[1, 2, 3][-1]", "3"),
    ("[[1, 2], [3]][0][1]", "2"), ("{'a': {'b': [4]}}['a']['b'][0]", "4"), ("'abc'[0] + 'abc'[2]", "ac"), ("'a' / 'b' / 'c'", "a/b/c"),
    ("'a' / '/b'", "/b"), ("'a/' / 'b'", "a/b"), ("'/' / 'b'", "/b"), ("'a' + 'b' / 'c'", "ab/c"), ("('a' + 'b') / 'c'", "ab/c"),
    ("0x1F", "31"), ("0XfF", "255"), ("0b101", "5"), ("0B11", "3"), ("0o17", "15"), ("0O7", "7"), ("9223372036854775807", "9223372036854775807"),
    ("'''a'b\\n'''", "a'b\\n"), ("'a\\tb\\\\'", "a\tb\\"), ("'\\x41\\102\\u0043\\U00000044'", "ABCD"), ("'\\q'", "\\q"),
    ("[1] + [2, 3] == [1, 2, 3]", "true"), ("[1] + 2 == [1, 2]", "true"), ("[1] + [[2]] == [1, [2]]", "true"),
    ("{'a': 1} + {'a': 2, 'b': 3} == {'b': 3, 'a': 2}", "true"), ("{'a': 1} == {'a': 2}", "false"), ("[1, 2] == [2, 1]", "false"),
    ("[] == []", "true"), ("{} != {}", "false"), ("'a' != 'A'", "true"), ("'1' + '2'", "12"), ("1 <= 1 and 1 >= 1 and not (1 < 1) and not (1 > 1)", "true"),
    ("not [1, 2].contains(3)", "true"), ("-[5][0]", "-5"), ("not {'a': true}['a']", "false"), ("-5.abs()", None),
    ("[1, 2, 3,].length()", "3"), ("{'a': 1,}.keys() == ['a']", "true"), ("true and not false", "true"), ("5 % 5 == 0", "true"),
    ("range(3)[1]", None), ("1 + (true ? 2 : 3) * 4", "9"), ("(1 == 1) == true", "true"), ("(2 in [2]) == (3 not in [2])", "true"),
    ("'a' in ['a'] and 'b' not in ['a']", "true"), ("not 'a' in ['a']", None), ("1 * 2 + 3 * 4 - 5 * 2", "4"), ("8 / 2 / 2 * 3", "6"),
    ("2 + 3 == 5 and 2 * 3 != 5 or false", "true"), ("3 > 2 ? 'y' : 'n'", "y"), ("[3 > 2, 3 < 2][0]", "true"),
]


def body(ck):
    ck.rule = ("random typed programs (nested expressions with minimal parentheses, if/elif/else, foreach, break/continue, "
               "assignments, functions, tracers) compared message by message with an independent evaluator; a case is distinct by "
               "its source and non-trivial if it prints something or ends in a predicted error")
    build_fork("asan")
    n = ck.n(5000, 60000)
    jobs = []
    for i in range(n):
        rng = ck.rng("prog", i)
        tr = rng.random() < .75
        p = lm.make(rng, rng.choice([2, 4, 6, 9]), tracers=tr, bad=rng.choice([0, 0, .003, .01]))
        if p is None:
            ck.count("left_open_by_definition")
            continue
        if not tr and rng.random() < .5:
            src = "project('p')\n" + p[0]
            err = p[2] and ((p[2][0][0] + 1, p[2][0][1] + 1), p[2][1])
            jobs.append(Job(["setup", "b"], {"meson.build": src}, tag=("meson.build", src, p[1], err), timeout=40))
        else:
            jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": p[0]}, tag=("f.meson",) + p, timeout=40))

    def judge(j, d=None):
        fname, src, out, err = j.tag
        r = j.res
        k = crashed(r)
        if k or r.timeout:
            ck.violation("crash:%s" % (k or "timeout"), r.all[-2000:], j.files)
            return
        text = r.text
        if fname == "meson.build":
            text = re.sub(r"\A.*?^configuring 'p'[^\n]*\n", "", text, flags=re.S | re.M)
            text = re.sub(r"\nsetup complete\n\Z", "\n", text)
        w = lm.compare(text, fname, out, err, r.rc)
        if w:
            ck.violation("eval:" + re.sub(r"\d+", "N", w.split("\n")[0])[:60] + (":err" if err else ""), w + "\n" + text[-600:], j.files)
        ck.case(src, sample=src[-400:] if len(src) % 97 == 0 else None)
        ck.count("messages_compared", len(out))
        ck.count("predicted_errors" if err else "predicted_successes")
    run_jobs(ck, jobs, fn=judge)

    # one expression per rule
    jobs = [Job(["internal", "eval", "f.meson"], {"f.meson": "message(%s)\n" % e}, tag=(e, w)) for e, w in TABLE if w is not None]

    def judge2(j, d=None):
        e, w = j.tag
        if j.res.rc != 0 or lm.norm(j.res.text) != lm.norm("message: " + w):
            ck.violation("table:" + e, "%s should give %s:\n%s" % (e, w, j.res.text[-500:]), j.files)
        ck.case(e)
    run_jobs(ck, jobs, fn=judge2)

    # unparseable lines
    jobs = []
    for b in BADLINES:
        for i in range(ck.n(3, 20)):
            rng = ck.rng("bad", b, i)
            k = rng.randrange(0, 12)
            lines = [rng.choice(["message('m%d')" % q, "# c", "v = '''x'''", ""]) for q in range(k)]
            tail = ["message('after')"]
            if b == "x = 'abc" or not b.startswith("x = ("):
                jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(lines + [b] + tail) + "\n"}, tag=(b, k + 1)))
            else:
                jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(lines + [b]) + "\n"}, tag=(b, k + 1)))

    def judge3(j, d=None):
        b, line = j.tag
        m = re.search(r"f\.meson:(\d+):\d+: error ", j.res.text)
        if j.res.rc == 0 or not m:
            ck.violation("accepts:" + b, "accepted: %s\n%s" % (b, j.res.text[-500:]), j.files)
        elif int(m.group(1)) not in (line, line + 1 if b in ("x = (1",) else line):
            ck.violation("badline:" + b, "error for line %d (%s) reported as %s" % (line, b, m.group(1)), j.files)
        if "message: after" in j.res.text or "message: m" in j.res.text:
            ck.violation("ran:" + b, "part of an unparseable file was executed:\n" + j.res.text[-500:], j.files)
        ck.case((b, line))
    run_jobs(ck, jobs, fn=judge3)
    ck.assumptions = ["the evaluator in lib/langmodel.py states the language definition; where muon's own definition is the only one "
                      "(division of negative numbers, order of dict.keys(), comparing different types) the program is discarded"]
    ck.finish(min_evals=2000)


if __name__ == "__main__":
    main("C02", body)
