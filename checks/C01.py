#!/usr/bin/env python3
"""C01: no build file can crash, corrupt or hang the front end.

Monitor: AddressSanitizer + UndefinedBehaviorSanitizer (and MemorySanitizer for a share of the
runs) inside every front-end run, plus exit status (0/1 only) and a watchdog whose firing is
confirmed by a second, much longer run."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from fuzzlang import *


def corpus():
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, "tests")):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(".meson") or f in ("meson.build", "meson_options.txt", "meson.options"):
                p = os.path.join(d, f)
                if os.path.getsize(p) < 12000:
                    out.append(read(p))
    return out


FMT_CFGS = [b"", b"max_line_len = 20\n", b"max_line_len = 1\n", b"indent_by = '\t'\nspace_array = true\n",
            b"kwargs_force_multiline = true\nwide_colon = true\n", b"no_single_comma_function = true\n",
            b"sort_files = true\ngroup_arg_value = true\n", b"indent_style = tab\ntab_width = 1\n",
            b"max_line_len = 4000000000\nindent_size = 100\n", b"insert_final_newline = false\nsimplify_string_literals = true\n",
            b"indent_before_comments = ''\nend_of_line = crlf\n"]


def deep(n):
    return {
        "plus": "x = " + "+".join(["1"] * n), "and": "x = " + " and ".join(["true"] * n),
        "not": "x = " + "not " * n + "true", "neg": "x = " + "- " * n + "1",
        "paren": "x = " + "(" * n + "1" + ")" * n, "brack": "x = " + "[" * n + "1" + "]" * n,
        "dict": "x = " + "{'a':" * n + "1" + "}" * n, "idx": "x = [1]\ny = x" + "[0]" * n,
        "meth": "x = 'a'" + ".strip()" * n, "call": "x = " + "join_paths(" * n + "'a'" + ")" * n,
        "tern": "x = " + "true ? 1 : " * n + "2", "tern2": "x = " + "true ? " * n + "1" + " : 2" * n,
        "if": "if true\n" * n + "x=1\n" + "endif\n" * n, "for": "foreach i : [1]\n" * n + "x=1\n" + "endforeach\n" * n,
        "elif": "if false\n" + "elif false\nx=1\n" * n + "endif\n", "lines": "x=1\n" * n,
        "emptylines": "\n" * n + "x=1\n", "comments": "#c\n" * n + "x=1\n", "conts": "x = 1 + \\\n" + "\\\n" * n + "1",
        "args": "x = join_paths(" + ",".join(["'a'"] * n) + ")", "arr": "x = [" + ",".join(["'a'"] * n) + "]",
        "dictl": "x = {" + ",".join(["'a%d':1" % i for i in range(n)]) + "}",
        "kw": "message(" + ",".join(["a%d:1" % i for i in range(n)]) + ")", "fstr": "a=1\nx = f'" + "@a@" * n + "'",
        "longstr": "x = '" + "a" * n * 10 + "'\nmessage(x)\nerror(x)", "longid": "x" * n + " = 1\ny = z" + "x" * n,
        "cmp": "x = " + "==1" * n, "func": "".join("func f%d()\n" % i for i in range(n)) + "x=1\n" + "endfunc\n" * n,
        "plusassign": "x=[]\n" + "x+=[1]\n" * n, "in": "x = 1 " + " in [1]" * n, "unclosed": "x = " + "[" * n,
        "unclosed2": "x = " + "(" * n, "unclosedif": "if true\n" * n,
        "nestval": "x = []\nforeach i : range(%d)\nx = [x]\nendforeach\ny = [x]\nmessage(x == y)\nmessage(x)" % n,
        "recur": "func f(a func)\n  a(a)\nendfunc\nf(f)",
    }


BIG = re.compile(rb"\d{6,}|0x[0-9a-f]{5,}|0b[01]{17,}|0o\d{6,}", re.I)


def body(ck):
    ck.rule = ("sources are mutants of the repository's build files, random ill-typed programs and calls of every declared "
               "function/method, and very deep or long inputs, each run through check, fmt (random config), analyze and eval; "
               "one is distinct and non-trivial if its text is new and it has at least one token beyond whitespace")
    muon = build("asan")
    build_fork("asan")
    build_fork("msan")
    sigs = parse_signatures(run([muon, "internal", "dump_funcs"]).all)
    if len(sigs) < 150:
        ck.give_up("dump_funcs gave only %d signatures" % len(sigs))
    methods = [(s["name"].rsplit(".", 1)[0], s["name"].rsplit(".", 1)[1], list(s["kwargs"])) for s in sigs if "." in s["name"]]
    pfuncs = [(s["name"], list(s["kwargs"])) for s in sigs if "." not in s["name"] and ":" not in s["name"]]
    base = [(n, []) for n in ("assert", "configuration_data", "disabler", "environment", "error", "files", "find_program",
                              "get_variable", "import", "is_disabler", "is_variable", "join_paths", "message", "range",
                              "set_variable", "unset_variable", "warning", "typeof", "is_void", "p", "f", "g", "h")]
    vm = [m for m in methods if m[0] in ("str", "int", "bool", "list", "dict", "disabler", "env", "cfg_data", "import('fs')",
                                         "import('sourceset')", "source_set", "module", "feature")]
    vm += [("list", "delete", []), ("dict", "delete", [])] * 2
    fsx = ["add_suffix", "cwd", "executable", "is_basename", "is_subpath", "make_absolute", "relative_to", "without_ext"]
    vm += [("import('fs')", n, []) for n in fsx]
    corp = corpus()
    seen_rc = {}

    def judge(j, d=None):
        r = j.res
        what, src = j.tag
        k = crashed(r)
        if r.timeout:
            # confirm alone, with far more time
            if BIG.search(src) and (b"range" in src or b"foreach" in src):
                ck.count("skipped_asked_for_long_loop")
                return
            t = ck.tmp("re")
            os.chmod(t, 0o777)
            for n, data in j.files.items():
                write(os.path.join(t, n), data)
                os.chmod(os.path.join(t, n), 0o666)
            r2 = run([muon] + j.argv, cwd=t, timeout=150, user=65534)
            if r2.timeout:
                ck.violation("hang:%s" % what, "no end within 150 s: muon %s" % " ".join(j.argv),
                             {n: d for n, d in j.files.items()})
                return
            r, k = r2, crashed(r2)
            ck.count("slow")
        if k is None and r.rc not in (0, 1):
            k = "exit:%d" % r.rc
        if k:
            ck.violation("%s:%s" % (j.argv[0], k), "muon %s\n%s" % (" ".join(j.argv), r.all[-3500:]),
                         {n: d for n, d in j.files.items()})
        with ck.lock:
            seen_rc[(j.argv[0], r.rc)] = seen_rc.get((j.argv[0], r.rc), 0) + 1
        ck.case(src, sample=src[:300].decode("utf-8", "replace") if ck.rng(src).random() < .001 else None)

    def modes(rng, src, tag, all_=True):
        ms = [rng.choice([["check", "f.meson"], ["check", "-m", "functions", "f.meson"], ["check", "-p", "-m", "functions", "f.meson"]]), ["internal", "eval", "-s", "f.meson"], ["analyze", "-i", "f.meson"]]
        files = {"f.meson": src}
        cfg = rng.choice(FMT_CFGS)
        if cfg:
            files["c.ini"] = cfg
            ms.append(["fmt", "-c", "c.ini", "f.meson"])
        else:
            ms.append(["fmt", rng.choice(["f.meson", "f.meson", "-q", "-i"])])
            if ms[-1][1] != "f.meson":
                ms[-1].append("f.meson")
        if not all_:
            ms = [rng.choice(ms)]
        return [Job(m, files, tag=(tag, src), timeout=25) for m in ms]

    # 1. mutants and random programs
    n = ck.n(2600, 30000)
    jobs, mjobs = [], []
    for i in range(n):
        rng = ck.rng("text", i)
        if rng.random() < .55:
            src = rng.choice(corp)
            for _ in range(rng.choice([1, 1, 2, 3])):
                src = mutate(rng, src, corp)
        else:
            g = Gen(rng, vm, base, extended=rng.random() < .6)
            src = g.program(rng.choice([2, 4, 8, 16])).encode("utf-8", "surrogateescape")
            if rng.random() < .25:
                src = mutate(rng, src, corp)
        jobs += modes(rng, src, "text")
        if i % 6 == 0:
            mjobs += modes(rng, src, "text")
    run_jobs(ck, jobs, fn=judge)
    run_jobs(ck, mjobs, fn=judge, config="msan")

    # 2. one call per program: every signature with arguments of every kind
    jobs = []
    per = ck.n(14, 120)
    for t, nme, kws in vm:
        for i in range(per):
            rng = ck.rng("call", t, nme, i)
            g = Gen(rng, vm, base)
            g.depth = 3
            args = g.args(kws, n=rng.randrange(4))
            src = (g.PRE + "r = %s.%s(%s)\nmessage(r)\nmessage([r], {'k': r})\n" % (g.recv(t), nme, args)).encode("utf-8", "surrogateescape")
            jobs.append(Job(["internal", "eval", "-s", "f.meson"], {"f.meson": src}, tag=("call", src), timeout=25))
    for nme, kws in base[:-5]:
        if nme in ("range",):
            continue
        for i in range(per):
            rng = ck.rng("call", nme, i)
            g = Gen(rng, vm, base)
            g.depth = 3
            src = (g.PRE + "r = %s(%s)\nmessage(r)\n" % (nme, g.args(kws, n=rng.randrange(4)))).encode("utf-8", "surrogateescape")
            jobs.append(Job(["internal", "eval", "-s", "f.meson"], {"f.meson": src}, tag=("call", src), timeout=25))
    run_jobs(ck, jobs, fn=judge)
    ck.count("signatures_called", len(vm) + len(base) - 6)

    # 3. project-level functions: analyze of whole projects, and setup of language-less ones
    jobs = []
    skip = ("project", "run_command", "subdir", "subproject", "add_languages")
    objs = ("m = import('fs')\nexe = executable('e', 'a.c')\nlib = static_library('l', 'a.c')\nsh = shared_library('s', 'a.c')\n"
            "bl = both_libraries('bl', 'a.c')\nct = custom_target('ct', output: 'o', command: ['true'], capture: true)\n"
            "dep = declare_dependency(link_with: lib)\ncc = meson.get_compiler('c')\n"
            "inc = include_directories('.')\nfo = get_option('feat')\nprog = find_program('true')\n"
            "gen = generator(prog, output: '@BASENAME@.c', arguments: ['@INPUT@'])\n"
            "rr = run_command('true', check: true)\n")
    for i in range(ck.n(500, 6000)):
        rng = ck.rng("proj", i)
        g = Gen(rng, methods, [f for f in pfuncs if f[0] not in skip])
        g.__dict__["VARS2"] = 1
        src = "project('p', 'c', version: '1.0')\n" + objs + g.PRE
        for _ in range(rng.choice([4, 10, 20])):
            st = g.stmt()
            src += re.sub(r"\b(fs|cc|_|f)\b", lambda m: rng.choice(["exe", "lib", "ct", "dep", "cc", "inc", "fo", "prog", "gen", "rr", "bl", "sh", "m"])
                          if rng.random() < .8 else m.group(1), st)
        b = src.encode("utf-8", "surrogateescape")
        jobs.append(Job(["analyze"], {"meson.build": b, "a.c": "int a;", "meson_options.txt": "option('feat', type: 'feature')\n"
                                      if rng.random() < .8 else rng.choice(corp)}, tag=("analyze", b), timeout=25))
    sfuncs = [f for f in pfuncs if f[0] not in skip and f[0] not in (
        "executable", "library", "static_library", "shared_library", "shared_module", "both_libraries", "build_target")]
    for i in range(ck.n(700, 9000)):
        rng = ck.rng("setup", i)
        g = Gen(rng, [m for m in methods if m[0] not in ("compiler",)], sfuncs)
        src = "project('p', version: '1.0')\n" + g.PRE + "".join(g.stmt() for _ in range(rng.choice([1, 1, 2, 3])))
        b = src.encode("utf-8", "surrogateescape")
        files = {"meson.build": b, "a.c": "int a;", "x.meson": "x"}
        if rng.random() < .3:
            opts = "".join("option(%s)\n" % g.args(["type", "value", "choices", "min", "max", "yield", "description"], n=1)
                           for _ in range(rng.randrange(1, 4)))
            files["meson_options.txt"] = "option('o', type: '%s'%s)\n%s" % (
                rng.choice(["string", "boolean", "combo", "integer", "array", "feature"]),
                rng.choice(["", ", value: " + g.expr(), ", choices: " + g.expr(), ", min: %s, max: %s, value: %s" % (
                    g.expr(), rng.choice(INTS), rng.choice(INTS))]), opts if rng.random() < .5 else "")
        jobs.append(Job(["setup", "build"], files, tag=("setup", b), timeout=60))
    run_jobs(ck, jobs, fn=judge, env={"HOME": "/nonexistent"})

    # 4. very deep and very long inputs
    jobs = []
    for n_, modes_ in ((ck.n(400, 1500), (["check"], ["fmt"], ["analyze", "-i"], ["internal", "eval"])),
                       (ck.n(20000, 60000), (["check"], ["internal", "eval"]))):
        for k, v in deep(n_).items():
            for m in modes_:
                b = (v + "\n").encode()
                jobs.append(Job(m + ["f"], {"f": b}, tag=("deep-" + k, b), timeout=60))
    run_jobs(ck, jobs, fn=judge, chunk=6)
    ck.extra["outcomes"] = {"%s rc=%s" % k: v for k, v in sorted(seen_rc.items(), key=str)}
    ok = sum(v for k, v in seen_rc.items() if k[1] == 0)
    if ok < 100:
        ck.give_up("hardly any accepted source (%d)" % ok)
    ck.assumptions = ["gcc's ASan/UBSan (and clang's MSan for a sixth of the text runs) report every memory error on the "
                      "executed paths that touches a red zone or freed or uninitialised memory"]
    ck.finish(min_evals=3000)


if __name__ == "__main__":
    main("C01", body)
