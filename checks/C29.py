#!/usr/bin/env python3
"""C29: declared signatures are enforced at every call.

spec/signatures.json lists every built-in function's and method's parameters.  Each is called once
correctly, once per declared argument and type, and once per way of breaking the signature; calls
of randomly declared user functions are compared with a model of argument binding."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm

OBJS = """
a_c = files('a.c')[0]
prog = find_program('true')
sh = find_program('sh')
en = environment()
cd = configuration_data({'k': 'v'})
rr = run_command('true', check: true)
fo = get_option('feat')
inc = include_directories('.')[0]
al = alias_target('al0', custom_target('ct0', output: 'o0', command: ['true']))
ct = custom_target('ct', output: 'o.c', command: ['true'])
gen = generator(prog, output: '@BASENAME@.c', arguments: ['@INPUT@'])
m = import('fs')
py = import('python').find_installation('python3')
ss = import('sourceset').source_set()
ssa = import('sourceset').source_set()
sp = subproject('sub')
dep = declare_dependency(variables: {'x': 'y'})
kv = import('keyval')
pk = import('pkgconfig')
pym = import('python')
py3m = import('python3')
"""
COBJS = """
exe = executable('e', 'a.c')
lib = static_library('l', 'b.c')
bl = both_libraries('bl', 'b.c')
cc = meson.get_compiler('c')
run = cc.run('int main(void){return 0;}')
"""
# one value of every type a program can hold
KIND = {"str": "'s'", "bool": "true", "int": "7", "list": "['s']", "dict": "{'k': 'v'}", "file": "a_c", "dep": "dep",
        "build_tgt": "lib", "both_libs": "bl", "custom_tgt": "ct", "inc": "inc", "feature": "fo", "env": "en",
        "cfg_data": "cd", "external_program": "prog", "python_installation": "py", "generated_list": "gen.process('a.c')",
        "compiler": "cc", "runresult": "rr", "source_set": "ssa", "alias_tgt": "al", "module": "m", "generator": "gen",
        "subproject": "sp", "source_configuration": "ssa.apply({})", "build_machine": "build_machine", "meson": "meson"}
NEEDS_C = {"build_tgt", "both_libs", "compiler"}
EXE = {"str", "file", "external_program", "python_installation", "build_tgt", "custom_tgt", "both_libs"}
RECV = {"bool": "true", "int": "7", "str": "'a.b c'", "list": "['a', 'b']", "dict": "{'a': 1}", "both_libs": "bl",
        "build_machine": "build_machine", "build_tgt": "lib", "cfg_data": "cd", "compiler": "cc", "custom_tgt": "ct",
        "dep": "dep", "disabler": "disabler()", "env": "en", "external_program": "prog", "feature": "fo", "file": "a_c",
        "generator": "gen", "import('fs')": "m", "import('keyval')": "kv", "import('pkgconfig')": "pk",
        "import('python')": "pym", "import('python3')": "py3m", "import('sourceset')": "import('sourceset')",
        "meson": "meson", "module": "m", "python_installation": "py", "runresult": "run",
        "source_configuration": "ssa.apply({})", "source_set": "ss", "subproject": "sp"}
# a correct call of everything that has a required argument: positional, keywords
BASE = {
    "add_global_arguments": ("'-DX'", "language: 'c'"), "add_global_link_arguments": ("'-DX'", "language: 'c'"),
    "add_languages": ("'c'", ""), "add_project_arguments": ("'-DX'", "language: 'c'"),
    "add_project_dependencies": ("dep", "language: 'c'"),
    "add_project_link_arguments": ("'-DX'", "language: 'c'"), "add_test_setup": ("'s'", ""), "alias_target": ("'al'; ct", ""),
    "assert": ("true", ""), "benchmark": ("'b'; prog", ""), "both_libraries": ("'x'; 'b.c'", ""),
    "build_target": ("'x'; 'a.c'", "target_type: 'executable'"), "configure_file": ("", "output: 'cf'; configuration: cd"),
    "custom_target": ("'x'", "output: 'xo'; command: ['true']"), "dependency": ("'nope'", "required: false"),
    "error": None, "executable": ("'x'; 'a.c'", ""), "files": ("'a.c'", ""), "find_program": ("'true'", ""),
    "generator": ("prog", "output: '@BASENAME@.c'; arguments: ['@INPUT@']"), "get_option": ("'feat'", ""),
    "get_variable": ("'cd'", ""), "import": ("'fs'", ""), "include_directories": ("'.'", ""),
    "install_data": ("'a.c'", ""), "install_emptydir": ("'ed'", ""), "install_headers": ("'a.h'", ""),
    "install_man": ("'x.1'", ""), "install_subdir": ("'idir'", "install_dir: 'd'"),
    "install_symlink": ("'ln'", "install_dir: 'd'; pointing_to: 't'"), "is_disabler": ("1", ""), "is_variable": ("'cd'", ""),
    "join_paths": ("'a'; 'b'", ""), "library": ("'x'; 'b.c'", ""), "extension:p": None, "extension:dbg": None,
    "project": None, "range": ("3", ""), "run_command": ("'true'", "check: false"), "run_target": ("'rt'", "command: ['true']"),
    "set_variable": ("'v'; 1", ""), "shared_library": ("'x'; 'b.c'", ""), "shared_module": ("'x'; 'b.c'", ""),
    "static_library": ("'x'; 'b.c'", ""), "subdir": ("'sd'", ""), "subdir_done": None, "subproject": ("'sub'", ""),
    "summary": ("{'x': 'y'}", ""), "test": ("'t'; prog", ""), "unset_variable": ("'cd'", ""),
    "vcs_tag": ("", "input: 'a.c'; output: 'vt'; command: ['true']"),
    "build_tgt.extract_objects": ("'b.c'", ""), "both_libs.extract_objects": ("[]", ""),
    "cfg_data.get": ("'k'", ""), "cfg_data.get_unquoted": ("'k'", ""), "cfg_data.has": ("'k'", ""),
    "cfg_data.merge_from": ("cd", ""), "cfg_data.set": ("'z'; 1", ""), "cfg_data.set10": ("'z'; true", ""),
    "cfg_data.set_quoted": ("'z'; 's'", ""),
    "compiler.alignment": ("'int'", ""), "compiler.check_header": ("'stdio.h'", ""), "compiler.compiles": ("'int a(void){}'", ""),
    "compiler.compute_int": ("'1 + 2'", ""), "compiler.find_library": ("'m'", ""), "compiler.get_define": ("'__GNUC__'", ""),
    "compiler.has_argument": ("'-O2'", ""), "compiler.has_function": ("'puts'", ""),
    "compiler.has_function_attribute": ("'unused'", ""), "compiler.has_header": ("'stdio.h'", ""),
    "compiler.has_header_symbol": ("'stdio.h'; 'puts'", ""), "compiler.has_link_argument": ("'-lm'", ""),
    "compiler.has_member": ("'struct tm'; 'tm_sec'", "prefix: '#include <time.h>'"),
    "compiler.has_members": ("'struct tm'; 'tm_sec'", "prefix: '#include <time.h>'"),
    "compiler.has_type": ("'int'", ""), "compiler.links": ("'int main(void){}'", ""),
    "compiler.preprocess": ("'a.c'", "output: '@BASENAME@.i'"), "compiler.run": ("'int main(void){}'", ""),
    "compiler.sizeof": ("'int'", ""), "compiler.first_supported_argument": ("'-O2'", ""),
    "compiler.first_supported_link_argument": ("'-lm'", ""), "compiler.get_supported_function_attributes": ("'unused'", ""),
    "compiler.has_multi_arguments": ("'-O2'", ""), "compiler.has_multi_link_arguments": ("'-lm'", ""),
    "dep.get_pkgconfig_variable": None, "dep.get_variable": ("'x'", ""), "dep.as_system": ("", ""),
    "dict.get": ("'a'", ""), "dict.has_key": ("'a'", ""), "env.append": ("'A'; 'b'", ""), "env.prepend": ("'A'; 'b'", ""),
    "env.set": ("'A'; 'b'", ""), "feature.disable_auto_if": ("false", ""), "feature.disable_if": ("false", ""),
    "feature.enable_auto_if": ("false", ""), "feature.enable_if": ("false", ""), "feature.require": ("true", ""),
    "generator.process": ("'a.c'", ""), "import('fs').as_posix": ("'a'", ""), "import('fs').copyfile": ("'a.c'; 'copied'", ""),
    "import('fs').exists": ("'a.c'", ""), "import('fs').expanduser": ("'a'", ""), "import('fs').hash": ("'a.c'; 'sha256'", ""),
    "import('fs').is_absolute": ("'a'", ""), "import('fs').is_dir": ("'a'", ""), "import('fs').is_file": ("'a'", ""),
    "import('fs').is_samepath": ("'a.c'; 'a.c'", ""), "import('fs').is_symlink": ("'a'", ""), "import('fs').name": ("'a/b'", ""),
    "import('fs').parent": ("'a/b'", ""), "import('fs').read": ("'a.c'", ""), "import('fs').replace_suffix": ("'a.c'; '.h'", ""),
    "import('fs').size": ("'a.c'", ""), "import('fs').stem": ("'a/b.c'", ""), "import('keyval').load": ("'kv.txt'", ""),
    "import('pkgconfig').generate": ("lib", "description: 'd'"), "import('python').find_installation": ("'python3'", ""),
    "list.contains": ("'a'", ""), "list.get": ("0", ""),
    "meson.add_devenv": ("en", ""), "meson.add_dist_script": ("'true'", ""), "meson.add_install_script": ("'true'", ""),
    "meson.add_postconf_script": ("prog", ""), "meson.get_compiler": ("'c'", ""), "meson.get_cross_property": ("'x'; 1", ""),
    "meson.get_external_property": ("'x'; 1", ""), "meson.override_dependency": ("'od'; dep", ""),
    "meson.override_find_program": ("'ofp'; prog", ""),
    "python_installation.get_path": ("'platlib'", ""), "python_installation.get_variable": ("'LIBDIR'; 'x'", ""),
    "python_installation.has_path": ("'platlib'", ""), "python_installation.has_variable": ("'LIBDIR'", ""),
    "source_set.add": ("'a.c'", ""), "source_set.add_all": ("ssa", ""), "source_set.apply": ("{}", ""),
    "str.contains": ("'a'", ""), "str.endswith": ("'a'", ""), "str.join": ("['a']", ""), "str.replace": ("'a'; 'b'", ""),
    "str.split": ("'a'", ""), "str.startswith": ("'a'", ""), "str.substring": ("0", ""), "str.to_int": None,
    "str.strip": ("", ""), "str.version_compare": ("'>1'", ""), "subproject.get_variable": ("'subv'", ""),
    "disabler.found": ("", ""), "runresult.compiled": ("", ""), "feature.allowed": ("", ""),
    "source_configuration.dependencies": ("", ""), "source_configuration.sources": ("", ""),
    "both_libs.private_dir_include": ("", ""),
}
# language-only functions of the extended mode, which the dump does not list
EXTRA = [
    {"name": "import('fs').add_suffix", "posargs": ["str", "str"], "base": ("'a'; '.b'", "")},
    {"name": "import('fs').without_ext", "posargs": ["str"], "base": ("'a.c'", "")},
    {"name": "import('fs').is_basename", "posargs": ["str"], "base": ("'a'", "")},
    {"name": "import('fs').is_subpath", "posargs": ["str", "str"], "base": ("'a'; 'a/b'", "")},
    {"name": "import('fs').relative_to", "posargs": ["str", "str"], "base": ("'/a'; '/b'", "")},
    {"name": "import('fs').make_absolute", "posargs": ["str"], "base": ("'a'", "")},
    {"name": "import('fs').executable", "posargs": ["str"], "base": ("'a'", "")},
    {"name": "import('fs').cwd", "base": ("", "")},
    {"name": "import('fs').mkdir", "posargs": ["str"], "base": ("'newdir'", "")},
    {"name": "import('fs').write", "posargs": ["str", "str"], "base": ("'newfile'; 'x'", "")},
    {"name": "list.delete", "posargs": ["int"], "base": ("0", "")},
    {"name": "dict.delete", "posargs": ["str"], "base": ("'a'", "")},
    {"name": "serial_dump", "posargs": ["str", "any"], "base": ("'dumped'; 1", "")},
    {"name": "typeof", "posargs": ["any"], "base": ("1", "")},
    {"name": "configuration_data", "optargs": ["dict"], "base": ("", "")},
    {"name": "run_command", "varargs": "compiler|external_program|file|python_installation|str",
     "kwargs": {"check": "bool", "capture": "bool"}, "base": ("'true'", "")},
    {"name": "join_paths", "varargs": "str", "base": ("'a'", "")},
    {"name": "range", "posargs": ["int"], "optargs": ["int", "int"], "base": ("3", "")},
    {"name": "assert", "posargs": ["bool"], "optargs": ["str"], "base": ("true", "")},
]
ARGERR = re.compile(r"missing arguments|too many arguments|invalid kwarg|set twice|does not accept kwargs|non-kwarg after|"
                    r"unexpected kwarg before|missing required kwarg|expected type")


def types(t):
    """(scalar types, is a list of them also allowed)"""
    lst = re.search(r"list\[([^\]]*)\]", t)
    rest = [x for x in re.sub(r"list\[[^\]]*\]", "", t).split("|") if x]
    s = set(rest)
    if "exe" in s:
        s |= EXE
    return s, bool(lst)


def needs_c(text):
    return bool(re.search(r"\b(exe|lib|bl|cc|run|jar)\b|language: 'c'|get_compiler|add_languages", text))


class Sig:
    def __init__(self, s):
        self.name = s["name"]
        self.pos, self.var, self.opt, self.kw = s.get("posargs", []), s.get("varargs"), s.get("optargs", []), s.get("kwargs", {})
        base = s.get("base") or BASE.get(self.name, ("", ""))
        self.base = base
        if base is None:
            return
        self.bpos = [x.strip() for x in base[0].split(";") if x.strip()]
        self.bkw = dict(x.strip().split(": ", 1) for x in base[1].split(";") if x.strip())
        self.script = "base" in s
        if "." in self.name and ":" not in self.name:
            t, meth = self.name.rsplit(".", 1)
            self.callee = RECV[t] + "." + meth
            if self.script and t == "import('fs')":
                self.callee = "import('fs')." + meth
        else:
            self.callee = self.name
        self.cproj = (self.name in ("executable", "library", "static_library", "shared_library", "shared_module", "build_target",
                                    "both_libraries") or needs_c(self.callee + base[0] + base[1]))

    def call(self, pos=None, kw=None, extra=""):
        p = list(self.bpos if pos is None else pos)
        k = ["%s: %s" % x for x in (self.bkw if kw is None else kw).items()]
        return "%s(%s)" % (self.callee, ", ".join(p + k + ([extra] if extra else [])))

    def ptype(self, i):
        if i < len(self.pos):
            return self.pos[i], False
        if self.var and i >= len(self.pos):
            return self.var, True
        j = i - len(self.pos)
        return (self.opt[j], False) if j < len(self.opt) else (None, False)

    def wrong(self, r):
        """(way, call text) of calls that break the signature"""
        out = []
        if self.pos:
            out.append(("missing", self.call(pos=self.bpos[:len(self.pos) - 1])))
            if len(self.pos) > 1:
                out.append(("none", self.call(pos=[])))
        if not self.var:
            full = list(self.bpos)
            for i in range(len(full), len(self.pos) + len(self.opt)):
                full.append(good(r, self.ptype(i)[0]))
            if not any("any" == (self.ptype(i)[0]) for i in range(len(full))) or True:
                out.append(("surplus", self.call(pos=full + [r.choice(["'s'", "7", "['s']", "true"])])))
        out.append(("unknown", self.call(extra=r.choice(["bogus: true", "nonsense: 's'", "kwarg: {}", "Native: true", "outputs: 's'"]))))
        if self.name in ("executable", "static_library", "shared_module"):
            out.append(("unknown:soversion", self.call(extra="soversion: '1'")))
        if self.name in ("executable", "static_library", "shared_library", "library", "both_libraries", "shared_module"):
            out.append(("unknown:target_type", self.call(extra="target_type: 'executable'")))
        bad_in_dict = r.choice(["'bogus': 1", "'': 1", "'Native': true"])
        out.append(("unknown-dict", self.call(extra="kwargs: {%s}" % bad_in_dict)))
        if self.bkw or self.kw:
            k = r.choice(sorted(self.bkw) or sorted(self.kw))
            v = self.bkw.get(k) or good(r, self.kw[k])
            kw = dict(self.bkw)
            kw.setdefault(k, v)
            if v is not None:
                out.append(("dup", self.call(kw=kw, extra="%s: %s" % (k, v))))
                out.append(("dup-dict", self.call(kw=kw, extra="kwargs: {'%s': %s}" % (k, v))))
                kw2 = {"kwargs": "{'%s': %s}" % (k, v)}
                kw2.update(kw)
                out.append(("dict-dup", self.call(kw=kw2)))
            out.append(("kwargs-no-dict", self.call(extra="kwargs: " + r.choice(["1", "['a']", "'s'"]))))
            if self.bpos and (self.pos or self.var):
                # a keyword before a positional argument
                out.append(("order", "%s(%s: %s, %s)" % (self.callee, k, v, ", ".join(
                    self.bpos + ["%s: %s" % x for x in self.bkw.items() if x[0] != k]))))
            if len(self.bpos) > 1:
                out.append(("order2", "%s(%s, %s: %s, %s)" % (self.callee, self.bpos[0], k, v, ", ".join(
                    self.bpos[1:] + ["%s: %s" % x for x in self.bkw.items() if x[0] != k]))))
        for k in self.required():
            kw = dict(self.bkw)
            del kw[k]
            out.append(("missing-kw:" + k, self.call(kw=kw)))
        # wrong types, one argument at a time
        slots = [("p%d" % i,) + self.ptype(i) for i in range(len(self.pos) + (1 if self.var else 0) + len(self.opt))]
        slots += [(k, t, False) for k, t in sorted(self.kw.items())]
        for slot, t, isvar in slots:
            s, lst = types(t)
            if t == "void" or "any" in s:
                continue
            bad = [k for k in KIND if k not in s]
            cands = []
            for k in bad:
                if k == "list" and (lst or isvar or "file" in s):
                    continue
                cands.append(KIND[k])
            if "str" not in s and not ("list" in s):
                cands += ["'s'", "'s'"]
            cands += ["7"] * 2 if "int" not in s else []
            cands += ["true"] * 2 if "bool" not in s else []
            if (lst or isvar) and "list" not in s:
                g = good(r, t.split("list[")[0].strip("|") if lst else t)
                inner = [KIND[k] for k in bad if k != "list"]
                cands += ["[%s]" % b for b in r.sample(inner, 3)] + ["[[%s]]" % b for b in r.sample(inner, 2)]
                if g:
                    cands += ["[%s, %s]" % (g, b) for b in r.sample(inner, 3)]
            if self.script:
                cands = [c for c in cands if not re.search(r"[a-z]", re.sub(r"'[^']*'|true", "", c))]
            for c in r.sample(cands, min(len(cands), 3)):
                if slot[0] == "p" and slot[1:].isdigit():
                    i = int(slot[1:])
                    pos = list(self.bpos)
                    while len(pos) < i:
                        pos.append(good(r, self.ptype(len(pos))[0]))
                    pos[i:i + 1] = [c]
                    out.append(("type:p%d" % i, self.call(pos=pos)))
                    if isvar:
                        out.append(("type:p%d+" % i, self.call(pos=self.bpos + [c])))
                else:
                    kw = dict(self.bkw)
                    kw.pop(slot, None)
                    if r.random() < .25:
                        out.append(("type:kwargs:" + slot, self.call(kw=kw, extra="kwargs: {'%s': %s}" % (slot, c))))
                    else:
                        kw[slot] = c
                        out.append(("type:" + slot, self.call(kw=kw)))
        return out

    def required(self):
        return REQUIRED.get(self.name, [])

    def right(self, r):
        out = [("base", self.call())]
        for i in range(len(self.pos) + len(self.opt) + (1 if self.var else 0)):
            t, isvar = self.ptype(i)
            s, lst = types(t)
            for k in sorted(s):
                if k not in KIND or (self.script and KIND[k].isidentifier()):
                    continue
                pos = list(self.bpos)
                while len(pos) < i:
                    pos.append(good(r, self.ptype(len(pos))[0]))
                v = KIND[k]
                pos[i:i + 1] = [v]
                out.append(("p%d:%s" % (i, k), self.call(pos=pos)))
                if isvar and k != "list":
                    pos[i:i + 1] = [r.choice(["[%s]" % v, "[[%s], []]" % v, "[]"])]
                    out.append(("p%d:list[%s]" % (i, k), self.call(pos=pos)))
        for kname, t in sorted(self.kw.items()):
            s, lst = types(t)
            for k in sorted(s):
                if k not in KIND:
                    continue
                kw = dict(self.bkw)
                v = KIND[k]
                if lst and k != "list" and r.random() < .5:
                    v = r.choice(["[%s]" % v, "[[%s], %s]" % (v, v), "[]"])
                kw[kname] = v
                if r.random() < .2 and kname not in self.bkw:
                    del kw[kname]
                    out.append((kname + ":kwargs:" + k, self.call(kw=kw, extra="kwargs: {'%s': %s}" % (kname, v))))
                else:
                    out.append((kname + ":" + k, self.call(kw=kw)))
        out.append(("empty-kwargs", self.call(extra="kwargs: {}")) if self.kw else ("base", self.call()))
        return out


REQUIRED = {"add_project_arguments": ["language"], "add_global_arguments": ["language"], "add_project_link_arguments": ["language"],
            "add_global_link_arguments": ["language"], "install_subdir": ["install_dir"],
            "install_symlink": ["install_dir", "pointing_to"], "configure_file": ["output"], "custom_target": ["output", "command"],
            "vcs_tag": ["input", "output"], "generator": ["output", "arguments"], "run_target": ["command"],
            "compiler.preprocess": ["output"]}


def good(r, t):
    if t is None:
        return None
    s, lst = types(t)
    if "any" in s:
        return "'s'"
    for k in ("str", "int", "bool", "dict", "list", "file"):
        if k in s:
            return KIND[k]
    for k in sorted(s):
        if k in KIND:
            return KIND[k]
    return None


FILES = {"a.c": "int main(void) { return 0; }\n", "b.c": "int b(void) { return 0; }\n", "a.h": "", "kv.txt": "A=1\n", "x.1": "",
         "s": "int s;\n", "idir/f": "", "sd/meson.build": "message('SUBDIR')\n", "subprojects/sub/meson.build":
         "project('sub')\nsubv = 1\n", "meson_options.txt": "option('feat', type: 'feature', value: 'auto')\n"}


def program(sig, call):
    if sig.script:
        src = ["a_c = 's'", "", "message('BEFORE')", "", "x = 1 == 1 ? %s : 0" % call if False else call, "message('REACHED')"]
        return "\n".join(src) + "\n", src.index(call) + 1
    c = sig.cproj or needs_c(call)
    src = "project('p'%s, version: '1.0')\n" % (", 'c'" if c else "")
    if sig.name.startswith("add_global"):
        pre = ""
        if re.search(r"\b(%s)\b" % "|".join(re.findall(r"^(\w+) =", OBJS + COBJS, re.M)), call):
            pre = OBJS + (COBJS if c else "")
            pre = re.sub(r"(?m)^(\w+) = (executable|static_library|both_libraries|custom_target|subproject|alias_target)\(.*$", "", pre)
    else:
        pre = OBJS + (COBJS if c else "")
    src += pre + "message('BEFORE')\n"
    line = src.count("\n") + 1
    return src + call + "\nmessage('REACHED')\n", line


def builtin(ck):
    sigs = [Sig(s) for s in json.load(open(os.path.join(VERIF, "spec", "signatures.json"))) + EXTRA]
    sigs = [s for s in sigs if s.base is not None]
    jobs = []
    for s in sigs:
        r = ck.rng("sig", s.name)
        rounds = ck.n(1, 8)
        for k in range(rounds):
            w, g = s.wrong(r), s.right(r)
            if not ck.thorough:
                # structural ways always, types by sample
                st = [x for x in w if not x[0].startswith("type:")]
                ty = [x for x in w if x[0].startswith("type:")]
                first = {}
                for x in ty:
                    first.setdefault(x[0].replace("kwargs:", ""), x)
                w = st + list(first.values())
                g = g[:1] + r.sample(g[1:], min(len(g) - 1, 14))
            for way, call in w:
                if s.callee.startswith("disabler()"):
                    continue
                if (s.name, way) in EXEMPT or (s.name, way.split(":")[0]) in EXEMPT:
                    continue
                src, line = program(s, call)
                jobs.append(mk(s, src, ("wrong", s, way, call, line)))
            for way, call in g:
                if (s.name, way) in EXEMPT_OK:
                    continue
                src, line = program(s, call)
                jobs.append(mk(s, src, ("right", s, way, call, line)))

    def judge(j, d):
        kind, s, way, call, line = j.tag
        r = j.res
        t = r.text
        k = crashed(r)
        key = "%s:%s:%s" % (s.name, kind, way)
        f = j.files.get("meson.build") or j.files.get("f.meson")
        ck.case(call)
        if k or r.timeout:
            ck.violation(key + ":" + str(k or "timeout"), "%s\n%s" % (call, t[-1500:]), {"meson.build": f})
            return
        if "BEFORE" not in t:
            ck.give_up("%s: the call was not reached: %s" % (s.name, t[-400:]))
            return
        after = t[t.index("BEFORE"):]
        if kind == "wrong":
            ck.count("refusals_expected")
            m = re.search(r"(?:meson\.build|f\.meson):(\d+):\d+: error", after)
            if r.rc != 1 or "REACHED" in after:
                ck.violation(key, "a call breaking the signature was not refused (exit %s)\n%s\n%s" % (r.rc, call, t[-800:]), {"meson.build": f})
            elif not m or int(m.group(1)) != line:
                ck.violation(key + ":line", "refused, but not with an error at line %d\n%s\n%s" % (line, call, t[-800:]), {"meson.build": f})
            elif way.split(":")[0] not in ("type",) and not ARGERR.search(after):
                # something else refused it: the argument check did not come first
                ck.violation(key + ":late", "a call breaking the signature got past the argument check\n%s\n%s" % (call, t[-800:]), {"meson.build": f})
            elif "SUBDIR" in after:
                ck.violation(key + ":effect", "the refused call had an effect\n%s\n%s" % (call, t[-800:]), {"meson.build": f})
            if d:
                for e in ("copied", "newdir", "newfile", "dumped", "build/cf", "marker"):
                    if os.path.exists(os.path.join(d, e)):
                        ck.violation(key + ":effect", "the refused call created %s\n%s" % (e, call), {"meson.build": f})
        else:
            ck.count("acceptances_expected")
            if r.rc == 0 and "REACHED" in after:
                ck.count("accepted_and_run")
            elif way == "base":
                ck.violation(key, "a correct call failed\n%s\n%s" % (call, t[-800:]), {"meson.build": f})
            elif ARGERR.search(after):
                ck.violation(key, "a call that satisfies the signature was refused by the argument check\n%s\n%s" % (call, t[-800:]), {"meson.build": f})
    # effects that would show even though the run ends
    for i, (call, eff) in enumerate([
            ("run_command('touch', meson.current_source_dir() / 'marker', check: true, %s)", 0),
            ("run_command('touch', meson.current_source_dir() / 'marker', %s)", 0),
            ("configure_file(output: 'cf', configuration: cd, %s)", 0),
            ("configure_file(output: 'cf', command: ['touch', meson.current_source_dir() / 'marker'], %s)", 0),
            ("subdir('sd', %s)", 0), ("subproject('sub2', %s)", 0),
            ("cc.run('#include <stdio.h>\\nint main(void){fclose(fopen(\"@0@/marker\",\"w\"));}'.format(meson.current_source_dir()), %s)", 0),
    ]):
        for extra in ("bogus: 1", "kwargs: {'bogus': 1}", "kwargs: {'check': 1}", "env: 7", "required: 's'"):
            s = Sig({"name": "effects", "base": ("", "")})
            s.script, s.cproj = False, "cc" in call
            c = call % extra
            src, line = program(s, c)
            j = mk(s, src, ("wrong", s, "type:%d:%s" % (i, extra), c, line))
            j.files["subprojects/sub2/meson.build"] = "project('sub2')\nmessage('SUBDIR')\n"
            jobs.append(j)
    ck.rng("o").shuffle(jobs)
    run_jobs(ck, jobs, config="plain", fn=judge, chunk=40)
    ck.count("signatures", len(sigs))


def mk(s, src, tag):
    if s.script:
        return Job(["internal", "eval", "f.meson"], {"f.meson": src}, tag=tag, timeout=30)
    f = dict(FILES)
    f["meson.build"] = src
    return Job(["setup", "build"], f, tag=tag, timeout=60)


EXEMPT = set()
EXEMPT_OK = set()


# ---------------------------------------------------------------- user functions

class Ty:
    """a declared type: text, membership and generation"""

    def __init__(self, r, depth=0, top=False):
        k = r.random()
        self.kind, self.sub = None, None
        if depth < 2 and k < .16:
            self.kind, self.sub = "list", Ty(r, depth + 1)
        elif depth < 2 and k < .28:
            self.kind, self.sub = "dict", Ty(r, depth + 1)
        elif k < .36:
            self.kind = "any"
        elif depth < 2 and k < .5:
            self.kind, self.sub = "or", [Ty(r, 2), Ty(r, depth + 1)]
            self.sub[0].kind = r.choice(["int", "str", "bool"])
        elif depth < 2 and k < .55:
            self.kind = "func"
        else:
            self.kind = r.choice(["int", "str", "bool"])

    def text(self):
        if self.kind in ("list", "dict"):
            return "%s[%s]" % (self.kind, self.sub.text())
        if self.kind == "or":
            return self.sub[0].text() + "|" + self.sub[1].text()
        return self.kind

    def has(self, v):
        k = self.kind
        if k == "any":
            return True
        if k == "or":
            return any(s.has(v) for s in self.sub)
        if k == "list":
            return isinstance(v, list) and all(self.sub.has(x) for x in v)
        if k == "dict":
            return isinstance(v, dict) and all(self.sub.has(x) for x in v.values())
        return {"int": type(v) is int, "str": type(v) is str, "bool": type(v) is bool, "func": v is FUNC}[k]

    def gen(self, r, d=0):
        k = self.kind
        if k == "any":
            return anyval(r)
        if k == "or":
            return r.choice(self.sub).gen(r, d)
        if k == "list":
            return [self.sub.gen(r, d + 1) for _ in range(r.randrange(3 - d if d < 3 else 1))]
        if k == "dict":
            return {x: self.sub.gen(r, d + 1) for x in r.sample(["k", "l", ""], r.randrange(3 - d if d < 3 else 1))}
        if k == "func":
            return FUNC
        return anyval(r, k)


class _F:
    pass


FUNC = _F()


def anyval(r, k=None, d=0):
    k = k or r.choice(["int", "str", "bool", "int", "str", "list", "dict", "func"] if d < 2 else ["int", "str", "bool"])
    if k == "int":
        return r.choice([0, 1, -1, 5, 77])
    if k == "str":
        return r.choice(["", "a", "x y", "'", "7"])
    if k == "bool":
        return r.random() < .5
    if k == "list":
        return [anyval(r, None, d + 1) for _ in range(r.randrange(3))]
    if k == "func":
        return FUNC
    return {x: anyval(r, None, d + 1) for x in r.sample(["k", "l"], r.randrange(3))}


def lit(v):
    if v is FUNC:
        return "ff"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return quote(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    return "{" + ", ".join("%s: %s" % (quote(k), lit(x)) for k, x in v.items()) + "}"


def flat(v):
    for x in v:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def hasfunc(v):
    if v is FUNC:
        return True
    return any(map(hasfunc, v)) if isinstance(v, list) else any(map(hasfunc, v.values())) if isinstance(v, dict) else False


class Fn:
    def __init__(self, r, i):
        self.name = "f%d" % i
        self.pos = [("a%d" % k, Ty(r), None) for k in range(r.choice([0, 1, 1, 2, 2, 3]))]
        self.mods = ["" for _ in self.pos]
        for k in range(len(self.pos)):
            if r.random() < .12 and self.pos[k][1].kind in ("int", "str", "bool", "any"):
                self.mods[k] = "listify"
        if r.random() < .25:
            t = Ty(r)
            while t.kind not in ("int", "str", "bool"):
                t = Ty(r)
            self.pos.append(("g", t, None))
            self.mods.append("glob")
        self.kw = []
        for k in range(r.choice([0, 0, 1, 2, 3])):
            t = Ty(r)
            m = "listify" if r.random() < .2 and t.kind in ("int", "str", "bool") else ""
            dv = t.gen(r) if not m else [t.gen(r)]
            self.kw.append(("k%d" % k, t, dv, m))
        self.cap = r.choice(["", "", "o0", "o1"])
        names = [p[0] for p in self.pos] + [k[0] for k in self.kw]
        self.names = names
        self.retmode = r.choice(["args", "args", "args", "void", "one", "badtype"]) if names else r.choice(["args", "void", "badtype"])
        self.shadow = r.random() < .3

    def text(self):
        ps = []
        for (n, t, _), m in zip(self.pos, self.mods):
            ps.append("%s %s" % (n, "%s[%s]" % (m, t.text()) if m else t.text()))
        for n, t, dv, m in self.kw:
            ps.append("%s %s: %s" % (n, "%s[%s]" % (m, t.text()) if m else t.text(), lit(dv)))
        rt = {"args": " -> list[any]", "void": "", "one": " -> any", "badtype": " -> int"}[self.retmode]
        L = ["func %s(%s)%s" % (self.name, ", ".join(ps), rt), "  message('BODY %s')" % self.name]
        if self.shadow:
            L.append("  loc = 'local'")
            L.append("  o1 = 'hidden'")
        elems = list(self.names) + ([self.cap] if self.cap else [])
        if self.retmode == "args":
            L.append("  if true")
            L.append("    return [%s]" % ", ".join(elems))
            L.append("  endif")
            L.append("  message('UNREACHED')")
        elif self.retmode == "one":
            L.append("  foreach i : range(3)\n    return %s\n  endforeach\n  message('UNREACHED')" % self.names[0])
        elif self.retmode == "badtype":
            L.append("  return 'text'")
        else:
            L.append("  message([%s])" % ", ".join(x for x in elems))
        L.append("endfunc")
        return "\n".join(L)

    def bind(self, pos, kw):
        """pos values, kw [(name, value)] -> (ok, env)"""
        env, i = {}, 0
        for (n, t, _), m in zip(self.pos, self.mods):
            if m == "glob":
                out = []
                for v in pos[i:]:
                    if isinstance(v, list):
                        for x in flat(v):
                            if not t.has(x):
                                return False, None
                            out.append(x)
                    elif not t.has(v):
                        return False, None
                    else:
                        out.append(v)
                env[n] = out
                i = len(pos)
                continue
            if i >= len(pos):
                return False, None
            v = pos[i]
            if m == "listify":
                v = list(flat(v)) if isinstance(v, list) else [v]
                if not all(t.has(x) for x in v):
                    return False, None
            elif not t.has(v):
                return False, None
            env[n] = v
            i += 1
        if i < len(pos):
            return False, None
        seen = set()
        for n, v in kw:
            d = [k for k in self.kw if k[0] == n]
            if not d or n in seen:
                return False, None
            seen.add(n)
            t, m = d[0][1], d[0][3]
            if m:
                v = list(flat(v)) if isinstance(v, list) else [v]
                if not all(t.has(x) for x in v):
                    return False, None
            elif not t.has(v):
                return False, None
            env[n] = v
        for n, t, dv, m in self.kw:
            env.setdefault(n, dv)
        return True, env

    def args(self, r, wrong):
        pos = []
        for (n, t, _), m in zip(self.pos, self.mods):
            if m == "glob":
                for _ in range(r.randrange(4)):
                    pos.append([t.gen(r), [t.gen(r)]] if r.random() < .25 else t.gen(r))
            elif m == "listify" and r.random() < .6:
                pos.append([t.gen(r), [t.gen(r)]])
            else:
                pos.append(t.gen(r))
        kw = []
        for n, t, dv, m in self.kw:
            if r.random() < .6:
                v = t.gen(r)
                if m and r.random() < .5:
                    v = [v, [t.gen(r)]]
                kw.append((n, v))
        r.shuffle(kw)
        if wrong:
            w = r.choice(["drop", "more", "type", "type", "type", "unknown", "dup", "kwtype", "kwtype"])
            if w == "drop" and pos:
                pos.pop()
            elif w == "more":
                pos.append(anyval(r))
            elif w == "type" and pos:
                k = r.randrange(len(pos))
                pos[k] = [pos[k], anyval(r)] if r.random() < .3 else anyval(r)
            elif w == "unknown":
                kw.append((r.choice(["k9", "a0", "g", "o0", "K0"]), anyval(r)))
            elif w == "dup" and kw:
                kw.append(r.choice(kw))
            elif w == "kwtype" and kw:
                k = r.randrange(len(kw))
                kw[k] = (kw[k][0], anyval(r))
        return pos, kw

    def call(self, r, pos, kw):
        k2 = list(kw)
        parts = [lit(v) for v in pos]
        if k2 and r.random() < .3:
            cut = r.randrange(len(k2))
            d = dict(k2[cut:])
            if len(d) == len(k2) - cut:
                return "%s(%s)" % (self.name, ", ".join(parts + ["%s: %s" % (n, lit(v)) for n, v in k2[:cut]] + ["kwargs: " + lit(d)]))
        return "%s(%s)" % (self.name, ", ".join(parts + ["%s: %s" % (n, lit(v)) for n, v in k2]))


def user(ck):
    jobs = []
    for i in range(ck.n(1200, 15000)):
        r = ck.rng("user", i)
        fns = [Fn(r, k) for k in range(r.randrange(1, 4))]
        outer = {"o0": anyval(r, r.choice(["int", "str", "list"])), "o1": anyval(r, r.choice(["int", "str", "dict"]))}
        while hasfunc(list(outer.values())):
            outer = {"o0": 1, "o1": "t"}
        L = ["func ff() -> int", "  return 1", "endfunc"] + ["%s = %s" % (k, lit(v)) for k, v in outer.items()]
        for f in fns:
            L += f.text().split("\n")
        exp, err = [], None
        n = r.randrange(3, 14)
        for c in range(n):
            f = r.choice(fns)
            wrong = c == n - 1 and r.random() < .75
            pos, kw = f.args(r, wrong)
            ok, env = f.bind(pos, kw)
            text = f.call(r, pos, kw)
            val = None
            if ok:
                exp.append("BODY " + f.name)
                cap = {"o0": outer["o0"], "o1": "hidden" if f.shadow else outer["o1"]}
                elems = [env[x] for x in f.names] + ([cap[f.cap]] if f.cap else [])
                if f.retmode == "args":
                    val = elems
                elif f.retmode == "one":
                    val = elems[0]
                elif f.retmode == "badtype":
                    L.append(text)
                    err = [k + 1 for k, l in enumerate(L) if l == "  return 'text'"]
                    break
                else:
                    if hasfunc(elems):
                        exp.append(None)
                    else:
                        exp.append(lm.show(elems))
                    L.append(text)
                    continue
                how = r.random()
                if hasfunc(val):
                    L.append("r = " + text)
                elif how < .5:
                    L.append("r = " + text)
                    L.append("message([r])")
                    exp.append(lm.show([val]))
                else:
                    L.append("message([%s, 1])" % text)
                    exp.append(lm.show([val, 1]))
            else:
                L.append(r.choice(["", "r = "]) + text if f.retmode != "void" else text)
                err = [len(L)]
                break
        else:
            L.append("message(is_variable('loc'), is_variable('a0'), is_variable('k0'), is_variable('g'))")
            exp.append("false false false false")
            L.append("message([o0, o1])")
            exp.append(lm.show([outer["o0"], outer["o1"]]))
        src = "\n".join(L) + "\n"
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": src}, tag=(src, exp, err)))

    def judge(j, d):
        src, exp, err = j.tag
        r = j.res
        t = r.text
        k = crashed(r)
        ck.case(src, sample=src if ck.rng(src).random() < .002 else None)
        fl = {"f.meson": src}
        if k or r.timeout:
            ck.violation("user:" + str(k or "timeout"), t[-1500:], fl)
            return
        got = messages(t)
        ck.count("user_observations", len(got))
        want = exp
        if len(got) != len(want) or any(w is not None and g != w for g, w in zip(got, want)):
            bad = next((x for x in range(min(len(got), len(want))) if want[x] is not None and got[x] != want[x]), min(len(got), len(want)))
            ck.violation("user:value", "observation %d: got %r, declared binding gives %r\nexit %d\n%s" % (
                bad, got[bad:bad + 1], want[bad:bad + 1], r.rc, t[-600:]), fl)
            return
        if (err is None) != (r.rc == 0):
            ck.violation("user:" + ("refused" if err is None else "accepted"), "exit %d, expected %s\n%s" % (r.rc, err, t[-800:]), fl)
        elif err:
            m = re.search(r"f\.meson:(\d+):\d+: error", t)
            ck.count("user_refusals")
            if not m or int(m.group(1)) not in err:
                ck.violation("user:line", "error not at line %s\n%s" % (err, t[-800:]), fl)
    run_jobs(ck, jobs, fn=judge)


def messages(t):
    out = []
    for p in re.split(r"^message: ", t, flags=re.M)[1:]:
        p = re.split(r"^(?:f\.meson:\d+:\d+: error|err )", p, maxsplit=1, flags=re.M)[0]
        p = p.rstrip("\n")
        out.append(p[:-1] if p.endswith(" ") else p)
    return out


def body(ck):
    ck.rule = ("a call text is one case: every listed signature called correctly with every declared type and broken in every way "
               "(missing, surplus, unknown, duplicated, misplaced, wrong type), and whole programs of user functions")
    builtin(ck)
    user(ck)
    ck.assumptions = ["spec/signatures.json records the declared parameters (taken once from muon internal dump_funcs and reviewed)"]
    ck.finish(min_evals=2500)


if __name__ == "__main__":
    main("C29", body)
