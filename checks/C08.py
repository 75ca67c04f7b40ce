#!/usr/bin/env python3
"""C08: the analyzer and the syntax checker read only, accept what setup accepts and find faults.

Real, generated and trap projects are analyzed in every mode with a preloaded library that records
paths opened for writing and processes started; trees are compared before and after.  Projects that
setup accepts must be analyzed without an error; a fault put on a path of such a project must be
reported at its line."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import langmodel as lm
import C09, C14

OPTS = """option('b_t', type: 'boolean', value: true)
option('b_f', type: 'boolean', value: false)
option('s', type: 'string', value: 'str')
option('i', type: 'integer', value: 3)
option('arr', type: 'array', value: ['a', 'b'])
option('ft', type: 'feature', value: 'enabled')
option('c', type: 'combo', choices: ['x', 'y'], value: 'y')
"""
HEAD = ["project('x')", "cd = configuration_data({'t': 1})", "fs = import('fs')", "lst = get_option('arr')", "plat = host_machine.system()", "slist = plat.split('-')", "num = slist.length()"]

TRUE = ["get_option('b_t')", "cd.has('t')", "meson.get_external_property('nosuch', true)", "(plat != 'nosuch')", "fs.exists('meson.build')", "get_option('ft').enabled()",
        "(get_option('i') > 1)", "(get_option('s') == 'str')", "(get_option('c') == 'y')", "(not meson.is_cross_build())", "('a' in lst)", "find_program('sh').found()", "(is_variable('plat') and get_option('b_t'))"]
TRUE += ["[get_option('s'), 'q'].contains('str')", "('-'.join([get_option('s'), 'b']) == 'str-b')", "({'a': get_option('s')}.get('a') == 'str')", "('str' in [get_option('s')])", "(f'x@plat@' != 'x')", "('@0@'.format(get_option('s')) == 'str')",
         "[get_option('b_t')][0]", "{'k': get_option('b_t')}['k']", "(lst == ['a', 'b'])", "(get_option('b_t') ? true : false)", "(lst.length() == 2)", "('a-b'.split('-') == lst)", "get_option('s').startswith('s')", "(get_option('s') + 'x' == 'strx')",
         "(get_option('i') % 2 == 1)", "('str' in {get_option('s'): 1})", "{get_option('s'): 1}.has_key('str')", "(not (get_option('b_f') or get_option('b_f')))", "(fs.name(get_option('s')) == 'str')", "('k' not in {get_option('s'): 1})", "get_variable('plat') == host_machine.system()", "is_variable(get_option('s')) == false",
         "[[get_option('s')], 1].contains(['str'])", "(['str', 3] == [get_option('s'), get_option('i')])", "({'a': [get_option('i')]} == {'a': [3]})", "cd.get('t', 0) == 1", "meson.version().version_compare('>=' + '0.' + get_option('i').to_string())"]
TRUE = [x if re.match(r"[\w.]*\([^()]*\)$|\(", x) else "(" + x + ")" for x in TRUE]
FALSE = ["get_option('b_f')", "cd.has('f')", "meson.get_external_property('nosuch', false)", "(plat == 'nosuch')", "fs.exists('nosuch')", "get_option('ft').disabled()",
         "(get_option('i') < 1)", "(get_option('s') == 'x')", "(get_option('c') == 'x')", "meson.is_cross_build()", "('z' in lst)", "find_program('no-such-program', required: false).found()", "(not cd.has('t'))"]
FALSE += ["(not %s)" % x for x in TRUE]
STR = ["get_option('s')", "plat", "'@0@'.format(plat)", "get_option('i').to_string()", "meson.current_source_dir()", "find_program('sh').full_path()", "(plat + '/x')", "cd.get('nosuch', 'd')", "'-'.join(lst)", "lst[0]"]


def imp(r, v):
    return r.choice(TRUE if v else FALSE)


class Safe(lm.Gen):
    """programs whose expressions have the right type whatever path is taken and no value errors (overflow, index, division) on any"""
    def lit(self, t):
        if t == "int":
            return ("lit", self.r.choice([0, 1, 2, 3, 5, 9, -1, -4]))
        return super().lit(t)

    def x_int(self, t):
        r = self.r
        if r.random() < .7:
            op = r.choice("+-/%")
            return ("bin", op, self.expr("int"), ("lit", r.choice([1, 2, 3, 7])) if op in "/%" else self.lit("int"))
        return ("meth", "length", self.expr(("list", self.typ(2))), []) if r.random() < .6 else ("meth", "to_int", self.expr("bool"), [])

    def expr_(self, t):
        for _ in range(30):
            n = super().expr_(t)
            if n[0] != "idx" or (n[1][0] == "list" and len(n[1][1]) > 0) or n[1][0] == "dict":
                return n
        return self.lit(t)

    def stmt(self, d):
        s = super().stmt(d)
        if self.loop and s[0] in ("set", "setvar", "add"):
            t = self.env[s[2]]
            s[3] = self.lit(t if s[0] == "add" or self.r.random() < .5 else t)
        return s


class Render(lm.Render):
    """literals are often replaced by expressions whose value the analyzer can not know"""
    p = .4

    def ex(self, n, prec=0):
        if n[0] == "lit" and len(n) == 2 and self.r.random() < self.p:
            v = n[1]
            if isinstance(v, bool):
                return "(" + imp(self.r, v) + ")"
            if isinstance(v, (int, str)):
                return "meson.get_external_property('nosuch', %s)" % super().ex(n)
        return super().ex(n, prec)


def program(r, marks=False):
    """-> (lines, line ranges of the places where a fault may be put) of a program that setup accepts"""
    g = Safe(r, False, 0)
    prog = []
    marked = []
    for _ in range(r.randrange(1, 6)):
        prog.append(g.stmt(0))
        if marks and r.random() < .6:
            marked.append(["msg", None, [("lit", "MARK", "'MARK'")]])
            prog.append(marked[-1])
    prog.append(["dump", None, sorted(g.env)])
    if marks and not marked:
        marked.append(["msg", None, [("lit", "MARK", "'MARK'")]])
        prog.append(marked[-1])
    old, lm.Render = lm.Render, Render
    Render.p = r.choice([0, .2, .5, .9])
    try:
        x = lm.run(r, prog, False, "\n".join(HEAD) + "\n")
    finally:
        lm.Render = old
    if not x or x[2]:
        return None
    return x[0].split("\n"), [m[1] for m in marked]


# programs whose type or variables depend on the path: V is a fresh variable, T and F conditions
# unknown to the analyzer and true or false, S an unknown string, L an unknown list of strings
DYN = """if F
  V = 1
else
  V = 'a'
endif
message(V.to_upper())
---
if T
  V = ['a']
else
  V = {'a': 1}
endif
foreach V_x : V
  message(V_x + 'b')
endforeach
---
if T
  V = 3
endif
V += 1
message(V)
---
foreach V_i : L
  V = V_i
endforeach
message(V)
message(V_i)
---
set_variable('V_' + S.substring(1, 0) + 'q', 5)
message(get_variable('V_q') + 1)
---
V_n = 'V_z'
if T
  set_variable(V_n, [1, 2])
endif
message(get_variable(V_n)[1], get_variable('V_none', S).to_upper())
---
V = 1
if F
  unset_variable('V')
endif
message(V)
---
if is_variable('V_never')
  message(get_variable('V_never'))
endif
---
if F
  V = 1
endif
if not is_variable('V')
  V = 'a'
endif
message(V.to_upper())
---
if F
  V = 1
endif
V = get_variable('V', 'a')
message(V.to_upper())
---
if F
  V = 1
elif F
  V = []
endif
if is_variable('V')
  message(V.length())
  V_k = true
else
  V_k = 'x'
endif
message(V_k.to_upper())
---
foreach V_n : L
  set_variable('V_' + V_n, V_n)
endforeach
message(V_a.to_upper(), get_variable('V_b', 1).to_upper(), is_variable('V_a') ? 1 : 2)
assert(is_variable('V_a') and not is_variable('V_none'))
---
foreach V_n : L
  set_variable('V_' + V_n, 3)
endforeach
foreach V_m : L
  message(get_variable('V_' + V_m) + 1)
endforeach
---
V_x = 'abc'
foreach V_n : ['x', 'y']
  if is_variable('V_' + V_n)
    message(get_variable('V_' + V_n).to_upper())
    unset_variable('V_' + V_n)
  endif
endforeach
assert(not is_variable('V_x'))
---
foreach V : [1, 2, 3]
  if T
    continue
  endif
  message(V + 1)
endforeach
---
foreach V : L
  if F
    break
  elif T
    V_k = V
  else
    V_k = 3
  endif
  message(V_k.to_upper())
endforeach
---
V = disabler()
V_b = V.nosuch(1, 2)
if V
  message('x')
endif
V_c = V_b + 1
message(is_disabler(V_c))
---
V = dependency('no-such-dependency', required: false)
if V.found()
  message(V.version().version_compare('>=1'), V.get_variable('x'))
endif
---
V = find_program('no-such-program', required: false)
if V.found()
  message(run_command(V, 'a', check: true).stdout().strip())
endif
---
V = {}
foreach V_n : L
  V += {V_n: V_n.to_upper()}
endforeach
message(V['a'], V.get('b'), V.keys())
---
V = []
foreach V_n, V_v : {'a': 1, S + '-': 2}
  V += [[V_n, V_v]]
endforeach
message(V[0][0].to_upper(), V[1][1] + 1)
---
V = F ? 1 : S
message(V.to_upper())
---
V = T ? ['x'] : 'y'
V += ['z']
message(V[1])
---
V = [1, S, [true], {'a': S}]
message(V[0] + 1, V[1].to_upper(), V[2][0] ? 1 : 2, V[3]['a'].strip())
---
V = configuration_data()
V.set('A', S)
V.set(S, 3)
message(V.get('A').to_upper(), V.get('nosuch', 7) + 1, V.keys())
---
V = {'k': T ? 'v' : 3}
message(V['k'] + 'x')
---
V = environment()
V.set('A', S)
V.append(S, 'q', 'r', separator: ':')
---
V = run_command('sh', '-c', 'echo 1', check: true).stdout().strip().to_int()
message(V + 1)
---
V = []
V_d = true
foreach V_e : [[1, 'a'], [2, 'b']]
  if V_e[0] > get_option('i')
    V_d = V_e[1]
  endif
endforeach
if V_d == true
  message('unchanged')
endif
---
V = S.split(',')
message(V[0].to_upper(), V.length() + 1)
---
V = files('meson.build')
V += 'extra'
message(fs.name(V[1]))
---
V = []
if F
  V += files('nosuch')
endif
message(V.length())
---
V = get_option('ft').disable_auto_if(F).require(T)
message(V.enabled() ? 'a' : 'b')
---
if F
  V = 3
elif T
  V = true
else
  V = []
endif
message(V ? 'a' : 'b')
---
V = {'input': 'meson.build', 'output': 'V_o', 'copy': true}
configure_file(kwargs: V)
---
V = {}
if T
  V += {'required': false}
endif
message(dependency('no-such-dep', kwargs: V).found())
---
if F
  error('not this way')
endif
assert(T, 'holds')
---
V = meson.get_external_property('nosuch', [1, 2])
foreach V_p : V
  message(V_p + 1)
endforeach
message(V[0] + V[1])
---
V = meson.get_external_property('nosuch', {'a': 'b'})
message(V['a'].to_upper())
---
V = import('fs', required: false)
if V.found()
  message(V.exists(S))
endif
---
V = import('no-such-module', required: false)
if V.found()
  V.nosuch(1)
endif
---
V_l = [S, 'b', 'c']
V = V_l[-1] + V_l.get(0) + V_l.get(7, 'none')
message(V_l.contains(S) ? V : V.to_upper())
---
V = get_option('c')
if V not in ['x', 'y']
  error('bad')
elif V == 'x'
  V = 1
else
  V = [V]
endif
message(V[0].to_upper())
---
V = T and not F
message(V.to_string('yes', 'no').to_upper(), V.to_int() + 1)
---
V = {'a': {'b': [S]}}
message(V['a']['b'][0].to_upper(), V.get('a').get('c', [S])[0].to_upper())
---
V = 1
foreach V_1 : L
  foreach V_2 : L
    V = V_1 + V_2
  endforeach
endforeach
message(V.to_upper())
---
V = 0
foreach V_n : meson.get_external_property('nosuch', ['a', 'b', 'c', 'd'])
  if V == 0
    V_0 = V_n
  elif V == 1
    V_1 = V_0 + V_n
  elif V == 3
    V_3 = [V_n]
  endif
  V += 1
endforeach
message(V_1.to_upper(), V_3[0], V + 1)
---
V = 'start'
foreach V_n : L
  if V == 'start'
    V = 'then'
  elif V == 'then'
    V = 'last'
  else
    V_e = 1
  endif
endforeach
message(V.to_upper(), get_variable('V_e', 2) + 1)
---
foreach V : range(get_option('i'))
  V_a = [V]
endforeach
message(V_a[0] + 1)
---
V = f'@plat@'.split('x')[0] + f'a @plat@ b'
message(V)
---
if meson.version().version_compare('>=0.1')
  V = 'new'
else
  V = ['old']
endif
message(V.to_upper())
---
V = custom_target('V_ct', output: 'V_ct', command: ['touch', '@OUTPUT@'], build_by_default: F)
message(V.full_path().to_upper(), V.to_list().length() + 1)
---
V = F ? disabler() : S
message(V.to_upper())
---
V = import('fs')
V_h = V.hash('meson.build', 'sha256') + V.read('meson.build').substring(0, 3) + V.stem(S)
message(V_h, V.is_dir(S), V.size('meson.build') + 1)
""".split("---\n")


# (text, whether it is an expression): each makes setup fail where it is executed
FAULTS_E = """nosuch_function()
nosuch_function('a', 1)
nosuch_variable
nosuch_variable.length()
nosuch_variable[0]
[nosuch_variable]
{'a': nosuch_variable}
f'x @nosuch_variable@ y'
plat.nosuch_method()
slist.nosuch_method()
{'a': 1}.nosuch_method()
cd.has('t').nosuch_method()
num.nosuch_method(1)
meson.nosuch_method()
fs.nosuch_method('a')
cd.nosuch_method()
host_machine.nosuch_method()
find_program('sh').nosuch_method()
dependency('no-such', required: false).nosuch_method()
files('meson.build').nosuch_method()
plat + 1
1 + plat
plat - 'a'
cd.has('t') + 1
num + 'a'
num - cd.has('t')
plat * 2
num / 'a'
num % 'a'
cd.has('t') < num
plat >= 3
1 in plat
1 in num
not plat
not num
-plat
-cd.has('t')
plat and true
cd.has('t') and 3
cd.has('f') or plat
num ? 1 : 2
plat ? 1 : 2
num[0]
slist['a']
{'a': 1}[num]
{num: 1}
plat['a']
plat.to_upper('a')
plat.split(1)
plat.startswith()
plat.startswith(1)
plat.join(1)
plat.contains(true)
plat.replace('a')
plat.version_compare(1)
plat.substring('a')
num.is_even(1)
slist.contains()
slist.get('a')
slist.length(1)
{'a': 1}.get(1)
{'a': 1}.has_key()
{'a': 1}.keys('a')
cd.set(1, 2)
cd.set('a')
cd.has()
cd.has(1)
cd.get(1)
cd.get('t', nosuch_kw: 1)
cd.set('a', 'b', description: 1)
environment(1)
environment({}, nosuch_kw: 1)
environment().set('a', 'b', separator: 1)
configuration_data('a')
fs.exists()
fs.exists(1)
fs.exists('a', 'b')
fs.hash('meson.build')
fs.replace_suffix('a', 1)
meson.version(1)
meson.get_external_property()
meson.current_source_dir('a')
get_option(1)
get_option()
files(1)
include_directories(1)
range('a')
range()
join_paths(1)
join_paths([1], 'a')
declare_dependency(version: 1)
declare_dependency(nosuch_kw: 1)
declare_dependency(link_with: 'a')
dependency(1)
dependency('a', required: 'a')
dependency('a', required: false, nosuch_kw: 1)
dependency('a', required: false, version: 1)
find_program(1)
find_program('sh', required: 1)
run_command('true', check: 'a')
run_command(1, check: true)
configure_file(output: 1, configuration: {})
configure_file(output: 'o', configuration: 1)
configure_file(output: 'o', configuration: {}, nosuch_kw: 2)
configure_file(configuration: {})
custom_target('a', output: 1, command: ['true'])
custom_target('a', command: ['true'])
custom_target('a', output: 'b', command: ['true'], install: 'yes')
custom_target('a', output: 'b', command: ['true'], depend_files: 1)
executable('e', 1)
executable()
executable('e', 'a.c', install: 'a')
executable('e', 'a.c', nosuch_kw: 'a')
library('e', 'a.c', link_with: 1)
static_library('e', 'a.c', include_directories: 1)
import(1)
import()
subproject(1)
generator('a')
is_variable(1)
get_variable(1)
structured_sources(1)
disabler(1)
find_program('sh').full_path(1)
find_program('sh').version('a')
message(nosuch_variable)
slist.contains(nosuch_variable)
environment({'a': nosuch_variable})
configure_file(output: 'o', configuration: nosuch_variable)
(nosuch_variable)
[[1, [nosuch_function()]]]
{'a': {'b': [plat + 1]}}
slist[nosuch_variable]
'@0@'.format(nosuch_variable)
import('fs').nosuch_method()
[slist, plat.nosuch_method()]
not (not plat)
(plat + 'a') + 1
(plat / 'a').nosuch_method()
(cd.has('t') == true) + 1
(num + 1).nosuch_method()
slist.length().nosuch_method()
plat.split('a').nosuch_method()
plat.strip().length()
fs.exists('a').length()
cd.keys().nosuch_method()
{'a': plat}.keys().nosuch_method()
meson.version().nosuch_method()
slist + nosuch_variable
(slist == ['a']).nosuch_method()
range(3).nosuch_method()
import('fs').parent(plat).nosuch_method()
run_command('true', check: true).nosuch_method()
run_command('true', check: true).stdout().nosuch_method()
run_command('true', check: true).returncode().nosuch_method()
meson.project_version().nosuch_method()
build_machine.endian().nosuch_method()
find_program('sh').full_path().nosuch_method()
disabler() + nosuch_variable
is_disabler(nosuch_variable)
['a', 'b'].nosuch_method()
3.nosuch_method()
'a'.nosuch_method()
true.nosuch_method()
3 + 'a'
'a' + 3
-'a'
not 3
true + 1
[1] - 1
{'a': 1} + 2
3['a']
'a' < 3
['a']['b']
{'a': 1}[1]
1 ? 2 : 3
""".split("\n")[:-1]

FAULTS_S = """nosuch_variable += 1
v_new = nosuch_variable
v_new = nosuch_function()
message('a', nosuch_kw: 1)
error(nosuch_kw: 1)
assert('x')
assert(plat)
assert(true, 1)
set_variable(1, 2)
set_variable('a')
set_variable()
unset_variable(1)
subdir(1)
subdir()
test(1, find_program('sh'))
test('t')
test('t', find_program('sh'), args: nosuch_variable)
test('t', find_program('sh'), timeout: 'a')
test('t', find_program('sh'), nosuch_kw: 1)
benchmark('t', find_program('sh'), workdir: 1)
install_data(1)
install_data('meson.build', install_dir: 1)
install_headers('meson.build', subdir: 1)
install_headers('meson.build', nosuch_kw: 1)
install_man(1)
install_subdir('a')
install_subdir('a', install_dir: 1)
install_emptydir(1)
install_symlink('a', install_dir: 'b')
install_symlink(1, install_dir: 'a', pointing_to: 'b')
run_target('a')
run_target('r', command: 1)
alias_target('a', 'b')
add_test_setup('a', env: 1)
add_project_arguments(1, language: 'c')
add_project_arguments('a', language: 1)
add_global_arguments('a', nosuch_kw: 'c')
summary('a', 'b', section: 1)
summary({'a': 1}, nosuch_kw: 1)
vcs_tag(input: 'a')
slist += {'a': 1}.nosuch_method()
v_new = plat + 1
v_int = num + plat
foreach v_i : nosuch_variable
foreach v_i : num
foreach v_i : plat
foreach v_i : cd.has('t')
foreach v_i, v_j : slist
foreach v_i : {'a': 1}
if nosuch_variable
if plat
if num
if not plat
if nosuch_function()
if fs.exists(1)
if cd.has('t') and plat
summary('a', nosuch_variable)
set_variable('v_q', nosuch_variable)
set_variable(num, 1)
add_languages(1)
add_project_dependencies(1, language: 'c')
cd.set('a', nosuch_variable)
cd.nosuch_method('a', 1)
meson.override_dependency('a', 1)
meson.override_dependency(1, declare_dependency())
meson.override_find_program(1, find_program('sh'))
meson.add_install_script(1)
meson.add_install_script('a', nosuch_kw: 1)
""".split("\n")[:-1]

# several lines; the fault is at the line that ends in #!
FAULTS_M = """if T
  v_j = 1
else
  v_j = 'a'
endif
v_j.nosuch_method() #!
---
if T
  v_j = ['a']
else
  v_j = {'a': 1}
endif
v_k = v_j - 1 #!
---
if T
  v_j = 1
else
  v_j = true
endif
message(v_j.to_upper()) #!
---
foreach v_i : slist
  v_i.nosuch_method() #!
endforeach
---
foreach v_i, v_j : {'a': [1]}
  v_i.nosuch_method() #!
endforeach
---
foreach v_i : range(3)
  message(v_i + 'a') #!
endforeach
---
v_s = plat.split('-')
v_s.nosuch_method() #!
---
v_f = files('meson.build')
foreach v_g : v_f
  v_g.nosuch_method() #!
endforeach
---
v_c = custom_target('v_c', output: 'v_c', command: ['touch', '@OUTPUT@'])
v_c.nosuch_method() #!
---
v_d = declare_dependency()
message(v_d.nosuch_method()) #!
---
v_a = [
  1,
  nosuch_variable, #!
]
---
message(
  'a',
  plat.nosuch_method(), #!
)
---
v_a = {
  'a': 1,
  'b': nosuch_function( #!
  ),
}
---
if F
  message('a')
elif nosuch_variable #!
  message('b')
endif
---
v_r = run_command('true', check: true)
if v_r #!
endif
---
v_a = plat
v_a += 1 #!
---
v_a = num
v_a += 'a' #!
---
v_a = 'x'
unset_variable('v_a')
message(v_a) #!
---
v_kw = {'output': 1, 'command': ['true']}
custom_target('x', kwargs: v_kw) #!
---
v_kw = {'nosuch_kw': 1}
message('a', kwargs: v_kw) #!
""".split("---\n")


def subst(r, t, v):
    t = re.sub(r"\bV(?=\b|_)", v, t)
    t = re.sub(r"\bT\b", lambda m: r.choice([imp(r, True), "get_option('b_t')"]), t)
    t = re.sub(r"\bF\b", lambda m: r.choice([imp(r, False), "get_option('b_f')"]), t)
    t = re.sub(r"\bS\b", lambda m: r.choice(STR), t)
    return re.sub(r"\bL\b", "lst", t).rstrip("\n").split("\n")


def indent(ls, n=2):
    return [" " * n + x for x in ls]


def fault(r):
    """-> (lines of statements, index of the line of the fault, the bare fault, whether the lines may repeat)"""
    k = r.random()
    if k < .62:
        e = r.choice(FAULTS_E)
        q = r.random()
        w = r.choice(["v_w = %s", "message(%s)", "v_w = [1, %s]", "v_w = {'a': %s}", "v_w = [%s, plat]", "v_w = (%s)", "if true == (%s)\nendif", "v_w = get_option('b_t') ? %s : 1",
                      "v_w = get_option('b_f') ? %s : 1", "v_w = get_option('b_t') ? 1 : %s", "set_variable('v_w', %s)", "message('a', [[%s]])", "v_w = is_disabler(%s)", "v_w = [] + [%s]", "%s",
                      "if get_option('b_f') and (true == (%s))\nendif", "foreach v_w : [%s]\nendforeach", "message('@0@'.format(%s))", "v_w = (1 == (%s))", "summary('k', [%s])", "lst += [%s]", "assert([] != [%s])",
                      "v_w = lst.get(9, %s)", "v_w = {'k': [1]}.get('q', %s)", "message(plat.format(%s))"]) if q < .8 else "v_w = %s"
        if re.match(r"(disabler|is_disabler)", e):
            w = "v_w = %s"
        return (w % e).split("\n"), 0, ["v_w = %s" % e]
    if k < .85:
        s = r.choice(FAULTS_S)
        b = [s]
        if s.startswith("foreach"):
            b = [s, "endforeach"]
        elif s.startswith("if"):
            b = [s, "endif"]
        return b, 0, b
    t = subst(r, r.choice(FAULTS_M), "V")
    i = [j for j, x in enumerate(t) if x.endswith("#!")][0]
    return [x[:-3] if x.endswith("#!") else x for x in t], i, None


def nest(r, ls, at, depth):
    """put the lines on a path the analyzer has to follow"""
    for _ in range(depth):
        k = r.randrange(13)
        c = lambda: imp(r, r.random() < .5)
        body = indent(ls)
        pre, post = [], []
        if k < 3:
            pre, post = ["if " + c()], ["endif"]
        elif k < 5:
            pre, post = ["if " + c(), "  message('then')", "else"], ["endif"]
        elif k == 5:
            pre, post = ["if " + c(), "  message('then')", "elif " + c()], ["else", "  message('else')", "endif"]
        elif k == 6:
            pre, post = ["foreach n_i : [1]"], ["endforeach"]
        elif k == 7:
            pre, post = ["foreach n_i : lst"], ["endforeach"]
        elif k == 8:
            pre, post = ["foreach n_k, n_v : {'a': 1}"], ["endforeach"]
        elif k == 9:
            pre, post = ["foreach n_i : lst", "  if " + c(), "    %s" % r.choice(["continue", "break"]), "  endif"], ["endforeach"]
        elif k == 12:
            pre, post = ["n_c = 0", "foreach n_i : lst", "  if n_c == 5"], ["  endif", "  n_c += 1", "endforeach"]
        elif k == 10:
            pre, post = ["if " + c(), "  if true"], ["  endif", "endif"]
        else:
            pre, post = ["n_q = " + r.choice(["lst", "plat", "[]"]), "if n_q == " + r.choice(["lst", "plat"]), "  n_q = 3"], ["endif"]
        pad = r.choice([[], [""], ["# comment"], ["message('pad')"], ["n_p = 'x'"]])
        ls = pad + pre + body + post
        at += len(pad) + len(pre)
    return ls, at


MODES = [[], ["-q"], ["-l"], ["-l", "-q"], ["-q", "-W", "no-dead-code"], ["-W", "no-unused-variable"]]


class Run:
    """one project on disk"""
    def __init__(self, ck, name, files=None, origin=None):
        self.ck, self.name, self.files = ck, name, files or {}
        self.top = ck.tmp(re.sub(r"\W", "_", name)[-60:])
        os.chmod(self.top, 0o777)
        self.src = self.top + "/src"
        for d in ("home", "tmp"):
            os.makedirs(os.path.join(self.top, d))
            os.chmod(os.path.join(self.top, d), 0o777)
        if origin:
            shutil.copytree(origin, self.src, symlinks=True)
        else:
            os.makedirs(self.src)
            for f, t in self.files.items():
                write(os.path.join(self.src, f), t)
                if t[:2] in ("#!", b"#!"):
                    os.chmod(os.path.join(self.src, f), 0o755)
        for d, ds, fs in os.walk(self.src):
            os.chmod(d, 0o777)

    def bad(self, key, detail):
        self.ck.violation(key, "%s: %s" % (self.name, detail), {"src/" + k: v for k, v in self.files.items()})
        return None

    def env(self):
        return {"PATH": BASE_ENV["PATH"], "LANG": "C.UTF-8", "CC": "gcc", "CXX": "g++", "HOME": self.top + "/home", "TMPDIR": self.top + "/tmp", "CCACHE_DISABLE": "1"}

    def setup(self):
        b = self.top + "/b"
        argv = ["env", "-i"] + ["%s=%s" % x for x in self.env().items()] + [self.ck.muon, "setup", b]
        res = run(argv, cwd=self.src, user=65534, timeout=180, merge=True)
        shutil.rmtree(b, ignore_errors=True)
        return res

    def watch(self, args, stdin=None, cwd=None):
        """run muon with args and look for writes, processes and changed files; -> result or None"""
        ck, top = self.ck, self.top
        log = top + "/log"
        open(log, "w").close()
        os.chmod(log, 0o666)
        before = C09.tree(self.top, ("/log",))
        before.pop("log", 0)
        argv = ["env", "-i", "SHIM_LOG=" + log, "SHIM_EXEC=1", "LD_PRELOAD=" + ck.shim] + ["%s=%s" % x for x in self.env().items()] + [ck.muon] + args
        res = run(argv, cwd=cwd or self.src, user=65534, timeout=120, merge=True, stdin=stdin)
        after = C09.tree(self.top)
        after.pop("log", 0)
        if res.timeout:
            ck.give_up("%s: muon %s takes too long" % (self.name, args))
            return None
        if crashed(res):
            return self.bad("crash", "muon %s: rc=%s %s" % (" ".join(args), res.rc, res.text[-600:]))
        notes = read(log).decode(errors="replace").split("\n")[:-1]
        for line in notes:
            op, p = line.split(" ", 1)
            if op == "readdir" or re.match(r"/dev/(null|tty|std|fd|pts)", p):
                continue
            if op == "process":
                return self.bad("process", "muon %s starts a process (%s)" % (" ".join(args), p))
            return self.bad("writes", "muon %s does '%s %s'" % (" ".join(args), op, p))
        for d in (before, after):
            d.pop(".", 0)
        if before != after:
            diff = ["%s: %s -> %s" % (k, before.get(k), after.get(k)) for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
            return self.bad("changed", "muon %s changes files: %s" % (" ".join(args), "; ".join(diff[:5])))
        ck.count("watched_runs")
        return res

    def clean(self, res, args):
        """no error-level diagnostic"""
        m = re.search(r"(?m)^\S*?:\d+:\d+: error .*$", res.text) or re.search(r"(?m)^(\S+ )?\s*error:? .*$", res.text)
        if res.rc or m:
            self.bad("false:" + re.sub(r"'[^']*'|\d+|\S*/\S*", "_", m.group(0).split("error")[1])[:60].strip() if m else "false:status",
                     "setup accepts the project, but 'muon %s' exits with %s and reports\n%s" % (" ".join(args), res.rc, res.text[:1500]))
            return False
        return True

    def modes(self, r):
        """the ways to run the analyzer and the checker that must all be read-only"""
        mb = [os.path.join(d, f) for d, _, fs in os.walk(self.src) for f in fs if f in ("meson.build", "meson_options.txt", "meson.options")]
        out = [(["analyze"] + r.choice(MODES), None, True)]
        k = r.random()
        f = r.choice(mb)
        if k < .2:
            out.append((["analyze", "-t"], None, None))
        elif k < .4:
            out.append((["analyze", "-d", r.choice(["x", "a", "cc", "lst"])], None, None))
        elif k < .6:
            out.append((["analyze"] + r.choice([[], ["-q"], ["-l"]]) + ["-O", r.choice([f, os.path.relpath(f, self.src)])], read(f), True))
        elif k < .7:
            out.append((["analyze", "-W", "error"], None, None))
        if r.random() < .4:
            out.append((["check"] + r.choice([[], ["-p"], ["-m", "fmt"], ["-m", "functions"]]) + [f], None, None))
        if r.random() < .2:
            out.append((["analyze", "-i", f], None, None))
        return out

    def accept(self, r):
        """project of part B"""
        ck = self.ck
        s = self.setup()
        if s.timeout:
            return ck.give_up(self.name)
        ok = s.rc == 0
        ck.count("setup_accepts" if ok else "setup_rejects")
        if not ok and self.files:
            ck.notes.append("%s: %s" % (self.name, s.text[-300:]))
        for args, stdin, must in self.modes(r):
            if stdin and args[1:2] == ["-O"] and r.random() < .5:
                # the file on disk is not the one to look at
                pass
            res = self.watch(args, stdin)
            if res is None:
                return
            if ok and must and not self.clean(res, args):
                return
        ck.case(self.name + (str(hash(tuple(sorted(self.files.items())))) if self.files else ""), 1, self.name)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


TRAPS = {
    "traps": """project('traps', 'c', version: run_command('./tool.sh', 'v', check: true).stdout().strip(), default_options: ['warning_level=2'])
run_command('./tool.sh', 'a', check: true)
tool = find_program('tool.sh')
out = run_command(tool, 'b', check: true, capture: true).stdout()
py = run_command('sh', '-c', 'touch ' + meson.current_source_dir() / 'made; echo 3', check: false)
if py.returncode() == 0
  message(py.stdout().strip().to_int() + 1)
endif
configure_file(output: 'conf.h', configuration: {'A': 1})
configure_file(input: 'in.txt', output: 'in.out', configuration: configuration_data({'A': out}))
configure_file(input: 'in.txt', output: 'cmd.out', command: [tool, '@OUTPUT@'])
configure_file(input: 'in.txt', output: 'cap.out', command: ['cat', '@INPUT@'], capture: true)
configure_file(input: 'in.txt', output: 'copy.out', copy: true)
vcs_tag(input: 'in.txt', output: 'vcs.out', command: [tool, 'q'], replace_string: '#VCS_TAG')
cc = meson.get_compiler('c')
if cc.has_header('stdio.h') and cc.compiles('int main(void) { return 0; }') and cc.links('int main(void) { return 0; }')
  r = cc.run('int main(void) { return 0; }')
  if r.compiled() and r.returncode() == 0
    message(r.stdout() + 'a', cc.sizeof('int') + 1, cc.compute_int('3 + 4') + 1, cc.get_define('__GNUC__') + 'x')
  endif
endif
message(cc.has_function('printf'), cc.has_argument('-Wall'), cc.has_member('struct x', 'y'), cc.alignment('int'), cc.get_supported_arguments('-Wall', '-Wnosuch'))
lib = cc.find_library('m', required: false)
dep = dependency('no-such-dependency', required: false)
zl = dependency('zlib', required: false)
fs = import('fs')
fs.copyfile('in.txt', 'fs.out')
message(fs.read('in.txt'), fs.hash('in.txt', 'sha256'))
g = generator(tool, output: '@BASENAME@.c', arguments: ['@OUTPUT@', '@INPUT@'])
l = library('l', g.process('in.txt'), install: true, version: '1.2.3')
e = executable('e', 'main.c', dependencies: [lib, zl])
ct = custom_target('ct', output: 'ct.out', command: [tool, '@OUTPUT@'], build_always_stale: true, build_by_default: true, install: true, install_dir: 'share')
test('t', e, args: [ct])
import('pkgconfig').generate(l, name: 'l', description: 'd')
install_data('in.txt', install_dir: 'share')
install_emptydir('share/e')
install_symlink('ln', install_dir: 'share', pointing_to: 'x')
meson.add_install_script('tool.sh', 'i')
meson.add_postconf_script('tool.sh', 'p')
run_target('rt', command: [tool, 'r'])
sub = subproject('sub', default_options: ['o=3'])
message(sub.get_variable('v').to_upper())
opt = subproject('nosuch', required: false)
if opt.found()
  message(opt.get_variable('q'))
endif
summary({'a': 1, 'b': true}, bool_yn: true)
""",
}


def trap(r):
    fs = {"meson.build": TRAPS["traps"], "tool.sh": "#!/bin/sh\ntouch \"$(dirname \"$0\")/ran\"; test -n \"$1\" && echo 1.0 > \"$(dirname \"$0\")/wrote\"; case $1 in */*|*.out|*.c) echo 'int f(void) { return 1; }' > \"$1\";; esac\necho 1.0\n",
          "in.txt": "x @A@ #VCS_TAG\n", "main.c": "int main(void) { return 0; }\n",
          "subprojects/sub/meson.build": "project('sub')\nv = run_command('sh', '-c', 'echo x > from-sub; echo v', check: true).stdout().strip() + get_option('o')\nconfigure_file(output: 'sub.h', configuration: {'B': v})\n",
          "subprojects/sub/meson_options.txt": "option('o', type: 'string', value: 'd')\n"}
    L = fs["meson.build"].split("\n")
    body = L[1:-1]
    # drop some statements that nothing depends on
    keep = [x for x in body if not (re.match(r"(configure_file|vcs_tag|install_|run_target|test|meson\.add|summary|fs\.copyfile|run_command|import)", x) and r.random() < .3)]
    fs["meson.build"] = "\n".join(L[:1] + keep) + "\n"
    if r.random() < .6:
        # a subproject that would have to be fetched
        k = r.choice(["file", "git", "patch"])
        w = {"file": "[wrap-file]\ndirectory = wr\nsource_url = file://%s\nsource_filename = wr.tar.gz\nsource_hash = 00\n",
             "git": "[wrap-git]\ndirectory = wr\nurl = %s\nrevision = main\n",
             "patch": "[wrap-file]\ndirectory = wr\nsource_url = file://%s\nsource_filename = wr.tar.gz\nsource_hash = 00\npatch_directory = wrp\n"}[k]
        fs["subprojects/wr.wrap"] = w % "/nonexistent/wr.tar.gz" + "[provide]\nwrdep = wr_dep\n"
        fs["subprojects/packagefiles/wrp/meson.build"] = "project('wr')\nwr_dep = declare_dependency()\n"
        fs["meson.build"] += "wrs = subproject('wr', required: false)\nwd = dependency('wrdep', required: false)\n"
    if r.random() < .4:
        fs["subprojects/loc/wr.txt"] = "x"
        fs["subprojects/loc/meson.build"] = "project('loc')\nlv = 3\n"
        fs["meson.build"] += "lv = subproject('loc').get_variable('lv')\n"
    if r.random() < .3:
        fs[".git/HEAD"] = "ref: refs/heads/main\n"
    return fs


SCRIPTS = """fs = import('fs')
fs.write('out.txt', 'x')
fs.mkdir('newdir')
fs.copy('s.meson', 'copy.txt')
run_command('touch', 'ran', check: true)
p('hello')
if fs.exists('made')
  fs.rmdir('newdir')
endif
configure_file(output: 'c.h', configuration: {})
func f(a str) -> str
  fs.write(a, a)
  return a
endfunc
f('fout.txt')
""".split("\n")


def scripts(ck, i):
    r = ck.rng("script", i)
    ls = [x for x in SCRIPTS if not (re.match(r"(fs\.|run_|p\()", x) and r.random() < .3)]
    if r.random() < .6:
        ls.insert(1, "fs.write('%s', 'y')" % r.choice(["a.txt", "s.meson", "sub/x"]))
    run_ = Run(ck, "script %d" % i, {"s.meson": "\n".join(ls), "sub/keep": ""})
    try:
        for args in (["analyze", "-i", "s.meson"], ["analyze", "-q", "-i", run_.src + "/s.meson"], ["check", "s.meson"], ["check", "-m", "functions", "-p", "s.meson"]):
            if run_.watch(args) is None:
                return
        ck.case("script %d" % i, 1, "internal script analyzed")
    finally:
        run_.close()


def generated(ck, i):
    r = ck.rng("gen", i)
    L = []
    x = program(r) if r.random() < .7 else None
    ls = x[0] if x else HEAD[:]
    for k in range(r.randrange(0 if x else 1, 5)):
        t = subst(r, r.choice(DYN), "v%d" % k)
        if r.random() < .35:
            c = r.random() < .5
            t = r.choice([["if " + imp(r, True)] + indent(t) + ["endif"], ["if " + imp(r, False), "else"] + indent(t) + ["endif"], ["foreach w%d : %s" % (k, r.choice(["[1]", "['a', 'b']", "lst"]))] + indent(t) + ["endforeach"]])
            if "custom_target" in "".join(t) or "configure_file" in "".join(t):
                t = [x for x in t if "foreach w" not in x] if t[0].startswith("foreach w") else t
                if t[-1] == "endforeach" and not any(x.startswith("foreach") for x in t):
                    t = t[:-1]
        ls = ls + t
    fs = {"meson_options.txt": OPTS}
    if r.random() < .25:
        fs["sd/meson.build"] = "\n".join(subst(r, r.choice(DYN), "sdv") + r.choice([[], ["if %s" % imp(r, r.random() < .5), "  subdir_done()", "endif", "message(plat)"]])) + "\n"
        ls = ls + r.choice([["subdir('sd')"], ["if " + imp(r, True), "  subdir('sd')", "endif"]])
    if r.random() < .15:
        ls = ls + ["if " + imp(r, True), "  subdir_done()", "endif", "nosuch_after_done" if r.random() < 0 else "message('after')"]
    fs["meson.build"] = "\n".join(ls) + "\n"
    run_ = Run(ck, "generated %d" % i, fs)
    try:
        run_.accept(r)
    finally:
        run_.close()


def faulty(ck, i):
    r = ck.rng("fault", i)
    for _ in range(20):
        x = program(r, True)
        if x:
            break
    else:
        return
    lines, marks = x
    ls, at, bare = fault(r)
    ind = r.random()
    fs = {"meson_options.txt": OPTS}
    mark = r.choice(marks)
    ls, at = nest(r, ls, at, r.choice([0, 0, 1, 1, 2, 3]))
    where, line = "meson.build", None
    if r.random() < .2:
        fs["sd/meson.build"] = "\n".join(["# x"] * r.randrange(3) + ls) + "\n"
        line = fs["sd/meson.build"].split("\n").index(ls[0]) + at + 1 if ls[0] != "# x" else None
        where = "sd/meson.build"
        ls2 = r.choice([["subdir('sd')"], ["if " + imp(r, r.random() < .5), "  subdir('sd')", "endif"]])
        if line is None:
            return
        lo, hi = mark
        out = lines[:lo - 1] + ls2 + lines[hi:]
    else:
        lo, hi = mark
        out = lines[:lo - 1] + ls + lines[hi:]
        line = lo + at
    # other places that are marked stay harmless messages
    fs["meson.build"] = "\n".join(out) + "\n"
    run_ = Run(ck, "fault %d" % i, fs)
    try:
        args = ["analyze"] + r.choice(MODES)
        stdin = None
        if r.random() < .2:
            # the contents come from standard input, the file on disk is harmless
            args += ["-O", r.choice([where, os.path.join(run_.src, where)])]
            stdin = fs[where].encode()
            write(os.path.join(run_.src, where), r.choice(["", "message('on disk')\n"]) if where != "meson.build" else "project('x')\n")
        res = run_.watch(args, stdin)
        if res is None:
            return
        want = re.compile(r"(?m)^(?:\S*/)?%s:%d:\d+: error " % (re.escape(where), line))
        what = "at %s:%d: %s" % (where, line, fs[where].split("\n")[line - 1].strip())
        if res.rc == 0:
            return run_.bad("missed", "'muon %s' succeeds in spite of the fault %s\n%s" % (" ".join(args), what, res.text[:800]))
        if not want.search(res.text):
            return run_.bad("line", "'muon %s' does not report the fault %s\n%s" % (" ".join(args), what, res.text[:1200]))
        ck.count("faults_reported")
        ck.case("fault %d %s" % (i, what), 1, what)
    finally:
        run_.close()


def bare(ck, item):
    """each fault of the tables, executed: setup fails there, and the analyzer reports it alone, too"""
    i, ls, at = item
    fs = {"meson_options.txt": OPTS, "meson.build": "\n".join(HEAD + ls) + "\n"}
    run_ = Run(ck, "bare %d" % i, fs)
    try:
        line = len(HEAD) + at + 1
        want = re.compile(r"(?m)^(?:\S*/)?meson\.build:%d:\d+: error " % line)
        s = run_.setup()
        if s.rc == 0 or not want.search(s.text):
            ck.count("faults_setup_accepts")
            ck.notes.append("setup does not reject: %s\n%s" % (ls, s.text[-300:]))
            return
        res = run_.watch(["analyze", "-q"])
        if res is None:
            return
        if res.rc == 0 or not want.search(res.text):
            return run_.bad("missed-bare:" + ls[at], "setup rejects '%s', 'muon analyze' does not report it\n%s" % (ls[at], res.text[:600]))
        ck.case("bare " + "\n".join(ls), 1, ls[at])
    finally:
        run_.close()


def corpus(ck, item):
    i, n, origin = item
    run_ = Run(ck, "corpus " + n, None, origin)
    try:
        run_.accept(ck.rng("corpus", i))
    finally:
        run_.close()


def rich(ck, i):
    r = ck.rng("rich", i)
    k = r.random()
    fs = C09.rich(r) if k < .4 else trap(r) if k < .75 else C14.Proj(r, i % 3 == 0).files()
    run_ = Run(ck, "project %d" % i, fs)
    try:
        run_.accept(r)
    finally:
        run_.close()


def body(ck):
    ck.rule = "a project analyzed (and configured), or a fault put on a path of a project; distinct by its text"
    ck.assumptions += ["left open: whether a value error (overflow, division by zero, index out of range) that is certain on a path not taken is reported", "faults in branches whose condition is a constant false are not injected: no path leads there",
                       "the analyzer has no reason to start any process or open any file for writing"]
    ck.muon = build("plain")
    ck.notes = []
    ck.shim = os.path.join(ck.scratch, "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", ck.shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "shim.c"), "-ldl"], check=True)
    os.chmod(ck.shim, 0o755)
    root = os.path.join(REPO, "tests/project")
    names = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        if "meson.build" in fs and d != root:
            names.append(os.path.relpath(d, root))
            ds[:] = []
    r = ck.rng("pick")
    r.shuffle(names)
    only = os.environ.get("C08_PART", "")
    if only in ("", "bare"):
        items = []
        for e in FAULTS_E:
            items.append((["v_w = " + e], 0))
        for s in FAULTS_S:
            items.append(([s] + (["endforeach"] if s.startswith("foreach") else ["endif"] if s.startswith("if") else []), 0))
        for m in FAULTS_M:
            t = subst(r, m, "V")
            at = [j for j, x in enumerate(t) if x.endswith("#!")][0]
            items.append(([x[:-3] if x.endswith("#!") else x for x in t], at))
        ck.map(lambda x: bare(ck, x), [(i, a, b) for i, (a, b) in enumerate(items)])
    if only in ("", "corpus"):
        ck.map(lambda x: corpus(ck, x), [(i, n, os.path.join(root, n)) for i, n in enumerate(names[:ck.n(300, 10**6)])])
    if only in ("", "rich"):
        ck.map(lambda i: rich(ck, i), range(ck.n(120, 1500)))
        ck.map(lambda i: scripts(ck, i), range(ck.n(20, 100)))
    if only in ("", "gen"):
        ck.map(lambda i: generated(ck, i), range(ck.n(900, 12000)))
    if only in ("", "fault"):
        ck.map(lambda i: faulty(ck, i), range(ck.n(1200, 16000)))
    if os.environ.get("VERIF_NOTES"):
        print("\n".join(ck.notes))
    ck.finish(min_evals=600)


if __name__ == "__main__":
    main("C08", body)
