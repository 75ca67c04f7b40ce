#!/usr/bin/env python3
"""C07: values survive serialisation, and damaged dumps are refused safely.

Monitor: a generated value is dumped by one process and loaded by another that compares it with the
literal it came from and prints it; the printed text is compared with the one of the original.
Damaged, foreign and truncated dumps are loaded by every command that loads one, under ASan/UBSan
(MSan for a share of the round trips), watching for crashes, silent failures and endless work."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

STR = ["", "a", "b", "key", "é", "\t", "\n", "\\", "'", "x y", "@0@", "#", "\x7f", "\x01", "日本", "a" * 200, "%s", "'''", "/", "\r\n", "true", "1", "[]"]


def lit(v):
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, int):
        if v == -(1 << 63):
            return "(-9223372036854775807 - 1)"
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return "'" + "".join(c if c.isalnum() and ord(c) < 128 or c in " ./-_#@%[]é日本" else "\\x%02x" % ord(c) if ord(c) < 128 else c for c in v) + "'"
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(lit(k) + ": " + lit(x) for k, x in v.items()) + "}"
    return v.src


class Rep:
    """a string too long to be written down: s repeated by doubling"""
    def __init__(self, src):
        self.src = src


def value(r, d=0):
    k = r.random()
    if d > 4:
        k *= .55
    if k < .18:
        return r.choice([0, 1, -1, 7, 255, 65536, 1 << 31, (1 << 32) + 5, (1 << 63) - 1, -(1 << 63), -(1 << 31), r.getrandbits(62), -r.getrandbits(40)])
    if k < .26:
        return r.random() < .5
    if k < .55:
        if r.random() < .06:
            # around the sizes at which strings are stored in another way
            n = r.choice([4094, 4095, 4096, 4097, 5000, 8191, 8192, 16384, 65535, 2046, 2047, 2048, 1023, 1024])
            return r.choice(["x", "ab", "é"]) * (n // r.choice([1, 1, 2])) + r.choice(["", "z"])
        if r.random() < .3:
            return "".join(chr(r.choice([r.randrange(1, 128), r.randrange(32, 127), 233, 0x65e5])) for _ in range(r.choice([1, 3, 20, 100])))
        return r.choice(STR)
    if k < .8:
        return [value(r, d + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 5] + ([30, 200] if d < 2 else [])))]
    return {(r.choice(STR) or "e") + r.choice(["", "", str(r.randrange(300))]): value(r, d + 1) for _ in range(r.choice([0, 1, 2, 3, 5] + ([25, 60, 300] if d < 1 else [])))}


def size(v):
    if isinstance(v, list):
        return 1 + sum(map(size, v))
    if isinstance(v, dict):
        return 1 + sum(1 + size(x) for x in v.values())
    return 1 + (len(v) // 20 if isinstance(v, str) else 0)


def roundtrips(ck, keep):
    """values of the language, written and read by different processes"""
    n = ck.n(500, 3000)
    for config, lo, hi in (("asan", 0, n), ("msan", n, n + ck.n(60, 600))):
        jobs = []
        for i in range(lo, hi):
            r = ck.rng("value", i)
            v = value(r)
            while size(v) > 6000:
                v = value(r)
            l = lit(v)
            src = "v = %s\nmessage('V', v)\nserial_dump('v.dat', v)\n" % l
            jobs.append(Job(["internal", "eval", "d.meson"], {"d.meson": src}, tag=(i, l)))
        dumps = {}

        def got(j, d):
            i, l = j.tag
            p = os.path.join(d, "v.dat")
            if crashed(j.res) or j.res.timeout or j.res.rc != 0:
                ck.violation("dump", "rc=%s %s" % (j.res.rc, j.res.text[-400:]), {"d.meson": j.files["d.meson"]})
                return
            dumps[i] = (read(p), j.res.out, l)
        run_jobs(ck, jobs, config=config, fn=got)
        jobs = []
        for i, (dat, out, l) in dumps.items():
            src = "v = serial_load('v.dat')\nmessage('V', v)\nassert(v == %s, 'loaded value differs')\nserial_dump('w.dat', v)\nw = serial_load('w.dat')\nassert(w == v, 'second trip')\n" % l
            jobs.append(Job(["internal", "eval", "l.meson"], {"l.meson": src, "v.dat": dat}, tag=i))

        def got2(j, d):
            i = j.tag
            dat, out, l = dumps[i]
            if crashed(j.res) or j.res.timeout or j.res.rc != 0 or j.res.out != out:
                what = "rc=%s %s" % (j.res.rc, j.res.text[-300:]) if j.res.rc else "prints differently"
                ck.violation("roundtrip", "a value does not load back as it was dumped: " + what, {"l.meson": j.files["l.meson"], "v.dat": dat, "original_output": out})
                return
            ck.case(l if len(l) > 4 else None, 1, l[:200])
            ck.count("roundtrips_" + config)
            if len(keep) < 60 and len(dat) < 9000:
                keep.append(dat)
        run_jobs(ck, jobs, config=config, fn=got2)


PROGS = [
    # sharing: the same container at several places
    ("shared", "x = [1, {'a': [2]}]\nv = [x, x, {'k': x, 'l': [x]}]\n", "a = w[0]\na += [9]\nassert(w[1] == [1, {'a': [2]}])\nassert(w[0] == w[1])\nassert(w[2] == {'k': w[0], 'l': [w[1]]})\nassert(a == [1, {'a': [2]}, 9])\n"),
    ("dag", "v = [1]\nforeach i : range(12)\nv = [v, v]\nendforeach\n", "x = w\nforeach i : range(12)\nassert(x.length() == 2)\nx = x[i % 2]\nendforeach\nassert(x == [1])\n"),
    ("deep", "v = [1]\nforeach i : range(3000)\nv = [v]\nendforeach\n", "x = w\nforeach i : range(3000)\nx = x[0]\nendforeach\nassert(x == [1])\n"),
    ("deepdict", "v = {'a': 1}\nforeach i : range(2000)\nv = {'k': v}\nendforeach\n", "x = w\nforeach i : range(2000)\nx = x['k']\nendforeach\nassert(x == {'a': 1})\n"),
    ("long", "v = []\nforeach i : range(60000)\nv += [i]\nendforeach\n", "assert(w.length() == 60000)\nforeach i : [0, 1, 4095, 4096, 8191, 32768, 59999]\nassert(w[i] == i)\nendforeach\n"),
    ("manystr", "v = []\nforeach i : range(9000)\nv += ['string number @0@'.format(i)]\nendforeach\n",
     "assert(w.length() == 9000)\nforeach i : range(9000)\nassert(w[i] == 'string number @0@'.format(i))\nendforeach\n"),
    ("bigdict", "v = {}\nforeach i : range(6000)\nv += {'k@0@'.format(i): [i, 'v@0@'.format(i)]}\nendforeach\n",
     "n = 0\nforeach k, x : w\nassert(k == 'k@0@'.format(n))\nassert(x == [n, 'v@0@'.format(n)])\nn += 1\nendforeach\nassert(n == 6000)\nassert(w['k5999'][1] == 'v5999')\n"),
    ("dictorder", "v = {'z': 1, 'a': 2, 'm': 3}\nv += {'a': 5}\nv += {'0': 0}\n", "ks = []\nforeach k, x : w\nks += [k]\nendforeach\nassert(ks == ['z', 'a', 'm', '0'])\nassert(w == {'z': 1, 'a': 5, 'm': 3, '0': 0})\n"),
    ("bigstr", "s = 'ab\\ncd'\nforeach i : range(21)\ns += s\nendforeach\nv = [s, 'x', s + 'y', {s: s}]\n",
     "s = 'ab\\ncd'\nforeach i : range(21)\ns += s\nendforeach\nassert(w[0] == s)\nassert(w[1] == 'x')\nassert(w[2] == s + 'y')\nassert(w[3][s] == s)\nassert(w.length() == 4)\n"),
    ("mutated", "s = 'a'\nforeach i : range(3000)\ns += 'bc'\nendforeach\nl = [s]\nl += [s + s]\nt = s\nt += 'x'\nv = {'l': l, 't': t}\n",
     "s = 'a'\nforeach i : range(3000)\ns += 'bc'\nendforeach\nassert(w == {'l': [s, s + s], 't': s + 'x'})\n"),
    ("afterload", "v = {'a': [1, 2], 'b': 'c'}\n", "x = w\nx += {'new': 1}\ny = w['a']\ny += [3]\nz = w['b']\nz += 'd'\nassert(w == {'a': [1, 2], 'b': 'c'})\nassert(x == {'a': [1, 2], 'b': 'c', 'new': 1})\nassert(y == [1, 2, 3])\nassert(z == 'cd')\n"),
    ("cfg", "v = configuration_data({'A': 1, 'B': 'two', 'C': true})\nv.set('D', 4, description: 'about d')\nv.set_quoted('E', 'q')\nv.set10('F', true)\n",
     "assert(w.get('A') == 1)\nassert(w.get('B') == 'two')\nassert(w.get('C') == true)\nassert(w.get('D') == 4)\nassert(w.get_unquoted('E') == 'q')\nassert(w.get('F') == 1)\n"
     "assert(w.keys() == ['A', 'B', 'C', 'D', 'E', 'F'])\nw.set('A', 2)\nassert(w.get('A') == 2)\n"),
    ("runresult", "v = run_command('sh', '-c', 'printf out; printf err >&2; exit 7', check: false)\n",
     "assert(w.returncode() == 7)\nassert(w.stdout() == 'out')\nassert(w.stderr() == 'err')\n"),
    ("env", "v = environment({'FOO': 'a b', 'BAR': 'x'})\nv.append('FOO', 'c', separator: '-')\nv.prepend('BAR', 'p')\nv.set('Q', 'l', 'm')\n",
     "r = run_command('sh', '-c', 'echo \"$FOO|$BAR|$Q\"', env: w, check: true)\nassert(r.stdout().strip() == 'a b-c|p:x|l:m', r.stdout())\n"),
    ("files", "v = [files('d.meson'), 'd.meson']\n", "assert(w.length() == 2)\nassert(w[1] == 'd.meson')\nassert(w[0].length() == 1)\nassert('@0@'.format(w[0]).contains('d.meson'))\n"),
    ("int", "v = 9223372036854775807\n", "assert(w == 9223372036854775807)\n"), ("bool", "v = false\n", "assert(not w)\n"), ("emptystr", "v = ''\n", "assert(w == '')\n"),
    ("emptylist", "v = []\n", "assert(w == [])\n"), ("emptydict", "v = {}\n", "assert(w == {})\n"), ("nul", "v = ['a\\x00b', '\\x00']\n", "assert(w == ['a\\x00b', '\\x00'])\n"),
]


def programs(ck, keep):
    jobs = []
    dats = {}
    for k, (n, d, l) in enumerate(PROGS):
        jobs.append(Job(["internal", "eval", "d.meson"], {"d.meson": d + "serial_dump('v.dat', v)\n"}, tag=k, timeout=90))

    def got(j, d):
        n = PROGS[j.tag][0]
        if crashed(j.res) or j.res.timeout or j.res.rc:
            ck.violation("dump-" + n, "rc=%s %s" % (j.res.rc, j.res.text[-400:]), {"d.meson": j.files["d.meson"]})
            return
        dats[j.tag] = read(os.path.join(d, "v.dat"))
    run_jobs(ck, jobs, chunk=1, fn=got)
    jobs = [Job(["internal", "eval", "l.meson"], {"d.meson": PROGS[k][1], "v.dat": dat, "l.meson": "w = serial_load('v.dat')\n" + PROGS[k][2]}, tag=k, timeout=90)
            for k, dat in dats.items()]

    def got2(j, d):
        n = PROGS[j.tag][0]
        if crashed(j.res) or j.res.timeout or j.res.rc:
            ck.violation("load-" + n, "rc=%s %s" % (j.res.rc, j.res.text[-400:]), {"d.meson": PROGS[j.tag][1], "l.meson": j.files["l.meson"], "v.dat": dats[j.tag][:100000]})
            return
        ck.case("prog" + n)
        ck.count("programs")
        if len(dats[j.tag]) < 20000:
            keep.append(dats[j.tag])
    run_jobs(ck, jobs, chunk=1, fn=got2)


PROJECT = {
    "meson.build": """project('p', version: '1', default_options: ['warning_level=2'])
e = environment({'A': 'b'})
foreach i : range(3)
test('t@0@'.format(i), find_program('true'), args: ['a', 'b@0@'.format(i)], env: e, suite: ['s', 'u'], timeout: 9, priority: i, workdir: meson.current_source_dir())
endforeach
install_data('d.txt', install_dir: 'share', install_mode: 'rw-r--r--')
install_subdir('sub', install_dir: 'share', exclude_files: ['x'], exclude_directories: ['y'])
custom_target('c', input: 'd.txt', output: 'c.txt', command: ['cp', '@INPUT@', '@OUTPUT@'], install: true, install_dir: 'share', env: e, build_by_default: true)
custom_target('k', input: 'd.txt', output: 'k.txt', command: ['cat', '@INPUT@'], capture: true, env: e)
message(get_option('o'))
""",
    "meson_options.txt": "option('o', type: 'string', value: 'v', description: 'an option')\noption('f', type: 'feature')\noption('c', type: 'combo', choices: ['a', 'b'])\noption('i', type: 'integer', min: 0, max: 9, value: 3)\n",
    "d.txt": "data\n", "sub/f": "f\n", "sub/x": "x\n",
}


def damage(r, dat, others):
    """-> (kind, bytes different from dat)"""
    n = len(dat)
    k = r.choice(["cut", "cut", "flip", "flip", "byte", "byte", "word", "word", "zero", "append", "insert", "delete", "splice", "swap", "random", "text", "dup", "head"])
    b = bytearray(dat)
    p = r.randrange(n) if n else 0
    if r.random() < .3:
        p = min(n - 1, r.randrange(64)) if n else 0
    if k == "cut":
        b = b[:r.choice([p, p, max(0, n - 1), 0, 4, 8, 12, 16, 20])]
    elif k == "flip":
        b[p] ^= 1 << r.randrange(8)
    elif k == "byte":
        b[p] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
    elif k == "word" and n > 8:
        p = min(p, n - 8)
        w = r.choice([4, 8])
        b[p:p + w] = r.choice([0, 1, 0x7fffffff, 0xffffffff, 0x80000000, n, n + 1, 1 << 31, r.getrandbits(32)]).to_bytes(8, "little")[:w]
        if r.random() < .2:
            b[p:p + w] = b"\xff" * w
    elif k == "zero":
        b[p:p + 16] = b"\0" * len(b[p:p + 16])
    elif k == "append":
        b += r.choice([b"\0", b"x", dat[:50], b"\xff" * 100])
    elif k == "insert":
        b[p:p] = bytes(r.randrange(256) for _ in range(r.choice([1, 4, 8])))
    elif k == "delete":
        del b[p:p + r.choice([1, 4, 8, 100])]
    elif k == "splice":
        o = r.choice(others)
        b[p:] = o[p:]
    elif k == "swap" and n > 20:
        q = r.randrange(n - 8)
        p = min(p, n - 8)
        b[p:p + 8], b[q:q + 8] = b[q:q + 8], b[p:p + 8]
    elif k == "random":
        b = bytearray(dat[:12]) + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 8, 100, 3000])))
    elif k == "text":
        b = bytearray(r.choice([b"", b"\n", b"muondump", b"MUONDUMP\x07\0\0\0", b"{}", b"[1, 2]\n", b"#!/bin/sh\n", b"\x7fELF" + b"\0" * 100, b"muondum", b"muondump\xff\xff\xff\xff" + b"\0" * 64]))
    elif k == "dup":
        b = b + b
    elif k == "head":
        b[:12] = r.choice(others)[12:24]
    return k, bytes(b)


def damaged(ck, keep):
    keep = keep[:]
    jobs = []
    ls = "w = serial_load('v.dat')\nserial_dump('w.dat', w)\nmessage(w)\n"
    small = min(keep, key=len)
    for cut in range(len(small)) if len(small) < 700 else range(0, len(small), len(small) // 700 + 1):
        jobs.append(Job(["internal", "eval", "l.meson"], {"l.meson": ls, "v.dat": small[:cut]}, tag=("cut", True)))
    for i in range(ck.n(1800, 12000)):
        r = ck.rng("damage", i)
        dat = r.choice(keep)
        k, b = damage(r, dat, keep)
        if b in (dat,):
            continue
        jobs.append(Job(["internal", "eval", "l.meson"], {"l.meson": ls, "v.dat": b}, tag=(k, b not in keep)))

    def got(j, d):
        k, differs = j.tag
        if crashed(j.res) or j.res.timeout:
            ck.violation("damaged", "loading a damaged dump (%s): rc=%s %s" % (k, j.res.rc, j.res.text[-500:]), {"l.meson": ls, "v.dat": j.files["v.dat"]})
        elif j.res.rc not in (0, 1) or (j.res.rc == 1 and "err" not in j.res.text):
            ck.violation("unreported", "loading a damaged dump (%s): rc=%s without a reported error: %r" % (k, j.res.rc, j.res.text[-300:]), {"l.meson": ls, "v.dat": j.files["v.dat"]})
        else:
            ck.case(bytes(j.files["v.dat"]), 1)
            ck.count("damaged_rc%d" % j.res.rc)
    run_jobs(ck, jobs, fn=got)
    # things that are no dump, or no file
    jobs = []
    for p in ("/dev/zero", "/dev/null", "/dev/urandom", "/", "/nonexistent", "/proc/self/mem", "/proc/self/maps"):
        jobs.append(Job(["internal", "eval", "l.meson"], {"l.meson": "w = serial_load('%s')\n" % p}, tag=p, timeout=30))
        jobs.append(Job(["internal", "exe", "-e", p, "true"], {}, tag=p, timeout=30))
    jobs.append(Job(["internal", "eval", "l.meson"], {"l.meson": "w = serial_load('-')\nassert(w == [1, 'a'])\n"}, stdin=None, tag="stdin"))

    def got2(j, d):
        if crashed(j.res) or j.res.timeout or j.res.rc == 0:
            ck.violation("nodump", "%s: rc=%s %s" % (j.argv + [j.tag], j.res.rc, j.res.text[-300:]), {})
        else:
            ck.case("nodump%s%s" % (j.argv, j.tag))
    run_jobs(ck, jobs, chunk=2, fn=got2)


def private(ck):
    """the state files of a real build directory, damaged, read by the commands that use them"""
    muon = build("asan")
    base = ck.tmp("priv")
    os.chmod(base, 0o777)
    src = os.path.join(base, "src")
    for n, t in PROJECT.items():
        write(os.path.join(src, n), t)
    subprocess.run(["chmod", "-R", "a+rwX", base])
    p = run([muon, "setup", "-Do=w", "-Di=5", "b"], cwd=src, user=65534)
    if p.rc != 0:
        ck.give_up("setup of the sample project failed: " + p.text[-300:])
        return
    run([muon, "-C", "b", "samu"], cwd=src, user=65534)
    b0 = os.path.join(src, "b")
    dats = [os.path.relpath(os.path.join(d, f), b0) for d, _, fs in os.walk(b0) for f in fs if read(os.path.join(d, f))[:8] == b"muondump"]
    ck.extra["state_files"] = sorted(dats)
    if len(dats) < 4:
        ck.give_up("only the state files %s were found" % dats)
        return
    cont = {n: read(os.path.join(b0, n)) for n in dats}

    def one(i):
        r = ck.rng("private", i)
        n = r.choice(sorted(dats))
        k, b = damage(r, cont[n], list(cont.values()))
        if b in cont.values():
            return
        top = ck.tmp("pr")
        os.chmod(top, 0o777)
        try:
            # the project itself stays where it is, only its build directory is another one
            d = os.path.join(top, "b")
            subprocess.run(["cp", "-a", b0, d])
            write(os.path.join(d, n), b)
            os.chmod(os.path.join(d, n), 0o666)
            cmds = []
            if "test" in n:
                cmds = [["test", "-R"], ["test", "-l"]]
            elif "install" in n:
                cmds = [["install", "-n"]]
            elif "option" in n:
                cmds = [["test", "-l"], ["options"]]
            elif "cache" in n:
                cmds = [["SETUP"]]
            else:
                cmds = [["internal", "exe", "-e", n, "true"], ["internal", "exe", "-a", n]]
            for c in cmds:
                if c == ["SETUP"]:
                    res = run([muon, "setup", "-c", os.path.join(d, n), os.path.join(top, "b2")], cwd=src, user=65534, timeout=60, merge=True)
                elif c == ["options"]:
                    res = run([muon, "options"], cwd=d, user=65534, timeout=60, merge=True)
                else:
                    res = run([muon] + c, cwd=d, user=65534, timeout=60, merge=True)
                if res.timeout or crashed(res):
                    ck.violation("private", "muon %s with a damaged %s (%s): rc=%s %s" % (" ".join(c), n, k, res.rc, res.text[-400:]), {os.path.basename(n): b})
                elif res.rc and not res.text.strip():
                    ck.violation("private-silent", "muon %s with a damaged %s (%s): rc=%s and no message" % (" ".join(c), n, k, res.rc), {os.path.basename(n): b})
                else:
                    ck.count("state_%s" % os.path.basename(n).split(".")[0])
                    ck.case("%s%s%d" % (c, n, i))
        finally:
            shutil.rmtree(top, ignore_errors=True)
    ck.map(one, range(ck.n(160, 1500)))
    # undamaged, the commands work
    for c in (["test", "-R"], ["install", "-n"], ["options"]):
        res = run([muon] + c, cwd=b0, user=65534, timeout=60, merge=True)
        if res.rc != 0:
            ck.give_up("muon %s fails with intact state: %s" % (c, res.text[-300:]))


def body(ck):
    ck.rule = ("values are random nestings of every scalar with sizes around storage thresholds, and objects with state; damage is truncation at every length, bit, byte and word changes, "
               "insertions, splices of dumps and foreign files; one is distinct and non-trivial if its value or its bytes are new")
    ck.assumptions += ["dumps are altered without recomputing checksums they may contain", "an intact dump of another value put in the place of a state file is not damage"]
    build_fork("asan")
    build_fork("msan")
    keep = []
    roundtrips(ck, keep)
    programs(ck, keep)
    if not keep:
        ck.give_up("no dump to damage")
    else:
        damaged(ck, keep)
    private(ck)
    ck.finish(min_evals=800)


if __name__ == "__main__":
    main("C07", body)
