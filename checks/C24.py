#!/usr/bin/env python3
"""C24: path and file functions agree with POSIX path semantics.

Random paths go through every path function on sanitized builds; results are compared with
posixpath/pathlib or, where several spellings are right, by what file they denote.  Queries are
asked about a tree of hostile names, links, sizes and modes, and compared with the file system."""
import hashlib, os, posixpath, re, sys
from pathlib import PurePosixPath, PureWindowsPath
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import langmodel as lm

PARTS = ["a", "b", "c.d", "e.f.g", ".h", "..", ".", "", "foo.c", "lib", "x y", "a'b", "q\\w", "n\nl", "é", "~", "-", "@A@", "$x",
         "..a", "b..", "a.b.", "...", "日本", "A" * 60, "*", "#", "%41", "a.tar.gz", ".x.y", "~x"]


def path(r, absolute=None, clean=False):
    n = r.choice([1, 1, 2, 2, 3, 4, 6, 12])
    ps = [r.choice(PARTS) for _ in range(n)]
    if r.random() < .5:
        ps = [r.choice(["a", "b", "c.d", ".h", "foo.c", "x", "lib64", "lib"]) for _ in range(n)]
    if r.random() < .02:
        ps += ["d%d" % i for i in range(r.choice([100, 400]))]
    if r.random() < .02:
        ps.append("L" * r.choice([255, 1023, 1024, 2047, 2048, 5000]))
    if r.random() < .04 and not clean:
        # a total length around the sizes of the buffers in use
        want = r.choice([1024, 2048, 512, 256]) + r.randrange(-4, 4)
        s = ("/" if absolute else "" if absolute is False else r.choice(["", "/"])) + r.choice(["./", ".//", "a/", "a/../", "../"]) * r.randrange(1, 9)
        return s + "z" * (want - len(s))
    if clean:
        ps = [p for p in ps if p not in ("", ".", "..")] or ["a"]
    ab = absolute if absolute is not None else r.random() < .4
    s = ("/" if ab else "") + "/".join(ps) + r.choice(["", "", "", "/", "/.", "//"] if not clean else [""])
    if not ab:
        s = s.lstrip("/")
    s = re.sub("^/{2,}", "/", s)       # POSIX leaves two leading slashes open
    return s or "a"


def tidy(p):
    """p without empty and '.' components: the same file for every file system"""
    if not p:
        return p
    parts = [x for x in p.split("/") if x not in ("", ".")]
    return ("/" if p.startswith("/") else "") + "/".join(parts)


def join(parts):
    """posix join; the result's spelling is only defined up to '//' and '.'"""
    return posixpath.join(*parts) if parts else ""


class P:
    def __init__(self):
        self.L, self.exp = ["fs = import('fs')"], []

    def ask(self, expr, ok, what):
        """ok: expected printed value, or a predicate of it"""
        self.L.append("message(['%d', %s])" % (len(self.exp), expr))
        self.exp.append((expr, ok, what))


def unshow(t):
    """the value printed by message(['n', value]) or None"""
    m = re.match(r"\[\n  '(\d+)',\n  (.*)\n\]\Z", t, re.S)
    return (int(m.group(1)), m.group(2)) if m else None


def lex(ck):
    """functions of the path text alone"""
    jobs = []
    for i in range(ck.n(1500, 20000)):
        r = ck.rng("lex", i)
        p = P()
        for _ in range(24):
            k = r.randrange(13)
            a = path(r)
            if k in (0, 1):
                parts = [path(r, absolute=r.random() < .12) for _ in range(r.randrange(2, 5))]
                if r.random() < .12:
                    parts[-1] = ""
                if k == 0:
                    e = "join_paths(%s)" % r.choice([", ".join(map(quote, parts)), "[" + ", ".join(map(quote, parts)) + "]"])
                else:
                    e = " / ".join(map(quote, parts))
                w = join(parts)
                last = parts[-1] == "" and len(parts) > 1
                p.ask(e, (lambda g, w=w, last=last: tidy(g) == tidy(w) and (not last or g.endswith("/"))), "join")
            elif k == 2:
                e = PurePosixPath(a)
                if e.name and e.name != "..":
                    p.ask("fs.name(%s)" % quote(a), e.name, "name")
                    p.ask("fs.name(%s)" % quote(a + "/"), e.name, "name")
            elif k == 3:
                if not a.startswith("~"):
                    w = str(PurePosixPath(a).parent)
                    p.ask("fs.parent(%s)" % quote(a), w, "parent")
            elif k == 4:
                e = PurePosixPath(a)
                if e.name not in ("", "..") and not e.name.endswith("."):
                    p.ask("fs.stem(%s)" % quote(a), e.stem, "stem")
            elif k in (5, 6):
                e = PurePosixPath(a)
                s = r.choice([".h", "", ".tar.gz", ".x y", ".é"])
                if e.name not in ("", "..") and not e.name.endswith("."):
                    p.ask("fs.replace_suffix(%s, %s)" % (quote(a), quote(s)), str(e.with_suffix(s)) if s else
                          str(e)[:len(str(e)) - len(e.suffix)], "replace_suffix")
            elif k == 7:
                p.ask("fs.is_absolute(%s)" % quote(a), "true" if a.startswith("/") else "false", "is_absolute")
            elif k == 8:
                w = a.replace("/", r.choice(["\\", "\\\\", "/"]))
                if w.startswith(("\\", "/")) or re.match(r"\w:", w):
                    w = "x" + w
                want = tidy(PureWindowsPath(w).as_posix())
                p.ask("fs.as_posix(%s)" % quote(w), lambda g, want=want: tidy(g) == want and "\\" not in g, "as_posix")
            elif k == 9:
                b, c = path(r, True), path(r, True)
                if r.random() < .6:
                    c = posixpath.join(b, path(r, False))
                if r.random() < .2:
                    c = b + r.choice(["x", ".", "", "/"])
                b, c = re.sub("^/+", "/", b), re.sub("^/+", "/", c)
                nb, nc = posixpath.normpath(b), posixpath.normpath(c)
                p.ask("fs.relative_to(%s, %s)" % (quote(b), quote(c)),
                      lambda g, nb=nb, nc=nc: posixpath.normpath(posixpath.join(nb, g)) == nc and
                      (not (nc == nb or nc.startswith(nb.rstrip("/") + "/")) or nb == "/" or
                       tidy(g) == tidy(posixpath.relpath(nc, nb)) or tidy(g) in ("", ".") and nc == nb), "relative_to")
            elif k == 10:
                b, c = path(r, True), path(r, True)
                if r.random() < .6:
                    c = posixpath.join(b, path(r, False))
                if r.random() < .25:
                    c = b + r.choice(["x", ".", "", "/", "/..", "/../" + PurePosixPath(b).name + "y", "/x/../.."])
                b, c = re.sub("^/+", "/", b), re.sub("^/+", "/", c)
                nb, nc = posixpath.normpath(b), posixpath.normpath(c)
                p.ask("fs.is_subpath(%s, %s)" % (quote(b), quote(c)),
                      "true" if nc == nb or nc.startswith(nb.rstrip("/") + "/") else "false", "is_subpath")
            elif k == 11:
                t = r.choice(["~", "~/", "~/" + path(r, False, True), path(r, None, True), "~/" + path(r, False)])
                if t.startswith("~") and t[1:2] not in ("", "/"):
                    continue
                w = "/the/home dir" + t[1:] if t.startswith("~") else t
                p.ask("fs.expanduser(%s)" % quote(t), lambda g, w=w: posixpath.normpath(g) == posixpath.normpath(w), "expanduser")
                if r.random() < .2:
                    u = r.choice(["~nosuchuser", "~x/y", "~~/a"])
                    p.ask("fs.expanduser(%s)" % quote(u), lambda g: not g.startswith("/the/home"), "expanduser")
            else:
                p.ask("fs.is_basename(%s)" % quote(a), "false" if "/" in a else "true", "is_basename")
                w = tidy(a) if tidy(a) else "."
                p.ask("fs.make_absolute(%s)" % quote(a), lambda g, w=w: g.startswith("/") and tidy(g).endswith(w if w != "." else ""), "make_absolute")
        jobs.append(Job(["internal", "eval", "f.meson"], {"f.meson": "\n".join(p.L) + "\n"}, tag=p))
    run_jobs(ck, jobs, env={"HOME": "/the/home dir"}, fn=lambda j, d: judge(ck, j))


def judge(ck, j):
    p, r = j.tag, j.res
    k = crashed(r)
    fl = {n: d for n, d in j.files.items() if len(d) < 1 << 20}
    if k or r.timeout:
        ck.violation("crash:" + str(k or "timeout"), r.text[-2500:], fl)
        return
    got = {}
    for m in re.split(r"^message: ", r.text, flags=re.M)[1:]:
        v = unshow(re.split(r"^(?:\S*meson(?:\.build)?:\d+:\d+: error|err )", m, maxsplit=1, flags=re.M)[0].rstrip("\n")[:-1])
        if v:
            got[v[0]] = v[1]
    for i, (expr, ok, what) in enumerate(p.exp):
        ck.count("observations")
        g = got.get(i)
        if g is not None and g.startswith("'"):
            g = unesc(g[1:-1])
        if g is None:
            ck.violation("%s:none" % what, "%s gave no value\n%s" % (expr, r.text[-1200:]), fl)
            return
        if g != ok if isinstance(ok, str) else not ok(g):
            ck.violation("%s" % what, "%s gave %r, expected %s" % (expr, g, ok if isinstance(ok, str) else
                         {"w": [c.cell_contents for c in ok.__closure__ or ()], "d": ok.__defaults__}), fl)
        ck.case(expr, sample="%s -> %s" % (expr, g) if ck.rng(expr).random() < .001 else None)


def unesc(s):
    return re.sub(r"\\(\\|'|n|t|r|x[0-9a-fA-F]{2})", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1)) or
                  (m.group(1) if m.group(1)[0] != "x" else chr(int(m.group(1)[1:], 16))), s)


NAMES = ["plain", "with space", "quo'te", 'dq"', "back\\slash", "new\nline", "tab\t", "é", "日本語", ".hidden", "..two", "a.b.c", "~",
         "~tilde", "-dash", "@AT@", "$HOME", "*", "#", "%", ";", "&", "(", "N" * 255, "sub", "$(x)", "`t`"]


def queries(ck):
    muon = build("asan")
    sizes = [0, 1, 2, 54, 55, 56, 57, 63, 64, 65, 111, 119, 120, 127, 128, 129, 1000, 4095, 4096, 4097, 65536, 70001]

    def one(i):
        r = ck.rng("q", i)
        root = os.path.realpath(ck.tmp("q"))
        top = os.path.join(root, "src")
        os.makedirs(top)
        sub = "d " + r.choice(["x", "é", "q'"]) if i % 3 else ""
        cwd = os.path.join(top, sub)
        os.makedirs(cwd, exist_ok=True)
        files = {}
        dirs = ["real", "real/deep"]
        for d in dirs:
            os.makedirs(os.path.join(cwd, d))
        for n in r.sample(NAMES, 9):
            where = r.choice(["", "", "real/", "real/deep/"])
            if where == "" and n == "sub":
                continue
            size = r.choice(sizes) if r.random() < .8 else r.randrange(3000)
            kind = r.random()
            data = (bytes(r.randrange(256) for _ in range(size)) if kind < .3 else
                    "".join(r.choice("ab\n\r\t'\\é€ \x7f\x01@") for _ in range(size)).encode() if kind < .9 else bytes(size))
            write(os.path.join(cwd, where + n), data)
            files[where + n] = data
        links = {}
        targets = sorted(files) + ["real", "real/deep", "nowhere", ".", "..", "loop"]
        for k in range(5):
            t = r.choice(targets)
            ln = "ln%d" % k
            os.symlink(t, os.path.join(cwd, ln))
            links[ln] = t
        os.symlink("loop", os.path.join(cwd, "loop"))
        os.symlink("real/deep", os.path.join(cwd, "lnd"))
        os.link(os.path.join(cwd, sorted(files)[0]), os.path.join(cwd, "hard"))
        cands = sorted(files) + list(links) + ["lnd", "hard", "loop", "real", "real/deep", ".", "..", "lnd/..", "nowhere", "real/nope", "lnd/../deep",
                                               "real/../" + sorted(files)[0], "./real//deep/", "lnd/../../real", "/", "/dev/null", "/nonexistent/x"]
        cands += ["lnd/" + f[len("real/deep/"):] for f in files if f.startswith("real/deep/")]
        cands += ["lnd/../" + f[len("real/"):] for f in files if f.startswith("real/")]
        cands += [sorted(files)[0] + "/x", sorted(files)[0] + "/..", "real/"]
        # fs.* itself expands a leading ~
        cands = [c for c in cands if not c.startswith("~")]
        p = P()

        def arg(c):
            return quote(r.choice([c, c, os.path.join(cwd, c) if not c.startswith("/") else c, "./" + c if not c.startswith("/") else c]))
        for _ in range(45):
            c = r.choice(cands)
            full = os.path.join(cwd, c)
            k = r.randrange(8)
            tf = lambda b: "true" if b else "false"
            if k == 0:
                p.ask("fs.exists(%s)" % arg(c), tf(os.path.exists(full)), "exists")
            elif k == 1:
                p.ask("fs.is_file(%s)" % arg(c), tf(os.path.isfile(full)), "is_file")
            elif k == 2:
                p.ask("fs.is_dir(%s)" % arg(c), tf(os.path.isdir(full)), "is_dir")
            elif k == 3:
                if not c.endswith(("/", "/.")):
                    p.ask("fs.is_symlink(%s)" % arg(c), tf(os.path.islink(full)), "is_symlink")
            elif k == 4:
                d = r.choice(cands)
                if r.random() < .5:
                    same = [x for x in cands if os.path.exists(full) and os.path.exists(os.path.join(cwd, x)) and
                            os.path.samefile(full, os.path.join(cwd, x))]
                    d = r.choice(same) if same else d
                fd = os.path.join(cwd, d)
                if os.path.exists(full) and os.path.exists(fd):
                    p.ask("fs.is_samepath(%s, %s)" % (arg(c), arg(d)), tf(os.path.samefile(full, fd)), "is_samepath")
                elif os.path.exists(full) != os.path.exists(fd) and '..' not in (c + '/' + d).split('/'):
                    # (whether x/.. exists when x does not is left open)
                    p.ask("fs.is_samepath(%s, %s)" % (arg(c), arg(d)), "false", "is_samepath")
            elif os.path.isfile(full):
                a = arg(c)
                if r.random() < .25 and "\n" not in c and not sub:
                    a = "files(%s)[0]" % quote(c)
                if k == 5:
                    p.ask("fs.size(%s)" % a, str(os.path.getsize(full)), "size")
                elif k == 6:
                    p.ask("fs.hash(%s, 'sha256')" % a, hashlib.sha256(read(full)).hexdigest(), "hash")
                else:
                    data = read(full)
                    try:
                        t = data.decode()
                    except UnicodeDecodeError:
                        continue
                    if "\0" in t:
                        continue
                    cut = quote(t)
                    p.ask("fs.read(%s) == %s" % (a, cut), "true", "read")
        # every file once: name through a file object
        for f in sorted(files)[:4]:
            if "\n" not in f and not f.startswith("~"):
                n = PurePosixPath(f)
                if not n.name.endswith("."):
                    p.ask("fs.name(files(%s)[0])" % quote(f), n.name, "name-file")
                    p.ask("fs.stem(files(%s)[0])" % quote(f), n.stem, "stem-file")
        body = "\n".join(p.L) + "\n"
        tail = ""
        bad = r.choice(["fs.read('nowhere')", "fs.size('nowhere')", "fs.hash('nowhere', 'sha256')", "fs.read('real')", "fs.hash('loop', 'sha256')"])
        tail = "message('LAST')\nx = %s\nmessage('REACHED')\n" % bad
        if sub:
            write(os.path.join(top, "meson.build"), "project('p')\nsubdir(%s)\n" % quote(sub))
            write(os.path.join(cwd, "meson.build"), body.replace("fs.is_basename", "fs.name") + tail)
        else:
            write(os.path.join(top, "meson.build"), "project('p')\n" + body + tail)
        for dd, dn, fn in os.walk(root):
            os.chmod(dd, 0o755)
        os.makedirs(os.path.join(root, "out"))
        os.chmod(os.path.join(root, "out"), 0o777)
        before = walk_tree(top)
        res = run([muon, "setup", os.path.join(root, "out", "b")], cwd=top, env={"HOME": "/the/home dir"}, user=65534, merge=True)
        j = Job([], {"meson.build": body + tail}, tag=p)
        j.res = res
        judge(ck, j)
        if res.rc != 1 or "LAST" not in res.text or "REACHED" in res.text:
            ck.violation("query-error", "%s was not refused, exit %s\n%s" % (bad, res.rc, res.text[-800:]), {"meson.build": body + tail})
        if walk_tree(top) != before:
            ck.violation("query-writes", "the queries changed the tree", {"meson.build": body})
        shutil.rmtree(root, ignore_errors=True)
    ck.map(one, range(ck.n(400, 5000)))


def body(ck):
    ck.rule = "one case is a distinct call text (function and argument paths); queries are asked about generated trees of files and links"
    lex(ck)
    queries(ck)
    ck.assumptions = ["Python's posixpath/pathlib and os.stat define POSIX path semantics; spelling differences of '//' and '.' and paths "
                      "starting with two slashes are left open"]
    ck.finish(min_evals=3000)


if __name__ == "__main__":
    main("C24", body)
