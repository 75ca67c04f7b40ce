#!/usr/bin/env python3
"""C22: wrapped subprojects are only used when they match their recorded hash.

Monitor: generated archives, patches, overlays and diffs in every way a wrap file can name them, with
right, wrong and malformed hashes, damaged and hostile archives; after each setup the subprojects
directory is compared with a model of what should have been unpacked, everything around it with what
was there before, and refused subprojects are tried again by later runs."""
import bz2, warnings, difflib, gzip, hashlib, io, lzma, os, re, shutil, stat, sys, tarfile, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

warnings.simplefilter('ignore', UserWarning)

NAMES = ["a.c", "data.txt", "dir/b.c", "dir/sub/c.h", "x y/d e", "ü.txt", "tool.sh", "empty", "long/" + "n" * 120, "deep/1/2/3/4/5/f", ".hidden", "dir/.keep"]


def content(r):
    k = r.random()
    if k < .1:
        return b""
    if k < .2:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 511, 512, 513, 3000, 70000])))
    return "".join("line %d %d\n" % (i, r.randrange(1000)) for i in range(r.randrange(1, 40))).encode()


def tree(r, links=True):
    """path -> ('f', bytes, executable) | ('l', target)"""
    t = {"meson.build": ("f", b"project('foo', version: '1')\nmessage('CONTENT', import('fs').read('id.txt').strip())\n", False), "id.txt": ("f", b"id %d\n" % r.getrandbits(40), False)}
    for n in r.sample(NAMES, r.randrange(1, 6)):
        t[n] = ("f", content(r), n.endswith(".sh"))
    if links and r.random() < .3:
        t["link"] = ("l", r.choice(["id.txt", "dir", "meson.build", "./id.txt"]))
    return t


def pack(r, entries, kind, hostile=()):
    """entries in order: (name, node); hostile entries come first, last or in between"""
    out = io.BytesIO()
    todo = list(entries)
    for h in hostile:
        todo.insert(r.choice([0, len(todo)]), h)
    if kind == "zip":
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for n, v in todo:
                zi = zipfile.ZipInfo(n, (2020, 1, 1, 1, 1, 2))
                zi.create_system = 3
                if v[0] == "l":
                    zi.external_attr = (stat.S_IFLNK | 0o777) << 16
                    z.writestr(zi, v[1])
                else:
                    zi.external_attr = (stat.S_IFREG | (0o755 if v[2] else 0o644)) << 16
                    z.writestr(zi, v[1])
            z.comment = b"c" * r.randrange(130)
        return out.getvalue()
    with tarfile.open(fileobj=out, mode="w", format=r.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as t:
        dirs = set()
        for n, v in todo:
            d = os.path.dirname(n)
            if d and d not in dirs and r.random() < .5 and not n.startswith("/") and ".." not in n and v[0] == "f" and not hostile:
                dirs.add(d)
                ti = tarfile.TarInfo(d)
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                t.addfile(ti)
            ti = tarfile.TarInfo(n)
            ti.mtime = 1600000000
            if v[0] == "l":
                ti.type, ti.linkname, ti.mode = tarfile.SYMTYPE, v[1], 0o777
                t.addfile(ti)
            elif v[0] == "h":
                ti.type, ti.linkname, ti.mode = tarfile.LNKTYPE, v[1], 0o644
                t.addfile(ti)
            elif v[0] == "d":
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                t.addfile(ti)
            else:
                ti.size, ti.mode = len(v[1]), 0o755 if v[2] else 0o644
                t.addfile(ti, io.BytesIO(v[1]))
    b = out.getvalue()
    return {"tar": lambda x: x, "tar.gz": gzip.compress, "tar.bz2": bz2.compress, "tar.xz": lzma.compress}[kind](b)


def wronghash(r, data, other):
    """-> (how, hash) which is not the hash of data"""
    h = hashlib.sha256(data).hexdigest()
    k = r.choice(["nibble", "nibble", "nibble", "other", "short", "long", "nonhex", "nonhex", "nonhex2", "swap", "zero", "empty", "md5", "prefix", "space", "first", "last"])
    if k in ("nibble", "first", "last"):
        i = {"nibble": r.randrange(64), "first": 0, "last": 63}[k]
        x = h[:i] + r.choice([c for c in "0123456789abcdef" if c != h[i]]) + h[i + 1:]
    elif k == "other":
        x = hashlib.sha256(other).hexdigest()
    elif k == "short":
        x = h[:r.choice([63, 62, 32, 2, 1])]
    elif k == "long":
        x = h + r.choice(["0", h, "00"])
    elif k == "nonhex":
        # a byte whose value a lax parser would take from something else
        i = 2 * r.randrange(32)
        b = h[i:i + 2]
        c = ["zz", "g0", "--", "0x", b[1] + "g" if b[0] == "0" else "xx"]
        if b[0] == "0":
            c += ["+" + b[1], " " + b[1] if 0 < i else "zz"]
        x = h[:i] + r.choice(c) + h[i + 2:]
    elif k == "nonhex2":
        x = r.choice(["z" * 64, "0x" + h[2:], "sha256:" + h, h.replace(h[5], "-", 1), "g" + h[1:]])
    elif k == "swap":
        x = h[32:] + h[:32]
    elif k == "zero":
        x = "0" * 64
    elif k == "empty":
        x = ""
    elif k == "md5":
        x = hashlib.md5(data).hexdigest()
    elif k == "prefix":
        x = h[:r.randrange(2, 63)].ljust(64, "0")
    else:
        x = h[:32] + " " + h[33:]
    if x.lower() == h:
        return wronghash(r, data, other)
    return k, x


def setperm(top):
    for d, ds, fs in os.walk(top):
        os.chmod(d, 0o777)
        for f in fs:
            p = os.path.join(d, f)
            if not os.path.islink(p):
                os.chmod(p, os.stat(p).st_mode | 0o666)


def snap(top, skip=()):
    """what there is: content and kind of every file"""
    out = {}
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, top)
        ds[:] = [x for x in ds if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            n = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p):
                out[n] = ("l", os.readlink(p))
            else:
                st = os.lstat(p)
                out[n] = ("f", read(p), bool(st.st_mode & 0o100)) if stat.S_ISREG(st.st_mode) else ("?", stat.S_IFMT(st.st_mode))
        for x in ds:
            out.setdefault(os.path.normpath(os.path.join(rel, x)) + "/", ("d",))
    return out


def mkdiff(r, t):
    """-> diff text and the tree after it"""
    t = dict(t)
    c = [n for n in sorted(t) if t[n][0] == "f" and t[n][1].startswith(b"line") and " " not in n and n.isascii()]
    out = []
    if c and r.random() < .8:
        n = r.choice(c)
        a = t[n][1].decode().splitlines(True)
        b = list(a)
        b.insert(r.randrange(len(b) + 1), "patched %d\n" % r.randrange(1000))
        if r.random() < .5:
            b[r.randrange(len(b))] = "replaced %d\n" % r.randrange(1000)
        out += list(difflib.unified_diff(a, b, "a/" + n, "b/" + n))
        t[n] = ("f", "".join(b).encode(), t[n][2])
    if not out or r.random() < .3:
        n = "new%d.txt" % r.randrange(10000)
        b = ["new %d\n" % r.randrange(1000)]
        out += list(difflib.unified_diff([], b, "/dev/null", "b/" + n))
        t[n] = ("f", b[0].encode(), False)
    return "".join(out), t


class Case:
    def __init__(self, ck, i, muon):
        self.ck, self.i, self.muon = ck, i, muon
        self.r = ck.rng("case", i)
        self.top = ck.tmp("w%d" % i)
        os.chmod(self.top, 0o777)

    def sh(self, argv, cwd):
        return run(argv, cwd=cwd, user=65534, env={"HOME": self.top}, timeout=60, merge=True)

    def fail(self, key, detail):
        self.ck.violation(key, detail, self.files)

    def go(self):
        r, ck = self.r, self.ck
        src = os.path.join(self.top, "src")
        sp = os.path.join(src, "subprojects")
        out = os.path.join(self.top, "outside")
        os.makedirs(os.path.join(sp, "packagefiles"))
        os.makedirs(out)
        write(os.path.join(out, "victim.txt"), "victim\n")
        write(os.path.join(src, "victim.txt"), "victim\n")
        name = "foo"
        directory = r.choice(["foo", "foo", "foo-1.0", "foo 2", "bar"])
        w = []
        reasons = []     # why it has to be refused
        open_ = []       # reasons why either outcome is right
        if directory != name or r.random() < .3:
            w.append(("directory", directory))
        missing = r.random() < .2
        t = tree(r)
        if missing:
            w.append(("lead_directory_missing", "true"))
        prefix = "" if missing else directory + "/"
        kind = r.choice(["tar", "tar.gz", "tar.gz", "tar.bz2", "tar.xz", "zip", "dir"])
        # hostile members
        hostile = []
        evil = r.random()
        if evil < .25 and kind != "dir":
            h = r.choice(["dotdot", "absolute", "symlink", "symlinkfile", "hardlink", "deepdot", "symdir"])
            evilfile = ("f", b"evil\n", False)
            up = r.choice(["../", "../../", "../../../outside/"])
            if h == "dotdot":
                hostile = [(up + "victim.txt", evilfile)]
            elif h == "deepdot":
                hostile = [(prefix + "dir/../../" + ("" if missing else "../") + up + "victim.txt", evilfile)]
            elif h == "absolute":
                hostile = [(os.path.join(out, r.choice(["victim.txt", "new.txt"])), evilfile)]
            elif h == "symlink":
                hostile = [(prefix + "s/victim.txt", evilfile), (prefix + "s", ("l", r.choice([out, "../../../outside", "../.."])))]
            elif h == "symdir":
                hostile = [(prefix + "s/t/new.txt", evilfile), (prefix + "s", ("l", out))]
            elif h == "symlinkfile":
                hostile = [(prefix + "s", evilfile), (prefix + "s", ("l", os.path.join(out, "victim.txt")))]
            else:
                hostile = [(prefix + "s", evilfile), (prefix + "s", ("h", os.path.join(out, "victim.txt")))]
            if h == "hardlink" and kind == "zip":
                kind = "tar"
            open_.append("hostile " + h)
        elif evil < .3:
            directory2 = r.choice(["../out", "../../outside", out, "a/b", "..", ".", "../../../x"])
            w = [x for x in w if x[0] != "directory"] + [("directory", directory2)]
            open_.append("directory " + directory2)
        if kind == "dir" and t.get("link", ("", ""))[1] == "dir":
            del t["link"]
        entries = [(prefix + n, v) for n, v in t.items()]
        if r.random() < .4:
            r.shuffle(entries)
        if hostile and hostile[0][0].startswith(prefix + "s"):
            # the link comes before what is written through it
            hostile = [hostile[0], hostile[1]]
            data = pack(r, [hostile[1], hostile[0]] + entries if r.random() < .5 else entries + [hostile[1], hostile[0]], kind)
        elif kind != "dir":
            data = pack(r, entries, kind, hostile)
        where = "packagefiles"
        if kind == "dir":
            fn = "foo-dir"
            base = os.path.join(sp, "packagefiles", fn)
            for n, v in entries:
                p = os.path.join(base, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if v[0] == "l":
                    os.symlink(v[1], p)
                else:
                    write(p, v[1])
                    os.chmod(p, 0o755 if v[2] else 0o644)
        else:
            fn = "foo-src." + kind
            stored = data
            if r.random() < .12 and not hostile:
                # the archive itself is damaged, its hash is that of the damaged file
                n = r.randrange(1, len(data))
                stored = data[:n] if r.random() < .6 else b""
                stored = r.choice([stored, b"not an archive\n" * 3])
                if kind == "tar":
                    # a cut tar may look like a shorter one
                    stored = b"not an archive\n" * 40
                data = stored
                # what is lost can be the end mark of the archive only
                (open_ if stored and not stored.startswith(b"not") else reasons).append("damaged archive")
            where = r.choice(["packagefiles", "packagefiles", "url"])
            good = hashlib.sha256(data).hexdigest()
            hm = r.random()
            if hm < .35:
                h = good
            elif hm < .42:
                h = good.upper()
            elif hm < .5 and where == "packagefiles":
                h = None
            elif hm < .8:
                k, h = wronghash(r, data, content(r))
                reasons.append("hash " + k)
            else:
                # the file is another one than the one the hash is of
                h = good
                b = bytearray(data)
                if b:
                    b[r.choice([0, len(b) - 1, r.randrange(len(b))])] ^= 1 << r.randrange(8)
                stored = r.choice([bytes(b), bytes(b), data + b"\0", data[:-1]])
                if stored == data:
                    stored = data + b"x"
                reasons.append("altered file")
            if h is not None:
                w.append(("source_hash", h))
            nodl = False
            if where == "url":
                u = os.path.join(self.top, "server")
                os.makedirs(u, exist_ok=True)
                write(os.path.join(u, "f"), stored)
                w.append(("source_url", "file://" + os.path.join(u, "f")))
            else:
                write(os.path.join(sp, "packagefiles", fn), stored)
        w.append(("source_filename", fn))
        # the patch on top of it
        result = dict(t)
        pk = r.choice([None, None, "dir", "zip", "tar.gz", "tar"])
        if pk:
            pt = {n: ("f", content(r), False) for n in r.sample(NAMES, r.randrange(1, 4))}
            if r.random() < .5:
                pt["id.txt"] = ("f", b"patched id %d\n" % r.getrandbits(30), False)
            for n in pt:
                # files that are there keep what they are
                if n in result and result[n][0] == "f":
                    pt[n] = ("f", pt[n][1], result[n][2])
            if pk == "dir":
                for n, v in pt.items():
                    write(os.path.join(sp, "packagefiles", "foo-patch", n), v[1])
                    os.chmod(os.path.join(sp, "packagefiles", "foo-patch", n), 0o755 if v[2] else 0o644)
                w.append(("patch_directory", "foo-patch"))
            else:
                pd = pack(r, [(directory + "/" + n, v) for n, v in pt.items()], pk)
                fnp = "foo-patch." + pk
                w.append(("patch_filename", fnp))
                h = hashlib.sha256(pd).hexdigest()
                hm = r.random()
                stored = pd
                if hm < .2:
                    k, h = wronghash(r, pd, content(r))
                    reasons.append("patch hash " + k)
                elif hm < .3:
                    b = bytearray(pd)
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                    stored = bytes(b)
                    reasons.append("altered patch")
                if hm < .8:
                    w.append(("patch_hash", h))
                if r.random() < .3 and hm < .8:
                    u = os.path.join(self.top, "server")
                    write(os.path.join(u, "p"), stored)
                    w.append(("patch_url", "file://" + os.path.join(u, "p")))
                    where = "url"
                else:
                    write(os.path.join(sp, "packagefiles", fnp), stored)
            result.update(pt)
        if r.random() < .3 and not open_:
            fs = []
            for j in range(r.choice([1, 1, 2, 3])):
                d, result = mkdiff(r, result)
                if r.random() < .12:
                    d = "--- a/id.txt\n+++ b/id.txt\n@@ -1 +1 @@\n-something that is not there\n+x\n"
                    reasons.append("diff")
                write(os.path.join(sp, "packagefiles", "d%d.patch" % j), d)
                fs.append("d%d.patch" % j)
            w.append(("diff_files", r.choice([", ", ",", " , "]).join(fs)))
        opts = []
        if r.random() < .1:
            opts = ["-Dwrap_mode=nodownload"]
            if where == "url":
                reasons.append("nodownload")
        r.shuffle(w)
        wrap = "[wrap-file]\n" + "".join("%s%s%s\n" % (k, r.choice([" = ", "="]), v) for k, v in w)
        write(os.path.join(sp, name + ".wrap"), wrap)
        req = r.random() < .7
        write(os.path.join(src, "meson.build"), "project('main')\ns = subproject('foo', required: %s)\nmessage('FOUND', s.found())\n" % ("true" if req else "false"))
        setperm(self.top)
        self.files = {"foo.wrap": wrap, "why.txt": "refuse: %s\nopen: %s\n" % (reasons, open_)}
        before = snap(self.top, skip=("src/subprojects", "src/b"))
        res = self.sh([self.muon, "setup"] + opts + ["b"], src)
        self.files["output.txt"] = res.text
        if res.timeout or crashed(res):
            return self.fail("crash", "rc=%s %s" % (res.rc, res.text[-500:]))
        after = snap(self.top, skip=("src/subprojects", "src/b"))
        if after != before:
            n = [x for x in sorted(set(after) | set(before)) if after.get(x) != before.get(x)]
            return self.fail("escape", "unpacking changed %s outside of the subprojects directory (%s)" % (n[:5], open_))
        ck.count("contained")
        found = "FOUND true" in res.text
        used = "CONTENT" in res.text
        if open_:
            ck.count("hostile")
            if not reasons:
                ck.case("%d" % self.i, 1, wrap)
                return
        if reasons:
            if found or used or (req and res.rc == 0):
                return self.fail("used", "a subproject was used although it has to be refused (%s)\n%s\nrc=%s %s" % (reasons, wrap, res.rc, res.text[-500:]))
            ck.count("refused")
            # by the source's hash: nothing of it is there
            if reasons[0] in ("altered file",) or reasons[0].startswith("hash"):
                left = [n for n in snap(sp) if not n.startswith("packagefiles") and n != "foo.wrap" and not n.endswith("/")]
                if left:
                    return self.fail("unpacked", "refused by its hash, but unpacked: %s" % left[:5])
            # later runs do not take what is left
            for what in ("again", "download", "without the wrap"):
                if what == "download":
                    if r.random() < .5:
                        continue
                    if "nodownload" in reasons:
                        continue
                    self.sh([self.muon, "subprojects", "download"], src)
                elif what == "without the wrap":
                    os.unlink(os.path.join(sp, "foo.wrap"))
                    if directory != name and os.path.isdir(os.path.join(sp, directory)):
                        write(os.path.join(src, "meson.build"), read(os.path.join(src, "meson.build")).decode().replace("'foo'", "'%s'" % directory))
                res = self.sh([self.muon, "setup"] + opts + ["b2"], src)
                if res.timeout or crashed(res):
                    return self.fail("crash", "%s: rc=%s %s" % (what, res.rc, res.text[-500:]))
                if "FOUND true" in res.text or "CONTENT" in res.text or (req and res.rc == 0):
                    return self.fail("later", "what was refused (%s) is used by a later run (%s)\n%s" % (reasons, what, res.text[-500:]))
                shutil.rmtree(os.path.join(src, "b2"), ignore_errors=True)
                ck.count("later_runs")
        else:
            if res.rc != 0 or not found:
                return self.fail("refused", "a good wrap is refused: rc=%s %s\n%s" % (res.rc, res.text[-500:], wrap))
            got = {n: v for n, v in snap(sp, skip=("packagefiles",)).items() if not n.endswith("/") and n != "foo.wrap"}
            want = {os.path.normpath(directory + "/" + n): v for n, v in result.items()}
            if got != want:
                n = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
                return self.fail("differs", "unpacked tree differs at %s: %.200r, should be %.200r\n%s" % (n[:4], got.get(n[0]), want.get(n[0]), wrap))
            if result["id.txt"][1].decode().strip() not in res.text:
                return self.fail("notused", "the subproject that was evaluated is another one: " + res.text[-400:])
            ck.count("accepted")
            # and is kept: a second run uses it as it is
            write(os.path.join(sp, directory, "id.txt"), "local edit\n")
            setperm(sp)
            res = self.sh([self.muon, "setup"] + opts + ["b2"], src)
            if res.rc != 0 or "local edit" not in res.text:
                return self.fail("kept", "a second run does not use the existing directory: " + res.text[-400:])
        ck.case("%d" % self.i, 1, wrap)


def sha(ck):
    """the hash function, on every short length and some long ones"""
    d = ck.tmp("sha")
    r = ck.rng("sha", 0)
    lens = list(range(0, 260)) + [511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 55, (3 << 20) + 57]
    src = "project('h')\nfs = import('fs')\n"
    for n in lens:
        b = r.randbytes(n)
        write(os.path.join(d, "f%d" % n), b)
        src += "assert(fs.hash('f%d', 'sha256') == '%s', 'length %d')\n" % (n, hashlib.sha256(b).hexdigest(), n)
    write(os.path.join(d, "meson.build"), src)
    setperm(d)
    res = run([build("asan"), "setup", "b"], cwd=d, user=65534, timeout=120, merge=True)
    if res.rc != 0 or crashed(res):
        ck.violation("sha256", "rc=%s %s" % (res.rc, res.text[-400:]), {"meson.build": src})
    else:
        ck.count("hashed", len(lens))
        for n in lens:
            ck.case("sha%d" % n)


def body(ck):
    ck.rule = ("random wrap files over archive kinds, sources, patches, overlays and diffs with right, wrong and malformed hashes, damaged and hostile archives; one is distinct by its content")
    ck.assumptions += ["downloads are file: urls", "wrap-git is not exercised", "a local directory named as the source has no hash", "hostile archives may be refused or unpacked without their hostile members"]
    muon = build("asan")
    sha(ck)
    ck.map(lambda i: Case(ck, i, muon).go(), range(ck.n(420, 6000)))
    ck.finish(min_evals=400)


if __name__ == "__main__":
    main("C22", body)
