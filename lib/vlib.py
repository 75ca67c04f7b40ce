"""Shared machinery of the muon runtime-monitoring checks.

Builds instrumented muon binaries from /repo's working tree, runs workloads in
scratch directories, collects verdicts (violated / held / inconclusive), matches
them against the known-findings file, and writes the evidence file.
"""
import atexit, concurrent.futures, fcntl, hashlib, json, os, random, re, shutil
import signal, stat, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUON_REPO", "/repo")
BUILDROOT = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, ".replay")
NCPU = min(os.cpu_count() or 4, 8)

BASE_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "TZ": "UTC",
    "CC": "gcc", "CXX": "g++",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:max_allocation_size_mb=2048:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "MSAN_OPTIONS": "exitcode=86:abort_on_error=0",
}

CONFIGS = {
    # address+undefined; nonnull-attribute is left out: memcpy(p, NULL, 0) is a
    # formality every libc defines, not a defect a user can observe.
    "asan": dict(
        cc="gcc", cxx="g++",
        cflags="-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
               "-fno-sanitize=nonnull-attribute -fno-sanitize-recover=all",
        ldflags="-fsanitize=address,undefined",
        opts=["-Dlibcurl=enabled", "-Dlibarchive=enabled", "-Dlibpkgconf=enabled"]),
    # the same sources as a user builds them
    "plain": dict(
        cc="gcc", cxx="g++", cflags="-g -O1", ldflags="",
        opts=["-Dlibcurl=enabled", "-Dlibarchive=enabled", "-Dlibpkgconf=enabled"]),
    # uninitialised reads: every dependency that is not libc is left out so that
    # all code in the process is instrumented
    "msan": dict(
        cc="clang", cxx="clang++",
        cflags="-g -O1 -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-recover=all",
        ldflags="-fsanitize=memory",
        opts=["-Dlibcurl=disabled", "-Dlibarchive=disabled", "-Dlibpkgconf=disabled"]),
}


class HarnessError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in ("meson.build", "meson_options.txt", "src", "include", "tools", "subprojects", "tests/meson.build"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, dn, fn in os.walk(p):
                dn.sort()
                if "packagecache" in dn:
                    dn.remove("packagecache")
                fs += [os.path.join(d, f) for f in sorted(fn)]
        for f in fs:
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def build(config="asan"):
    """Return the path of a muon built from /repo's current tree with config."""
    cfg = CONFIGS[config]
    os.makedirs(BUILDROOT, exist_ok=True)
    want = tree_hash() + hashlib.sha256(repr(sorted(cfg.items())).encode()).hexdigest()[:6]
    out = os.path.join(BUILDROOT, config + "-" + want)
    muon = os.path.join(out, "muon")
    with open(os.path.join(BUILDROOT, ".lock-" + config), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".complete")):
            return muon
        for d in os.listdir(BUILDROOT):
            if d.startswith(config + "-"):
                shutil.rmtree(os.path.join(BUILDROOT, d), ignore_errors=True)
        env = {"PATH": BASE_ENV["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/root",
               "CC": cfg["cc"], "CXX": cfg["cxx"], "CCACHE_DISABLE": "1"}
        r = subprocess.run(
            ["meson", "setup", out, REPO, "--wrap-mode=nodownload", "-Dbuildtype=plain",
             "-Db_lundef=false", "-Dwerror=false", "-Ddocs=disabled",
             "-Dc_args=" + cfg["cflags"] + " -w", "-Dc_link_args=" + cfg["ldflags"]] + cfg["opts"],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd="/")
        if r.returncode != 0:
            raise HarnessError("meson setup failed for %s:\n%s" % (config, r.stdout[-3000:]))
        r = subprocess.run(["ninja", "-C", out, "muon"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", cwd="/")
        if r.returncode != 0 or not os.path.exists(muon):
            raise HarnessError("build failed for %s:\n%s" % (config, r.stdout[-3000:]))
        open(os.path.join(out, ".complete"), "w").close()
    return muon


def probe():
    """Return the path of the helper program (lib/probe.c) that checks run as test, tool or generator."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "probe.c")
    os.makedirs(BUILDROOT, exist_ok=True)
    out = os.path.join(BUILDROOT, "probe-" + hashlib.sha256(read(src)).hexdigest()[:12])
    with open(os.path.join(BUILDROOT, ".lock-probe"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            subprocess.run(["gcc", "-O1", "-w", "-o", out + ".tmp", src], check=True)
            os.rename(out + ".tmp", out)
    return out


def build_fork(config="asan"):
    """Return the path of the fork server (lib/forkmain.c) linked with the same objects."""
    muon = build(config)
    out = os.path.dirname(muon)
    exe = os.path.join(out, "muon-fork")
    src = os.path.join(VERIF, "lib", "forkmain.c")
    with open(os.path.join(BUILDROOT, ".lock-" + config), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(src):
            return exe
        env = {"PATH": BASE_ENV["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/root"}

        def sh(cmd):
            r = subprocess.run(cmd, shell=True, cwd=out, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                raise HarnessError("fork server: %s\n%s" % (cmd, r.stdout[-3000:]))
            return r.stdout
        link = [l for l in sh("ninja -t commands muon").splitlines() if " -o muon " in l][-1]
        main_o = [w for w in link.split() if w.endswith("main.c.o")]
        main_o = [w for w in main_o if "src_main.c.o" in w]
        if len(main_o) != 1:
            raise HarnessError("fork server: cannot find main object in: " + link[:500])
        sh("objcopy --redefine-sym main=muon_main %s fork_muon_main.o" % main_o[0])
        sh("%s %s -w -c %s -o forkmain.o" % (CONFIGS[config]["cc"], CONFIGS[config]["cflags"], src))
        sh(link.replace(" -o muon ", " -o muon-fork.tmp ").replace(main_o[0], "fork_muon_main.o forkmain.o"))
        os.rename(exe + ".tmp", exe)
    return exe


class Job:
    """One muon command line for run_jobs: files are put in its own directory, which is
    its working directory unless cwd is given."""
    __slots__ = ("argv", "files", "stdin", "tag", "timeout", "res", "cwd")

    def __init__(self, argv, files=None, stdin=None, tag=None, timeout=20, cwd=None):
        self.argv, self.files, self.stdin, self.tag, self.timeout = argv, files or {}, stdin, tag, timeout
        self.res, self.cwd = None, cwd


def run_jobs(ck, jobs, config="asan", chunk=64, user=65534, env=None, fn=None, keep_out=True):
    """Run Jobs through fork servers, NCPU at a time; sets job.res (Res with merged output).
    fn(job) is called in the worker once a job has its result and before its directory goes."""
    exe = build_fork(config)
    e = dict(BASE_ENV)
    e.update(env or {})
    kw = dict(user=user, group=user, extra_groups=[]) if user is not None and os.getuid() == 0 else {}

    def do(part):
        base = ck.tmp("fj")
        os.chmod(base, 0o777)
        rec = []
        try:
            for i, j in enumerate(part):
                d = os.path.join(base, str(i))
                os.mkdir(d)
                os.chmod(d, 0o777)
                for name, data in j.files.items():
                    p = os.path.join(d, name)
                    if "/" in name:
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        for dd in [x for x, _, _ in os.walk(d)]:
                            os.chmod(dd, 0o777)
                    with open(p, "wb") as f:
                        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
                    os.chmod(p, 0o666)
                inp = "/dev/null"
                if j.stdin is not None:
                    inp = os.path.join(base, "%d.in" % i)
                    with open(inp, "wb") as f:
                        f.write(j.stdin)
                argv = [a.replace("@DIR@", d) for a in j.argv]
                rec.append("\0".join([str(int(j.timeout * 1000)), j.cwd or d, inp, os.path.join(base, "%d.out" % i),
                                      str(len(argv))] + argv).encode("utf-8", "surrogateescape") + b"\0")
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=e, cwd=base, start_new_session=True, **kw)
            out, err = p.communicate(b"".join(rec))
            lines = out.decode().splitlines()
            if len(lines) != len(part):
                raise HarnessError("fork server died: rc=%s %d/%d %s" % (p.returncode, len(lines), len(part), err[-800:]))
            for i, (l, j) in enumerate(zip(lines, part)):
                _, rc, us, to = l.split()
                try:
                    data = read_ends(os.path.join(base, "%d.out" % i))
                except OSError:
                    data = b""
                if int(rc) == 99 and not data:
                    raise HarnessError("fork server: cannot start job in " + base)
                j.res = Res(int(rc), data, data if keep_out else b"", to == "1", int(us) / 1e6)
                if fn:
                    fn(j, os.path.join(base, str(i)))
        finally:
            shutil.rmtree(base, ignore_errors=True)
    jobs = list(jobs)
    ck.map(do, [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)])
    return jobs


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def etext(self):
        return self.err.decode("utf-8", "replace")

    @property
    def all(self):
        return self.out.decode("utf-8", "replace") + self.err.decode("utf-8", "replace")


def run(argv, cwd=None, stdin=b"", env=None, timeout=120, user=None, merge=False, rlimits=None):
    """Run argv to completion in its own session; on timeout kill the whole group."""
    e = dict(BASE_ENV)
    if env:
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
    kw = {}
    if user is not None and os.getuid() == 0:
        kw = dict(user=user, group=user, extra_groups=[])
    t0 = time.monotonic()
    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         start_new_session=True, **kw)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
    return Res(p.returncode, out or b"", err or b"", to, time.monotonic() - t0)


SAN_RE = re.compile(r"ERROR: AddressSanitizer|runtime error:|WARNING: MemorySanitizer|"
                    r"ERROR: LeakSanitizer|AddressSanitizer:DEADLYSIGNAL|Assertion `|assertion .* failed|"
                    r"stack smashing detected|free\(\): invalid|malloc\(\)|corrupted size|double free")


def crashed(res):
    """A report or a death by signal, as a short stable key, or None."""
    if res.timeout:
        return None
    txt = res.etext + (res.text if "Sanitizer" in res.text or "runtime error" in res.text else "")
    txt = "\n".join(l[:600] for l in txt.split("\n")[-400:]) if len(txt) > 20000 else txt
    m = re.search(r"(ERROR|WARNING): (AddressSanitizer|MemorySanitizer|LeakSanitizer):? ([a-z-]+)", txt)
    if m:
        return "%s:%s@%s" % (m.group(2)[0] + "san", m.group(3), frame_of(txt[m.start():]))
    m = "runtime error" in txt and re.search(r"(?<![\w./+-])([\w./+-]+):(\d+):(\d+): runtime error: (.*)", txt)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"-?\d+|0x[0-9a-f]+|'[^']*'", "N", m.group(4))[:70])
    m = "Assertion" in txt and re.search(r"(?<![\w./+-])([\w./+-]+):(\d+): (\w+): Assertion `(.*?)' failed", txt)
    if m:
        return "assert:%s:%s:%s" % (os.path.basename(m.group(1)), m.group(3), m.group(4)[:60])
    m = re.search(r"internal type error, expected (\w+) but got (\w+)", txt)
    if res.rc is not None and res.rc < 0:
        return "signal:%d%s" % (-res.rc, ":type error %s/%s" % m.groups() if m else "")
    if res.rc == 86:
        return "sanitizer-exit"
    return None


def frame_of(txt):
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", txt):
        if "/src/" in m.group(2) and "libsanitizer" not in m.group(2) and "compiler-rt" not in m.group(2):
            return m.group(1)
    return "?"


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.monotonic()
        self.lock = threading.Lock()
        self.violations = {}      # key -> (detail, replay)
        self.known_seen = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.rule = ""
        self.extra = {}
        self.counters = {}
        self.assumptions = []
        self.inconclusive = []
        self.known, self.fixed = load_known(pid)
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        atexit.register(shutil.rmtree, self.scratch, True)
        d = os.path.join(REPLAY, pid)
        shutil.rmtree(d, ignore_errors=True)
        # an evidence file from an earlier run must not stand for this one
        ev = os.path.join(VERIF, "evidence", pid + ".json")
        if os.path.exists(ev):
            os.unlink(ev)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *salt):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def count(self, name, k=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + k

    def case(self, ident=None, k=1, sample=None):
        """Count k evaluations; ident (hashable) marks a distinct, non-trivial case."""
        with self.lock:
            self.evaluations += k
            if ident is not None:
                self.distinct.add(ident if isinstance(ident, (int, str)) and len(str(ident)) < 40
                                  else hashlib.md5(repr(ident).encode()).hexdigest()[:16])
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample if len(str(sample)) < 1500 else str(sample)[:1500])

    def violation(self, key, detail, files=None):
        """key: stable short text identifying the input/call site/history that fails."""
        with self.lock:
            for k in self.known:
                if k["key"] == key or (k["key"].endswith("*") and key.startswith(k["key"][:-1])):
                    self.known_seen[k["key"]] = True
                    return False
            if key in self.violations:
                return True
            d = os.path.join(REPLAY, self.pid, "%03d" % len(self.violations))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "detail.txt"), "w", errors="replace") as f:
                f.write("property=%s\nkey=%s\nseed=%d tier=%s\n\n%s\n" % (self.pid, key, self.seed, self.tier, detail))
            for name, data in (files or {}).items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data if isinstance(data, bytes) else str(data).encode("utf-8", "surrogateescape"))
            self.violations[key] = d
            print("-- violation [%s]: %s" % (key, detail[:1500]), flush=True)
            return True

    def give_up(self, why):
        with self.lock:
            self.inconclusive.append(why)

    def map(self, fn, items, workers=NCPU, stop_after=int(os.environ.get("VERIF_STOP", "8"))):
        """Run fn over items in parallel. Harness exceptions propagate."""
        items = list(items)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = []
            it = iter(items)
            res = []

            def wrapped(x):
                if len(self.violations) >= stop_after:
                    return None
                return fn(x)
            for x in it:
                futs.append(ex.submit(wrapped, x))
            for f in futs:
                res.append(f.result())
        return res

    def tmp(self, name=""):
        d = tempfile.mkdtemp(prefix=name or "t", dir=self.scratch)
        os.chmod(d, 0o755)
        return d

    def finish(self, min_evals=1):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.counters)
        cov.update(self.extra)
        bad = bool(self.violations)
        if self.evaluations < min_evals and not bad:
            self.inconclusive.append("too few evaluations: %d < %d" % (self.evaluations, min_evals))
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k in self.known:
            if k["key"] in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %d evaluations, %d distinct non-trivial, %s, %.1fs" % (
            self.pid, self.evaluations, len(self.distinct),
            json.dumps(self.counters, sort_keys=True), time.monotonic() - self.t0))
        if bad:
            for key, d in self.violations.items():
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
            sys.stdout.flush()
            sys.exit(1)
        if self.inconclusive:
            print("INCONCLUSIVE: " + "; ".join(self.inconclusive[:5]))
            sys.exit(2)
        sys.exit(0)


def load_known(pid):
    """known_findings.txt: 'known: property=ID key=<key> :: what' and
    'fixed: property=ID commit what' (the latter suppress nothing)."""
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append({"key": m.group(2), "what": m.group(3)})
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                fixed.append(m.group(3))
    return known, fixed


def main(pid, fn, level="exploration"):
    ck = Check(pid, level)
    try:
        fn(ck)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def read_ends(path, limit=1 << 20):
    """The file, without its middle part if it is very big."""
    with open(path, "rb") as f:
        n = os.fstat(f.fileno()).st_size
        if n <= limit:
            return f.read()
        a = f.read(limit // 4)
        f.seek(n - limit * 3 // 4)
        return a + b"\n...\n" + f.read()


def walk_tree(root, content=True):
    """{relpath: (kind, mode, content/target)} of everything below root."""
    res = {}
    for d, dn, fn in os.walk(root):
        for x in dn + fn:
            p = os.path.join(d, x)
            st = os.lstat(p)
            r = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                res[r] = ("l", 0, os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                res[r] = ("d", stat.S_IMODE(st.st_mode), None)
            else:
                res[r] = ("f", stat.S_IMODE(st.st_mode), read(p) if content else None)
    return res


def quote(s):
    """A muon string literal for str s (text or surrogateescaped bytes)."""
    out = []
    for c in s:
        o = ord(c)
        if c == "\\":
            out.append("\\\\")
        elif c == "'":
            out.append("\\'")
        elif c == "\n":
            out.append("\\n")
        elif o < 32 or o == 127:
            out.append("\\%03o" % o)
        else:
            out.append(c)
    return "'" + "".join(out) + "'"
