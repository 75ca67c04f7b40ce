"""Random build graphs, their manifests, and a model of what a build of them must run and leave (C19, C20)."""
import hashlib, os, subprocess, time
import vlib

M64 = (1 << 64) - 1


def bt():
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bt.c")
    os.makedirs(vlib.BUILDROOT, exist_ok=True)
    out = os.path.join(vlib.BUILDROOT, "bt-" + hashlib.sha256(vlib.read(src)).hexdigest()[:12])
    import fcntl
    with open(os.path.join(vlib.BUILDROOT, ".lock-bt"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            subprocess.run(["gcc", "-O1", "-w", "-o", out + ".tmp", src], check=True)
            os.rename(out + ".tmp", out)
    return out


def shq(s):
    return "'" + s.replace("'", "'\\''") + "'"


def nesc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def nval(s):
    return s.replace("$", "$$")


class Edge:
    """One command: ins (explicit), imp (implicit), order (order-only); restat, dep in (None, gcc, plain)."""
    def __init__(self, eid):
        self.id = eid
        self.ins, self.imp, self.order, self.outs, self.nexp = [], [], [], [], 1
        self.param, self.coarse, self.restat, self.dep, self.dotslash = "0", False, False, None, False
        self.pool, self.rsp, self.bare = None, None, False

    def depfile(self):
        return self.outs[0] + ".d"

    def sig(self):
        """What the command line is: two edges with the same signature have the same command."""
        return repr((self.id, self.ins, self.imp, self.outs, self.nexp, self.param, self.coarse, self.restat, self.dep,
                     self.dotslash, self.rsp))


class Graph:
    def __init__(self, r, tool, names="all", size=None):
        self.r, self.tool = r, tool
        self.now = 1
        self.src = {}        # path -> (text, [includes])
        self.stamp = {}      # path -> logical time of the last change; absent: no such file
        self.content = {}    # path -> text of generated files as they are on disk (model)
        self.edges = {}
        self.phony = {}      # name -> list of paths
        self.pools = {}
        self.rec = {}        # output -> (sig, stamp) as the build log should have it
        self.deps = {}       # first output -> (list of dependency paths, stamp)
        self.default = None
        self.regen = False
        self.used_names = set()
        self.names = names
        self.allowed = {}    # source -> generated headers it may include
        self.generate(size or r.choice([3, 5, 8, 13, 21, 34]))

    # ---- names
    def name(self, kind):
        r = self.r
        while True:
            base = "%s%d" % (kind, r.randrange(1000))
            if self.names == "all" and r.random() < .4:
                base = r.choice(["%s x", "%s$y", "ü%s", "%s(1)", "%s=2", "~%s", "%s'q", "%s%%", "%s&a", "%s+", "%s@", "%s,b", "%s#h",
                                 "[%s]", "{%s}", "%s;", "-%s", "%s\xa0z", "%s!", "日%s"]) % base
            d = r.choice(["", "", "", "d/", "d/e/", "sub dir/", "./"] if self.names == "all" else ["", "d/"])
            p = (d + base)
            if d == "" and base.startswith("-"):
                continue
            if p.startswith("./"):
                p = p[2:]
                if p.startswith("-"):
                    continue
            if p not in self.used_names:
                self.used_names.add(p)
                return p

    def tick(self):
        self.now += 1
        return self.now

    def newsrc(self, kind="s", inc=()):
        p = self.name(kind)
        self.src[p] = ("%s v%d" % (kind, self.r.randrange(10 ** 9)), list(inc))
        self.stamp[p] = self.tick()
        return p

    def text(self, p):
        t, inc = self.src[p]
        return t + "\n" + "".join("inc %s\n" % i for i in inc) + "END\n"

    # ---- making
    def generate(self, n):
        r = self.r
        self.headers = []
        for i in range(r.randrange(0, 6)):
            self.headers.append(self.newsrc("h", r.sample(self.headers, min(len(self.headers), r.randrange(0, 3)))))
        self.plain = [self.newsrc() for _ in range(r.randrange(1, 8))]
        for i in range(r.choice([0, 1, 2])):
            self.pools["pool%d" % i] = r.randrange(1, 4)
        ngen = r.randrange(0, max(1, n // 2) + 1)
        for i in range(n):
            self.addedge(gen=i < ngen)
        for i in range(r.choice([0, 0, 1, 2, 3])):
            outs = self.allouts()
            self.phony["ph%d" % i] = r.sample(outs + self.plain, min(len(outs), r.randrange(1, 4)))
        # some edges depend on a phony target that is defined by outputs of earlier edges
        if r.random() < .3:
            self.default = r.sample(self.allouts(), r.randrange(1, min(4, len(self.allouts())) + 1))

    def allouts(self):
        return [o for e in self.edges.values() for o in e.outs]

    def addedge(self, gen=False):
        r = self.r
        e = Edge("e%d" % r.randrange(10 ** 6))
        while e.id in self.edges:
            e.id = "e%d" % r.randrange(10 ** 6)
        prev = self.allouts()
        cand = self.plain + prev + prev
        e.ins = r.sample(sorted(set(cand)), min(len(set(cand)), r.choice([0, 1, 1, 2, 3])))
        # a source of its own, whose includes are followed
        if r.random() < .6:
            if r.random() < .6:
                e.dep = r.choice(["gcc", "gcc", "plain"])
            s = self.newsrc("c")
            gens = r.sample(prev, min(len(prev), r.randrange(0, 3))) if e.dep else []
            self.allowed[s] = gens
            pool = self.headers + gens
            t, _ = self.src[s]
            self.src[s] = (t, r.sample(pool, min(len(pool), r.randrange(0, 4))) if e.dep else [])
            e.ins.append(s)
            e.order = list(gens)
            e.dotslash = r.random() < .3
        e.imp = [x for x in r.sample(sorted(set(cand)), min(len(set(cand)), r.choice([0, 0, 1, 2]))) if x not in e.ins]
        if r.random() < .2 and prev:
            e.order += [x for x in r.sample(prev, 1) if x not in e.order]
        if r.random() < .1 and self.phony_ok():
            pass
        e.outs = [self.name("o") for _ in range(r.choice([1, 1, 1, 1, 2, 3]))]
        e.nexp = r.randrange(1, len(e.outs) + 1)
        e.param = str(r.randrange(10 ** 6))
        e.restat = r.random() < .35
        e.coarse = r.random() < .5
        if self.pools and r.random() < .5:
            e.pool = r.choice(sorted(self.pools))
        elif r.random() < .1:
            e.pool = "console"
        if r.random() < .15:
            e.rsp = "rsp %d" % r.randrange(10 ** 6)
        e.bare = r.random() < .3
        self.edges[e.id] = e
        # a phony alias between edges
        if r.random() < .15:
            p = "alias%d" % len(self.phony)
            self.phony[p] = [r.choice(e.outs)] + ([r.choice(self.plain)] if r.random() < .5 else [])
            e2 = self.addedge()
            r.choice([e2.order, e2.order, e2.imp]).append(p)
        return e

    def phony_ok(self):
        return False

    # ---- reading the graph
    def producers(self):
        return {o: e for e in self.edges.values() for o in e.outs}

    def expand(self, paths):
        out = []
        for p in paths:
            if p in self.phony:
                out += self.expand(self.phony[p])
            else:
                out.append(p)
        return out

    def goal(self, targets=None):
        if targets is None:
            if self.default is not None:
                return list(self.default)
            used = set()
            for e in self.edges.values():
                used.update(e.ins + e.imp + e.order)
            for v in self.phony.values():
                used.update(v)
            return [o for o in self.allouts() if o not in used] + [p for p in self.phony if p not in used]
        return targets

    def realins(self, e):
        """What the command reads, without the dependency file: phony names are no files."""
        return [x for x in e.ins + e.imp if x not in self.phony]

    # ---- files
    def bits(self, base, first=False):
        """Write sources that changed; returns nothing. Real times follow because writes take place later."""
        for p in self.src:
            if p in self.stamp:
                self.put(base, p)

    def put(self, base, p):
        f = os.path.join(base, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as h:
            h.write(self.text(p))

    def spell(self, p):
        r = self.r
        q = p
        k = r.random()
        if k < .1:
            q = "./" + p
        elif k < .2:
            q = "zz/../" + p
        elif k < .25 and "/" in p:
            q = p.replace("/", "//", 1)
        return nesc(q)

    def manifest(self, log):
        r, L = self.r, []
        L.append("ninja_required_version = 1.5")
        L.append("tool = " + nval(self.tool))
        L.append("log = " + nval(log))
        if r.random() < .3:
            L.append("builddir = bd")
        # commands are spelled out per edge (bare), or come from a shared rule
        L += ["rule shared", "  command = $tool -l $log -i $id -p $param $flags -o $outputs -- $in $more", "  restat = $rs",
              "  description = run $id"]
        for p, d in self.pools.items():
            L += ["pool " + p, "  depth = %d" % d]
        body = []
        for e in self.edges.values():
            b = []
            flags = []
            if e.coarse:
                flags.append("-c")
            if e.restat:
                flags.append("-r")
            if e.dotslash:
                flags += ["-D", "x"]
            if e.dep:
                flags += ["-d", shq(e.depfile()), "-t", shq(e.outs[0])]
            if e.rsp is not None:
                flags += ["-R", shq(e.id + ".rsp")]
            flags = " ".join(flags)
            exp, imp = e.outs[:e.nexp], e.outs[e.nexp:]
            ins = [x for x in e.ins if x not in self.phony]
            more = " ".join(shq(x) for x in e.imp if x not in self.phony)
            line = "build %s%s: @RULE@%s" % (" ".join(map(self.spell, exp)), (" | " + " ".join(map(self.spell, imp))) if imp else "",
                                         "".join(" " + self.spell(x) for x in ins))
            if e.imp:
                line += " | " + " ".join(map(self.spell, e.imp))
            if e.order:
                line += " || " + " ".join(map(self.spell, e.order))
            vs = []
            if e.dep:
                vs.append("  depfile = " + nval(e.depfile()))
            if e.dep == "gcc":
                vs.append("  deps = gcc")
            if e.pool:
                vs.append("  pool = " + e.pool)
            if e.rsp is not None:
                vs += ["  rspfile = %s.rsp" % e.id, "  rspfile_content = " + nval(e.rsp)]
            if e.bare:
                b += ["rule r_" + e.id, "  command = $tool -l $log -i %s -p %s %s -o %s -- $in %s" % (
                    e.id, e.param, nval(flags), nval(" ".join(map(shq, e.outs))), nval(more))]
                b += vs
                if e.restat:
                    b.append("  restat = 1")
                b.append(line.replace("@RULE@", "r_" + e.id))
            else:
                b.append(line.replace("@RULE@", "shared"))
                b += ["  id = " + e.id, "  param = " + e.param, "  flags = " + nval(flags),
                      "  outputs = " + nval(" ".join(map(shq, e.outs))), "  more = " + nval(more)] + vs
                if e.restat:
                    b.append("  rs = 1")
            body.append("\n".join(b))
        for p, v in self.phony.items():
            body.append("build %s: phony %s" % (p, " ".join(map(self.spell, v))))
        r.shuffle(body)
        L += body
        if self.default is not None:
            L.append("default " + " ".join(map(self.spell, self.default)))
        # restat must be unset, not empty text, when it is off
        return "\n".join(L).replace("  restat = $rs\n", "  restat = $rs\n") + "\n"

    # ---- the model
    def digest(self, parts):
        h = 1469598103934665603
        for b in parts:
            for c in b:
                h = ((h ^ c) * 1099511628211) & M64
        return h

    def reads(self, e, get):
        """(bytes the digest takes, list of included files) of one run of e, file texts given by get."""
        parts, deps = [e.param.encode()], []
        if e.rsp is not None:
            parts += [b"@", e.rsp.encode()]

        def rd(p):
            t = get(p)
            parts.extend([b"<", t.encode(), b">"])
            if e.dep and p in self.src:
                for i in self.src[p][1]:
                    if i not in deps:
                        deps.append(i)
                        rd(i)
        for p in [x for x in e.ins if x not in self.phony] + [x for x in e.imp if x not in self.phony]:
            rd(p)
        return parts, deps

    def result(self, e, get):
        parts, deps = self.reads(e, get)
        h = self.digest(parts)
        if e.coarse:
            h ^= h >> 32
            h = (h ^ (h >> 16)) % 3
        return {o: "%016x %d\nEND\n" % (h, i) for i, o in enumerate(e.outs)}, deps

    def scratch(self, targets=None):
        """Contents a build from scratch leaves, for every output it makes."""
        prod, out = self.producers(), {}

        def get(p):
            if p in self.src:
                return self.text(p)
            make(prod[p])
            return out[p]
        done = set()

        def make(e):
            if e.id in done:
                return
            done.add(e.id)
            for p in self.expand(e.order + e.ins + e.imp):
                if p in prod:
                    make(prod[p])
            out.update(self.result(e, get)[0])
        for t in self.expand(self.goal(targets)):
            if t in prod:
                make(prod[t])
        return out

    def nonorder(self, e):
        """Inputs that make e stale when they change, or None when what they are is not known."""
        l = self.expand(e.ins + e.imp)
        if e.dep:
            d = self.deps.get(e.outs[0])
            if d is None:
                return None
            l += d[0]
        return l

    def plan(self, targets=None, fails=()):
        """Edges a correct build must run, in an order it may run them, as the state is now; also the closure."""
        prod = self.producers()
        st, content = dict(self.stamp), dict(self.content)
        runs, seen, blocked = [], {}, set()
        now = [self.now]

        def visit(e):
            if e.id in seen:
                return
            seen[e.id] = e
            no = self.nonorder(e)
            for p in self.expand(e.order + e.ins + e.imp) + (no or []):
                if p in prod:
                    visit(prod[p])
                    if prod[p].id in blocked:
                        blocked.add(e.id)
            need = no is None
            if not need:
                for o in e.outs:
                    rec = self.rec.get(o)
                    if o not in st or rec is None or rec[0] != e.sig():
                        need = True
                        break
                    if any(p not in st or st[p] > rec[1] for p in no):
                        need = True
                        break
                if e.dep == "gcc" and e.outs[0] in st and st[e.outs[0]] > self.deps[e.outs[0]][1]:
                    need = True
            if not need:
                return
            if e.id in blocked:
                return
            runs.append(e.id)
            if e.id in fails:
                blocked.add(e.id)
                return
            now[0] += 1
            got, _ = self.result(e, lambda p: self.text(p) if p in self.src else content[p])
            for o, t in got.items():
                if not (e.restat and o in st and content.get(o) == t):
                    st[o] = now[0]
                    content[o] = t
        for t in self.expand(self.goal(targets)):
            if t in prod:
                visit(prod[t])
        return runs, seen

    def ran(self, eid):
        """Account for a finished run of eid."""
        e = self.edges[eid]
        t = self.tick()
        got, deps = self.result(e, lambda p: self.text(p) if p in self.src else self.content[p])
        for o, c in got.items():
            if not (e.restat and o in self.stamp and self.content.get(o) == c):
                self.stamp[o] = t
                self.content[o] = c
            self.rec[o] = (e.sig(), t)
        if e.dep:
            self.deps[e.outs[0]] = ([p for p in e.ins + e.imp if p not in self.phony] + deps, t)

    def failed(self, eid, mode):
        e = self.edges[eid]
        t = self.tick()
        for o in e.outs:
            self.rec.pop(o, None)
        if mode in ("fail", "kill"):
            self.stamp[e.outs[0]] = t
            self.content[e.outs[0]] = "?"
        elif mode == "faillate":
            for o in e.outs:
                self.stamp[o] = t
                self.content[o] = "?"
        if e.dep:
            pass

    def loaded(self):
        """A build read the log: records of outputs nothing produces now are dropped."""
        prod = self.producers()
        for o in list(self.rec):
            if o not in prod:
                del self.rec[o]
        for o in list(self.deps):
            if o not in prod or prod[o].outs[0] != o:
                del self.deps[o]

    # ---- edits; each returns a short description
    def edit(self, base):
        r = self.r
        k = r.choice(["src", "src", "src", "touch", "hdr", "hdr", "inc", "inc", "delout", "delout", "deldep", "param", "param", "flag",
                      "add", "del", "order", "pool", "touchout", "movein", "depmode", "dropheader", "rsp", "default", "dellog", "deldeps"])
        es = sorted(self.edges)
        e = self.edges[r.choice(es)]
        if k in ("src", "touch"):
            p = r.choice(sorted(set(x for x in self.src if x not in self.headers and x in self.stamp)))
            return self.change(base, p, k == "src")
        if k == "hdr" and self.headers:
            return self.change(base, r.choice(self.headers), True)
        if k == "inc":
            c = [s for s in self.allowed if s in self.src and any(x.dep and s in x.ins for x in self.edges.values())]
            if not c:
                return None
            s = r.choice(sorted(c))
            pool = self.headers + self.allowed[s]
            t, _ = self.src[s]
            self.src[s] = (t, r.sample(pool, min(len(pool), r.randrange(0, 4))))
            self.put(base, s)
            self.stamp[s] = self.tick()
            return "includes of " + s
        if k == "delout":
            o = r.choice(e.outs)
            if o in self.stamp and os.path.exists(os.path.join(base, o)):
                os.unlink(os.path.join(base, o))
                del self.stamp[o]
                self.content.pop(o, None)
                return "delete " + o
        if k == "deldep":
            c = [x for x in self.edges.values() if x.dep == "plain" and os.path.exists(os.path.join(base, x.depfile()))]
            if c:
                x = r.choice(c)
                os.unlink(os.path.join(base, x.depfile()))
                self.deps.pop(x.outs[0], None)
                return "delete " + x.depfile()
        if k == "param":
            e.param = str(r.randrange(10 ** 6))
            return "command of " + e.id
        if k == "flag":
            if r.random() < .5:
                e.restat = not e.restat
            else:
                e.coarse = not e.coarse
            return "flags of " + e.id
        if k == "add":
            return "add " + self.addedge2(base).id
        if k == "del" and len(self.edges) > 2:
            self.remove(e)
            return "remove " + e.id
        if k == "order":
            keep = [g for s in e.ins for g in self.allowed.get(s, [])]
            prev = []
            for x in self.edges.values():
                if x is e:
                    break
                prev += x.outs
            e.order = list(dict.fromkeys(keep + r.sample(prev, min(len(prev), r.randrange(0, 3)))))
            return "order of " + e.id
        if k == "pool":
            e.pool = r.choice([None, "console"] + sorted(self.pools))
            for p in self.pools:
                self.pools[p] = r.randrange(1, 4)
            return "pools"
        if k == "touchout":
            o = r.choice(e.outs)
            if o in self.stamp and os.path.exists(os.path.join(base, o)):
                os.utime(os.path.join(base, o))
                self.stamp[o] = self.tick()
                return "touch " + o
        if k == "movein":
            c = [x for x in e.ins if x not in self.allowed]
            if c:
                x = r.choice(c)
                e.ins.remove(x)
                if x not in e.imp:
                    e.imp.append(x)
                return "implicit %s in %s" % (x, e.id)
        if k == "depmode" and e.dep:
            # what was recorded in the other way is not looked at any more
            if e.dep == "gcc":
                e.dep = "plain"
            else:
                e.dep = "gcc"
            self.deps.pop(e.outs[0], None)
            f = os.path.join(base, e.depfile())
            if os.path.exists(f):
                os.unlink(f)
            for o in e.outs:
                self.rec.pop(o, None)
            e.param += "0"
            return "dependency style of " + e.id
        if k == "dropheader" and self.headers:
            h = r.choice(self.headers)
            for s in list(self.src):
                t, inc = self.src[s]
                if h in inc:
                    self.src[s] = (t, [i for i in inc if i != h])
                    self.put(base, s)
                    self.stamp[s] = self.tick()
            self.headers.remove(h)
            os.unlink(os.path.join(base, h))
            del self.stamp[h]
            del self.src[h]
            return "drop header " + h
        if k == "rsp" and e.rsp is not None:
            e.rsp = "rsp %d" % r.randrange(10 ** 6)
            return "response file of " + e.id
        if k == "default":
            outs = self.allouts()
            self.default = r.sample(outs, r.randrange(1, min(4, len(outs)) + 1)) if r.random() < .6 else None
            return "default"
        if k == "dellog" and r.random() < .3:
            for d in ("", "bd/"):
                f = os.path.join(base, d + ".ninja_log")
                if os.path.exists(f):
                    os.unlink(f)
            self.rec.clear()
            return "delete the log"
        if k == "deldeps" and r.random() < .3:
            for d in ("", "bd/"):
                f = os.path.join(base, d + ".ninja_deps")
                if os.path.exists(f):
                    os.unlink(f)
            for x in self.edges.values():
                if x.dep == "gcc":
                    self.deps.pop(x.outs[0], None)
            return "delete the dependency log"
        return None

    def change(self, base, p, text):
        if text:
            t, inc = self.src[p]
            self.src[p] = (t.split(" v")[0] + " v%d" % self.r.randrange(10 ** 9), inc)
        self.put(base, p)
        self.stamp[p] = self.tick()
        return "%s %s" % ("edit" if text else "touch", p)

    def addedge2(self, base):
        before = set(self.src)
        e = self.addedge()
        for s in set(self.src) - before:
            self.put(base, s)
        return e

    def remove(self, e):
        del self.edges[e.id]
        gone = set(e.outs)
        for x in self.edges.values():
            for l in (x.ins, x.imp, x.order):
                l[:] = [p for p in l if p not in gone]
        for s in list(self.allowed):
            self.allowed[s] = [p for p in self.allowed[s] if p not in gone]
        for s in list(self.src):
            t, inc = self.src[s]
            if any(i in gone for i in inc):
                self.src[s] = (t, [i for i in inc if i not in gone])
                if s in self.stamp:
                    self.pending.add(s)
        for p in list(self.phony):
            self.phony[p] = [x for x in self.phony[p] if x not in gone]
            if not self.phony[p]:
                self.phony[p] = [self.plain[0]]
        if self.default is not None:
            self.default = [p for p in self.default if p not in gone] or None

    pending = None


class Site:
    """A build directory with its graph: edits it, runs muon's ninja in it and reads the record of what ran."""
    def __init__(self, ck, g, base, muon, env=None):
        self.ck, self.g, self.base, self.muon, self.env = ck, g, base, muon, env
        g.pending = set()
        self.log = os.path.join(base, "run.log")
        os.makedirs(os.path.join(base, "ctl"), exist_ok=True)
        os.makedirs(os.path.join(base, "zz"), exist_ok=True)
        g.bits(base)
        self.bd = g.r.random() < .2
        self.regen = g.r.random() < .2
        self.write_manifest(first=True)
        self.own()

    def own(self):
        if os.getuid() == 0:
            subprocess.run(["chown", "-R", "65534:65534", self.base])

    def write_manifest(self, first=False):
        text = self.g.manifest("run.log").replace("builddir = bd\n", "")
        if self.bd:
            text = "builddir = bd\n" + text
        if self.regen:
            text += "rule regen\n  command = cp build.ninja.in build.ninja\n  generator = 1\nbuild build.ninja: regen build.ninja.in\n"
            vlib.write(os.path.join(self.base, "build.ninja.in"), text)
            if first:
                vlib.write(os.path.join(self.base, "build.ninja"), text)
        else:
            vlib.write(os.path.join(self.base, "build.ninja"), text)
        self.text = text

    def flush(self):
        for s in self.g.pending:
            self.g.put(self.base, s)
            self.g.stamp[s] = self.g.tick()
        self.g.pending.clear()
        self.own()

    def ctl(self, table):
        d = os.path.join(self.base, "ctl")
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for k, v in table.items():
            vlib.write(os.path.join(d, k), v)

    def events(self):
        if not os.path.exists(self.log):
            return []
        out = []
        for l in vlib.read(self.log).decode("utf-8", "replace").splitlines():
            p = l.split("\t")
            if len(p) >= 3:
                out.append((p[0], p[1], p[2]))
        return out

    def build(self, args, timeout=60):
        if os.path.exists(self.log):
            os.unlink(self.log)
        return vlib.run([self.muon, "samu", "-C", self.base] + args, cwd="/", env=self.env, timeout=timeout, user=65534, merge=True)

    def text_of(self, o):
        try:
            return vlib.read(os.path.join(self.base, o)).decode("utf-8", "replace")
        except OSError:
            return None


def schedule_faults(g, ev, jobs, closure):
    """What is wrong with the order in which things ran, as a list of (kind, text)."""
    bad, active, ended, started = [], [], set(), {}
    prod = g.producers()
    ran = {i for w, i, _ in ev if w == "S"}
    for w, i, arg in ev:
        e = g.edges.get(i)
        if w == "S":
            if e is None:
                bad.append(("unknown", "a command of no edge ran: " + i))
                continue
            if i in started:
                bad.append(("twice", "%s ran twice" % i))
            started[i] = True
            need = g.expand(e.order + e.ins + e.imp) + [d for d in (g.deps.get(e.outs[0]) or ([],))[0]]
            for p in need:
                q = prod.get(p)
                if q is not None and q.id in ran and q.id not in ended:
                    bad.append(("order", "%s started before %s, which makes its input %s, had ended" % (i, q.id, p)))
            active.append(i)
            if len(active) > jobs:
                bad.append(("jobs", "%d commands at once with -j%d" % (len(active), jobs)))
            if e.pool:
                k = sum(1 for a in active if g.edges[a].pool == e.pool)
                lim = 1 if e.pool == "console" else g.pools[e.pool]
                if k > lim:
                    bad.append(("pool", "%d commands at once in pool %s of depth %d" % (k, e.pool, lim)))
        elif w in "EF":
            if i in active:
                active.remove(i)
            if w == "E":
                ended.add(i)
        elif w == "B":
            bad.append(("incomplete", "%s read %s before it was complete" % (i, arg)))
        elif w == "M":
            bad.append(("missing", "%s found its input %s missing" % (i, arg)))
        elif w == "O":
            bad.append(("directory", "%s could not create %s" % (i, arg)))
    return bad
