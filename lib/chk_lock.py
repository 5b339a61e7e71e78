"""P08, P09: sessions of several processes; also the spellings part of P21."""
import json, os, queue, random, shutil, subprocess, threading, time
from dupilib import *
from vlib import ToolError

LONG = 25        # seconds without an answer after which a request counts as stuck
SHORT = 0.12     # how long an unexpected answer is waited for


class Actor:
    """a process executing operations, several at a time"""
    n = 0

    def __init__(self, drv, cwd):
        self.p = subprocess.Popen([drv, "actor"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd)
        self.q = queue.Queue()
        self.next = 0
        self.err = b""
        threading.Thread(target=self.read, daemon=True).start()
        threading.Thread(target=self.reade, daemon=True).start()

    def reade(self):
        for ln in self.p.stderr:
            if len(self.err) < 20000:
                self.err += ln

    def read(self):
        for ln in self.p.stdout:
            try:
                self.q.put(json.loads(ln))
            except ValueError:
                break
        self.q.put(None)

    def send(self, op):
        self.next += 1
        o = dict(op, I=self.next)
        try:
            self.p.stdin.write((json.dumps(o) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass
        return self.next

    def kill(self):
        self.p.kill()
        self.p.wait()


class Fleet:
    """actors, the requests under way and the events so far"""

    def __init__(self, chk, cwd=None, nactors=2):
        self.chk, self.drv = chk, chk.build_driver()
        self.cwds = cwd if isinstance(cwd, list) else [cwd or chk.dir] * nactors
        self.actors = [Actor(self.drv, c) for c in self.cwds]
        self.pending = {}        # (actor number, request) -> (mk, tag, answer box)
        self.events = []
        self.dead = False
        self.skipped = False

    def close(self):
        for a in self.actors:
            a.kill()

    def ask(self, a, op, mk, tag=None, at=None):
        """at: place of its events among the events"""
        key = (a, self.actors[a].send(op))
        self.pending[key] = (mk, tag, at)
        return key

    def poll(self, timeout):
        """the next answer [(key, tag, events)] within the time, or None"""
        end = time.time() + timeout
        while True:
            for n, a in enumerate(self.actors):
                try:
                    r = a.q.get_nowait()
                except queue.Empty:
                    continue
                if r is None:
                    time.sleep(0.1)
                    err = a.err.decode(errors="replace")
                    if "go-air/dupi" in err and ("panic:" in err or "fatal error" in err):
                        self.events.append(dict(e="panic", what=err[:300], stack=err[:3000]))
                        self.dead = True
                        return None
                    raise ToolError("actor died: " + err[-2000:])
                key = (n, r["i"])
                if key not in self.pending:
                    continue
                mk, tag, at = self.pending.pop(key)
                ev = event(mk, r)
                at = len(self.events) if at is None else at
                self.events[at:at] = ev
                if any(e["e"] in ("panic", "hang") for e in ev):
                    self.dead = True
                return key, tag, ev
            if time.time() > end:
                return None
            time.sleep(0.002)

    def call(self, a, op, mk, timeout=LONG * 2):
        """an operation nothing stands in the way of"""
        key = self.ask(a, op, mk)
        end = time.time() + timeout
        got = []
        while time.time() < end and not self.dead:
            r = self.poll(0.5)
            if r and r[0] == key:
                return r[2], got
            if r:
                got.append(r)
        if not self.dead:
            self.events.append(dict(e="hang", what="%s not answered in %ds" % (op.get("Op"), timeout)))
            self.dead = True
        return None, got

    def kill(self, a):
        self.actors[a].kill()
        for k in [k for k in self.pending if k[0] == a]:
            del self.pending[k]
        self.actors[a] = Actor(self.drv, self.cwds[a])


class Scheduler:
    """Executes a schedule of requests; the events are judged by the
    specification, this only follows which requests can be answered."""

    def __init__(self, chk, words, rng, roots, spell=None, nactors=2, cwd=None):
        self.chk, self.words, self.rng, self.roots = chk, words, rng, roots
        self.f = Fleet(chk, cwd=cwd, nactors=nactors)
        self.spell = spell or (lambda r, a: r)
        self.open = {}          # session -> (actor, kind, root, handle, cfg, documents)
        self.wait = {}          # session -> (actor, kind, root)
        self.docs = {}          # root -> committed documents (for choosing lookups only)
        self.cfgs = {}
        self.count = 0
        self.ndoc = 0

    @staticmethod
    def conflict(k1, k2):
        return not (k1 == "openr" and k2 == "openr")

    def grantable(self, s):
        a, k, r = self.wait[s][:3]
        return all(o[2] != r or not self.conflict(k, o[1]) for o in self.open.values())

    def ask(self, s, kind, root, actor):
        if s in self.open or s in self.wait or self.f.dead:
            return
        self.count += 1
        h = "%s.%d" % (s, self.count)
        b = Script()
        sp = self.spell(root, actor)
        c = None
        if kind == "create":
            c = cfg(k=self.rng.choice([1, 2]), n=self.rng.choice([1, 1, 2]), w=self.rng.choice([1, 3]))
            b.create(root, h, c, Root=sp)
        elif kind == "openw":
            b.openw(root, h, spell=sp)
        else:
            b.openr(root, h, spell=sp)
        self.f.ask(actor, b.ops[0], b.mk[0], tag=(s, h))
        self.wait[s] = (actor, kind, root, h, c)
        self.settle()

    def settle(self):
        """waits for the answers that have to come, and a moment for others"""
        quiet = time.time()
        while not self.f.dead:
            must = [s for s in self.wait if self.grantable(s)]
            left = (LONG if must else SHORT) - (time.time() - quiet)
            if left <= 0:
                break
            r = self.f.poll(min(left, 0.25))
            if r:
                self.answered(r)
                quiet = time.time()
            if not self.wait:
                return
        if not self.f.dead and any(self.grantable(s) for s in self.wait):
            self.f.events.append(dict(e="waiting", x=[dict(k=w[1], r=w[2]) for w in self.wait.values()]))
            self.f.dead = True

    def answered(self, r):
        key, tag, ev = r
        if tag is None:
            return
        s, h = tag
        if s not in self.wait or self.wait[s][3] != h:
            return
        a, k, root, h, c = self.wait.pop(s)
        if ev and ev[0].get("ok"):
            if k == "create":
                self.cfgs[root] = c
                self.docs[root] = []
            self.open[s] = [a, k, root, h, c, []]
            if k == "openr":
                self.look(s)

    def look(self, s):
        a, k, root, h, c, d = self.open[s]
        b = Script()
        b.getall(h).stats(h)
        for o, m in zip(b.ops, b.mk):
            if not self.f.dead:
                for x in self.f.call(a, o, m)[1]:
                    self.answered(x)

    def add(self, s):
        if s not in self.open or self.open[s][1] == "openr" or self.f.dead:
            return
        a, k, root, h, c, mine = self.open[s]
        ds = []
        for _ in range(self.rng.randint(1, 3)):
            ws = [0, 1, 2, 3][: self.rng.randint(1, 4)] + [self.rng.randrange(20) for _ in range(4)]
            self.ndoc += 1
            ds.append(Doc("/lock/%d" % self.ndoc, ws, render(self.rng, ws)))
        b = Script().add(h, ds)
        for x in self.f.call(a, b.ops[0], b.mk[0])[1]:
            self.answered(x)

    def leave(self, s, how):
        """the session ends: from the moment this is asked others may get in"""
        if s not in self.open or self.f.dead:
            return
        a, k, root, h, c, mine = self.open[s]
        if k == "openr" and how == "close" and self.rng.random() < 0.5:
            self.look(s)
            if self.f.dead:
                return
        del self.open[s]
        b = Script()
        op = ("closer" if k == "openr" else "closew") if how == "close" else ("remover" if k == "openr" else "removew")
        b.sess(op, h)
        # its event stands where it was asked for
        key = self.f.ask(a, b.ops[0], b.mk[0], at=len(self.f.events))
        end = time.time() + 2 * LONG
        while key in self.f.pending and not self.f.dead:
            r = self.f.poll(0.5)
            if r and r[0] != key:
                self.answered(r)
            if time.time() > end:
                self.f.events.append(dict(e="hang", what=op + " not answered"))
                self.f.dead = True
        self.settle()

    def die(self, a):
        if self.f.dead or any(o[0] == a and o[1] == "create" for o in self.open.values()) \
                or any(w[0] == a and w[1] == "create" for w in self.wait.values()):
            return
        self.f.kill(a)
        hs = [o[3] for o in self.open.values() if o[0] == a]
        self.f.events.append(dict(e="die", hs=hs))
        self.open = {s: o for s, o in self.open.items() if o[0] != a}
        self.wait = {s: w for s, w in self.wait.items() if w[0] != a}
        self.settle()

    def finish(self):
        """everybody closes; then the indexes are looked at once more"""
        for _ in range(20):
            for s in list(self.open):
                self.leave(s, "close")
            self.settle()
            if self.f.dead or not (self.open or self.wait):
                break
        for r in self.roots:
            self.ask("last", "openr", r, 0)
            self.leave("last", "close")
        self.f.close()
        return self.f.events


def generate(chk, num, length=26):
    rc, out, st = chk.tlc("LockGen", "LockGen.cfg", args=["-simulate", "num=%d" % num, "-depth", "150", "-seed", str(chk.seed)],
                          workers=1, deadlock=False)
    seen, hs = set(), []
    for ln in out.splitlines():
        if ln.startswith('"{') and ln not in seen:
            seen.add(ln)
            hs.append(json.loads(json.loads(ln))["h"])
    if not hs:
        raise ToolError("no schedules:\n" + out[-2000:])
    random.Random(chk.seed).shuffle(hs)
    return hs[:num]


KIND = {"create": "create", "append": "openw", "read": "openr"}


def run_schedule(chk, words, seed, h, n, spell=None, cwd=None, nroots=2):
    rng = random.Random(seed)
    roots = [chk.path("lk%d" % n, x) for x in ("ix", "iy")][:nroots]
    sc = Scheduler(chk, words, rng, roots, spell=spell, nactors=3, cwd=cwd)
    actor = {"s%d" % i: i % 3 for i in range(1, 5)}
    try:
        sc.ask("s0", "create", roots[0], 0)
        sc.add("s0")
        sc.leave("s0", "close")
        for st in h:
            if sc.f.dead:
                break
            s = st["s"]
            if st["a"] == "ask":
                sc.ask(s, KIND[st["k"]], roots[0] if nroots == 1 or rng.random() < 0.85 else roots[1], actor[s])
            elif st["a"] == "add":
                sc.add(s)
            elif st["a"] == "die":
                sc.die(actor[s])
            else:
                if st["a"] == "close" and rng.random() < 0.3:
                    sc.add(s)
                sc.leave(s, st["a"])
        ev = sc.finish()
    finally:
        sc.f.close()
        for r in roots:
            shutil.rmtree(r, ignore_errors=True)
    return ev


def judge(chk, words, traces, names, what, only=()):
    bad = chk.validate("DupiTrace", traces, extra=dict(H=words.H, only=list(only)))
    for i, mm in sorted(bad.items()):
        line, kind = mm[-1]
        ev = traces[i][line - 1] if 0 < line <= len(traces[i]) else None
        chk.violation("%s: %s, event %d (%s): observed behaviour is not one of the specification (%s)" % (
            what, names[i], line, ev and ev.get("e"), kind),
            dict(schedule=names[i], event=ev, line=line, kind=kind, events=traces[i][:line]))
    return bad


def parallel(fn, items, par=6):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(fn, items))


def lockmodels(chk):
    chk.model("Lock", "MCLockBig.cfg" if chk.thorough else "MCLock.cfg", "sessions over the lock, step by step: exclusion, no leak, committed data read")
    chk.model("Lock", "MCLockLive.cfg", "a waiting session proceeds")
    chk.refuses("Lock", "MCLock.cfg", [[(x + " = TRUE", x + " = FALSE")] for x in ("CfgUnderLock", "AppendExcl", "FailReleases", "CloseReleases", "RemoveHolds")])


def patience(chk, words):
    """sessions that wait long: whoever waits goes on waiting, however long it takes"""
    def one(i):
        rng = random.Random("pt%d/%d" % (chk.seed, i))
        root = chk.path("pt%d" % i, "ix")
        sc = Scheduler(chk, words, rng, [root], nactors=4)
        try:
            sc.ask("a", "create", root, 0)
            sc.add("a")
            if i:
                sc.leave("a", "close")
                sc.ask("a", ["openw", "openr"][i % 2], root, 0)
            for s, k in zip("bcd", rng.sample([["openw", "openr", "create"], ["openw", "openw", "create"]][i % 2], 3)):
                sc.ask(s, k, root, rng.randrange(1, 4))
            end = time.time() + (200 if chk.thorough else 75)
            while time.time() < end and not sc.f.dead:
                r = sc.f.poll(0.5)
                if r:
                    sc.answered(r)
            for _ in range(4):
                for s in "abcd":
                    sc.add(s)
                    sc.leave(s, "close")
            return sc.finish()
        finally:
            sc.f.close()
            shutil.rmtree(root, ignore_errors=True)
    n = 3
    traces = parallel(one, range(n))
    chk.note(waited_long=n)
    return traces, ["patience-%d" % i for i in range(n)]


def p08(chk):
    lockmodels(chk)
    words = Words(chk)
    from concurrent.futures import ThreadPoolExecutor
    chk.build_driver()
    with ThreadPoolExecutor(1) as ex:
        long = ex.submit(patience, chk, words)
        p08_rest(chk, words)
        judge(chk, words, *long.result(), "P08 patience")


def p08_rest(chk, words):
    hs = generate(chk, 240 if chk.thorough else 24)
    traces = parallel(lambda x: run_schedule(chk, words, chk.seed * 1000 + x[0], x[1], x[0]), list(enumerate(hs)))
    judge(chk, words, traces, [json.dumps([(s["a"], s["s"], s["k"]) for s in h]) for h in hs], "P08")
    handover(chk, words)
    chk.note(schedules=len(hs), requests=sum(1 for t in traces for e in t if e["e"] in ("create", "openw", "openr")),
             deaths=sum(1 for t in traces for e in t if e["e"] == "die"))
    chk.sample([(s["a"], s["s"], s["k"]) for s in hs[0]])


def handover(chk, words):
    """many rounds of one session ending while several others wait for it"""
    def one(i):
        rng = random.Random("%d/%d" % (chk.seed, i))
        root = chk.path("ho%d" % i, "ix")
        sc = Scheduler(chk, words, rng, [root], nactors=4)
        try:
            for rnd in range(8 if chk.thorough else 4):
                first = "create" if rnd == 0 else rng.choice(["openw", "openw", "openr"])
                sc.ask("a", first, root, 0)
                if "a" not in sc.open:
                    sc.ask("a", "create", root, 0)
                sc.add("a")
                for j, s in enumerate("bcde"[: rng.randint(1, 4)]):
                    sc.ask(s, rng.choice(["openw", "openr", "create", "openw"]), root, rng.randrange(4))
                sc.leave("a", "remove" if rng.random() < 0.3 else "close")
                for s in "bcde":
                    sc.add(s)
                for _ in range(8):
                    for s in "bcde":
                        sc.leave(s, "remove" if rng.random() < 0.1 else "close")
            return sc.finish()
        finally:
            sc.f.close()
            shutil.rmtree(root, ignore_errors=True)
    n = 40 if chk.thorough else 10
    traces = parallel(one, range(n))
    judge(chk, words, traces, ["handover-%d" % i for i in range(n)], "P08")
    chk.note(handovers=n)
    removals(chk, words)
    lockfiles(chk)


def lockfiles(chk):
    """package lock by itself"""
    chk.model("LockFile", "MCLockFile.cfg", "lock file handles: exclusion, release, service")

    def one(i):
        rng = random.Random("lf%d/%d" % (chk.seed, i))
        f = Fleet(chk, nactors=3)
        paths = [chk.path("lf%d" % i, x) for x in ("p.lock", "q.lock")]
        H = {}        # handle -> [actor, path, mode held, mode asked for]
        try:
            def free(h, m):
                return all(g == h or x[1] != H[h][1] or x[2] == "no" or (m == "sh" and x[2] == "sh") for g, x in H.items())

            def settle():
                quiet = time.time()
                while not f.dead:
                    w = [h for h in H if H[h][3] != "no"]
                    if not w:
                        return
                    must = [h for h in w if free(h, H[h][3])]
                    left = (LONG if must else SHORT / 2) - (time.time() - quiet)
                    if left <= 0:
                        if must:
                            f.events.append(dict(e="waiting"))
                            f.dead = True
                        return
                    r = f.poll(min(left, 0.25))
                    if r:
                        quiet = time.time()
                        h = r[1]
                        H[h][2], H[h][3] = H[h][3], "no"
            n = 0
            for _ in range(60):
                if f.dead:
                    break
                act = rng.random()
                idle = [h for h in H if H[h][3] == "no"]
                if act < 0.2 and len(H) < 6:
                    n += 1
                    h, p, a = "h%d.%d" % (i, n), rng.choice(paths + paths[:1]), rng.randrange(3)
                    f.call(a, dict(Op="lnew", Root=p, H=h), lambda x: [dict(e="lnew", h=h, p=p, ok=x["ok"])])
                    H[h] = [a, p, "no", "no"]
                elif act < 0.55:
                    c = [h for h in idle if H[h][2] == "no"]
                    if c:
                        h, m = rng.choice(c), rng.choice(["sh", "ex"])
                        f.events.append(dict(e="ask", h=h, m=m))
                        H[h][3] = m
                        f.ask(H[h][0], dict(Op="lock" if m == "ex" else "lockshared", H=h),
                              lambda x, h=h: [dict(e="grant", h=h, ok=x["ok"])], tag=h)
                        settle()
                elif act < 0.97:
                    c = [h for h in idle if H[h][2] != "no"] or idle
                    if c:
                        h = rng.choice(c)
                        op = "unlock" if rng.random() < 0.75 else "lclose"
                        key = f.ask(H[h][0], dict(Op=op, H=h), lambda x, h=h, op=op: [dict(e=op, h=h, ok=x["ok"])], at=len(f.events), tag=h)
                        if op == "unlock":
                            H[h][2] = "no"
                        else:
                            del H[h]
                        end = time.time() + LONG
                        while key in f.pending and not f.dead:
                            r = f.poll(0.5)
                            if r and r[0] != key:
                                H[r[1]][2], H[r[1]][3] = H[r[1]][3], "no"
                            if time.time() > end:
                                f.events.append(dict(e="hang"))
                                f.dead = True
                        settle()
                else:
                    a = rng.randrange(3)
                    f.kill(a)
                    gone = [h for h in H if H[h][0] == a]
                    f.events.append(dict(e="die", hs=gone))
                    for h in gone:
                        del H[h]
                    settle()
            return f.events
        finally:
            f.close()
    n = 60 if chk.thorough else 12
    traces = parallel(one, range(n))
    bad = chk.validate("LockFileTrace", traces)
    for i, mm in sorted(bad.items()):
        line, kind = mm[-1]
        chk.violation("P08 lock files: trace %d, event %d: %s" % (i, line, kind), dict(events=traces[i][:line], kind=kind))
    chk.note(lock_handles=n)


def removals(chk, words, what="P08 removal"):
    """sessions waiting while the index is removed, and created anew in a
    different shape: a waiting session finds it gone, or finds the new one"""
    def one(i):
        rng = random.Random("rm%d/%d" % (chk.seed, i))
        root = chk.path("rv%d" % i, "ix")
        sc = Scheduler(chk, words, rng, [root], nactors=4)
        try:
            for rnd in range(5 if chk.thorough else 3):
                sc.ask("a", "create", root, 0)
                sc.add("a")
                if i % 2:
                    sc.leave("a", "close")
                    sc.ask("a", rng.choice(["openw", "openr"]), root, 0)
                # those waiting: an appender, and one that creates it again
                kinds = ["openw", "create", "openw"]
                rng.shuffle(kinds)
                for s, k in zip("bcd", kinds):
                    sc.ask(s, k, root, rng.randrange(1, 4))
                sc.leave("a", "remove")
                for _ in range(6):
                    for s in "bcd":
                        sc.add(s)
                        sc.leave(s, "close")
                sc.ask("z", "openw", root, 1)
                sc.add("z")
                sc.leave("z", "close")
                sc.ask("y", "openr", root, 2)
                sc.leave("y", "remove")
            return sc.finish()
        finally:
            sc.f.close()
            shutil.rmtree(root, ignore_errors=True)
    n = 40 if chk.thorough else 10
    traces = parallel(one, range(n))
    chk.note(removals_awaited=n)
    judge(chk, words, traces, ["removal-%d" % i for i in range(n)], what)


# --- P09 ------------------------------------------------------------------------
class Hist:
    """a history of operations by several processes, one at a time"""

    def __init__(self, chk, nactors=3):
        self.f = Fleet(chk, nactors=nactors)

    def do(self, a, fn, inj=False):
        """fn adds one operation to a Script; returns the event"""
        if self.f.dead:
            return {}
        b = Script()
        fn(b)
        mk = b.mk[0]
        if inj:
            mk = lambda x, mk=mk: [dict(e, inj=True) for e in b.mk[0](x)]
        ev = self.f.call(a, b.ops[0], mk)[0]
        return ev[0] if ev else {}

    def env(self, fn):
        """something done to the surroundings by the check itself; if that
        is not possible (no such file) the history ends here"""
        if not self.f.dead:
            try:
                fn()
            except (OSError, ValueError):
                self.f.dead = self.f.skipped = True

    def event(self, **e):
        if not self.f.dead:
            self.f.events.append(e)


def raw(op, ok=True):
    def fn(b):
        b.silent(**op)
    return fn


def damages(n):
    """(name, what is done to the directory, what undoes it, kinds of opening it makes fail)"""
    def away(f):
        def do(r):
            os.rename(os.path.join(r, f), r + ".away")
        def undo(r):
            os.rename(r + ".away", os.path.join(r, f))
        return do, undo

    def cut(f, frac):
        def do(r):
            p = os.path.join(r, f)
            shutil.copy(p, r + ".away")
            os.truncate(p, int(os.path.getsize(p) * frac))
        def undo(r):
            shutil.copy(r + ".away", os.path.join(r, f))
        return do, undo

    def put(f, content):
        def do(r):
            p = os.path.join(r, f)
            shutil.copy(p, r + ".away")
            b = content(open(p, "rb").read())
            open(p, "wb").write(b)
        def undo(r):
            shutil.copy(r + ".away", os.path.join(r, f))
        return do, undo

    def asdir(f):
        def do(r):
            os.rename(os.path.join(r, f), r + ".away")
            os.mkdir(os.path.join(r, f))
        def undo(r):
            os.rmdir(os.path.join(r, f))
            os.rename(r + ".away", os.path.join(r, f))
        return do, undo

    def js(**kw):
        def fn(b):
            d = json.loads(b)
            d.update(kw)
            return json.dumps(d).encode()
        return fn
    RW = ("openr", "openw")
    out = [("cfg.json missing",) + away("cfg.json") + (RW,), ("cfg.json empty",) + cut("cfg.json", 0) + (RW,),
           ("cfg.json cut",) + cut("cfg.json", 0.5) + (RW,), ("cfg.json garbage",) + put("cfg.json", lambda b: b"\x00\xff{") + (RW,),
           ("cfg.json shards 0",) + put("cfg.json", js(NumShards=0)) + (RW,),
           ("cfg.json workers 0",) + put("cfg.json", js(NumShatters=0)) + (RW,),
           ("cfg.json too many shards",) + put("cfg.json", js(NumShards=n + 1)) + (RW,),
           ("cfg.json sequence",) + put("cfg.json", js(SeqLen=0)) + (RW,),
           ("cfg.json tokenizer",) + put("cfg.json", js(TokenConfig=dict(Name="nosuch"))) + (RW,),
           ("cfg.json directory",) + asdir("cfg.json") + (RW,),
           ("files.fnm missing",) + away("files.fnm") + (RW,), ("files.fnm empty",) + cut("files.fnm", 0) + (RW,),
           ("files.fnm cut",) + cut("files.fnm", 0.6) + (RW,), ("files.fnm directory",) + asdir("files.fnm") + (RW,),
           ("dmd missing",) + away("dmd") + (("openr",),)]
    for i in range(n):
        p = "b%d.pos" % i
        out += [(p + " missing",) + away(p) + (RW,), (p + ".iix missing",) + away(p + ".iix") + (RW,),
                (p + ".iix cut",) + cut(p + ".iix", 0.7) + (RW,), (p + ".iix empty",) + cut(p + ".iix", 0) + (RW,),
                (p + ".iix directory",) + asdir(p + ".iix") + (RW,)]
    return out


def uv(v):
    out = b""
    while v >= 0x80:
        out += bytes([v & 0x7f | 0x80])
        v >>= 7
    return out + bytes([v])


def iv(v):
    return uv(v << 1 if v >= 0 else (-v << 1) - 1)


def garbled(rng, n):
    """(name, what is done to an index directory): damage that may or may not
    make opening fail"""
    def edit(f, fn):
        def do(r):
            p = os.path.join(r, f)
            b = fn(open(p, "rb").read())
            with open(p, "wb") as w:
                w.write(b)
        return do

    def flip(b):
        i, x = rng.randrange(len(b)), bytearray(b)
        x[i] ^= 1 << rng.randrange(8)
        return bytes(x)

    def over(b):
        i = rng.randrange(len(b))
        x = rng.choice([b"\xff" * 9, b"\x00" * 4, bytes(rng.randrange(256) for _ in range(6))])
        return b[:i] + x + b[i + len(x):]

    def gone(b):
        i = rng.randrange(len(b))
        return b[:i] + b[i + rng.randint(1, 3):]

    def more(b):
        i = rng.randrange(len(b) + 1)
        return b[:i] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 3))) + b[i:]

    def cut(b):
        return b[:rng.randrange(len(b))]

    files = ["cfg.json", "files.fnm", "dmd"] + ["b%d.pos%s" % (i, x) for i in range(n) for x in ("", ".iix")]
    out = []
    for f in files:
        for fn in (flip, over, gone, more, cut):
            if f == "cfg.json" and fn in (flip, over):
                continue        # another, valid, number of shards or workers
            out.append(("%s %s" % (f, fn.__name__), edit(f, fn)))
    # the table of paths: parents that do not exist, more entries or longer names than there are
    out += [("files.fnm " + w, edit("files.fnm", fn)) for w, fn in
            [("parent", lambda b: uv(2) + uv(0) + uv(0) + uv(1) + b"a" + uv(2)), ("far parent", lambda b: uv(2) + uv(0) + uv(0) + uv(1) + b"a" + uv(2**32 - 1)),
             ("count", lambda b: uv(2**32 - 1) + b[1:]), ("count 2^32", lambda b: uv(2**32) + b[1:]), ("no entries", lambda b: uv(0)),
             ("long name", lambda b: uv(2) + uv(0) + uv(0) + uv(2**32 - 1) + b"abc"), ("varint", lambda b: b"\xff" * 12)]]
    rest = lambda b: b[iixlen(b):]
    out += [("table " + w, edit("b0.pos.iix", fn)) for w, fn in
            [("head beyond", lambda b: iv(1 << 40) + iv(3) + b"\0\0\0\1" + rest(b)), ("head -2", lambda b: iv(-2) + iv(3) + b"\0\0\0\1" + rest(b)),
             ("count -1", lambda b: iv(0) + iv(-1) + b"\0\0\0\1" + rest(b)), ("count 2^32", lambda b: iv(0) + iv(1 << 32) + b"\0\0\0\1" + rest(b)),
             ("head 3", lambda b: iv(3) + iv(30) + b"\0\0\0\1" + rest(b))]]
    # blocks: all heads at 0, where there is a block of this length
    heads = lambda b: (iv(0) + iv(5) + b"\0\0\0\1") * 65536
    for w, blk in [("length 2^62", iv(1 << 62)), ("length 2^40", iv(1 << 40)), ("length 0", iv(0)), ("length -5", iv(-5)), ("length 8", iv(8) + b"\xff" * 8),
                   ("own successor", iv(9) + b"\1" + b"\0" * 8), ("link -2", iv(9) + b"\1" + b"\xff" * 7 + b"\xfe"), ("varint", b"\xff" * 12)]:
        def do(r, blk=blk):
            edit("b0.pos.iix", heads)(r)
            edit("b0.pos", lambda b: blk + b)(r)
        out.append(("block " + w, do))
    return out


def iixlen(b):
    """length of the first record of a shard table"""
    i = 0
    for _ in range(2):
        while b[i] >= 0x80:
            i += 1
        i += 1
    return i + 4


def p09(chk):
    lockmodels(chk)
    words = Words(chk)
    jobs = []

    def look(h, a, root, tag):
        x = h.do(a, lambda b: b.openr(root, tag))
        if x.get("ok"):
            h.do(a, lambda b: b.getall(tag))
            h.do(a, lambda b: b.stats(tag))
            h.do(a, lambda b: b.closer(tag))

    def use(h, a, root, tag, rng):
        """the index can be read, and appended to, by process a"""
        look(h, a, root, tag + "r")
        if h.do(a, lambda b: b.openw(root, tag + "w")).get("ok"):
            docs = mydocs(rng, 2, "/p09/" + tag)
            h.do(a, lambda b: b.add(tag + "w", docs))
            h.do(a, lambda b: b.closew(tag + "w"))
        look(h, a, root, tag + "s")

    def mydocs(rng, n, base):
        out = []
        for j in range(n):
            ws = [1, 2, 3, 4] + [rng.randrange(20) for _ in range(rng.randint(0, 9))]
            out.append(Doc("%s/%d" % (base, j), ws, render(rng, ws)))
        return out

    def made(h, a, root, c, rng, n=6):
        if not h.do(a, lambda b: b.create(root, "c", c)).get("ok"):
            h.f.dead = True
            return
        docs = mydocs(rng, n, "/p09")
        h.do(a, lambda b: b.add("c", docs))
        h.do(a, lambda b: b.closew("c"))

    n = 2
    for di, (name, do, undo, kinds) in enumerate(damages(n)):
        def job(rng, dirname, do=do, undo=undo, kinds=kinds):
            h = Hist(chk)
            root = os.path.join(dirname, "ix")
            made(h, 0, root, cfg(k=2, n=n), rng)
            t = 0
            for rnd in range(3 if chk.thorough else 1):
                h.env(lambda: do(root))
                h.event(e="damage", r=root)
                for k in kinds + kinds[::-1]:
                    for a in (1, 0):
                        t += 1
                        h.do(a, lambda b: getattr(b, k)(root, "f%d" % t))
                # an attempt to create it fails as well
                t += 1
                h.do(1, lambda b: b.create(root, "f%d" % t, cfg(k=1, n=1)))
                h.env(lambda: undo(root))
                h.event(e="repair", r=root)
                use(h, 2, root, "u%d" % rnd, rng)
                use(h, 1, root, "v%d" % rnd, rng)
            return h
        jobs.append(("damaged: " + name, job))

    # contents that are not those of an index: opening comes to an end, one way or the other
    ngarbled = 0
    for gi in range(12 if chk.thorough else 2):
        gs = garbled(random.Random("%d garbled %d" % (chk.seed, gi)), n)
        random.Random("%d order %d" % (chk.seed, gi)).shuffle(gs)
        ngarbled += len(gs)
        for lo in range(0, len(gs), 12):
            def job(rng, dirname, part=gs[lo: lo + 12]):
                h = Hist(chk)
                root = os.path.join(dirname, "ix")
                made(h, 0, root, cfg(k=2, n=n), rng)
                h.env(lambda: shutil.copytree(root, root + ".good"))
                for t, (name, do) in enumerate(part):
                    h.env(lambda: do(root))
                    h.event(e="damage", r=root, what=name)
                    for kind, a in (("r", 1), ("w", 1), ("r", 2)):
                        h.do(a, lambda b: b.probe(root, kind))
                    h.env(lambda: (shutil.rmtree(root), shutil.copytree(root + ".good", root)))
                    h.event(e="repair", r=root)
                    if t % 4 == 3:
                        look(h, 1, root, "l%d" % t)
                use(h, 2, root, "u", rng)
                use(h, 1, root, "v", rng)
                return h
            jobs.append(("garbled: " + ", ".join(g[0] for g in gs[lo: lo + 12]), job))

    bad = [dict(k=0, s=0), dict(k=-1, s=-1), dict(m=0, s=0), dict(n=0), dict(n=-1), dict(n=65536), dict(w=0), dict(w=-2),
           dict(fl=0), dict(fl=-5), dict(s=7), dict(tok="nosuch"), dict(tok=" words.simple"), dict(k=-2, m=-1, s=2)]
    for kw in bad:
        def job(rng, dirname, kw=kw):
            h = Hist(chk)
            root = os.path.join(dirname, "ix")
            c = cfg(k=2, n=1)
            c.update(kw)
            if "s" not in kw:
                c["s"] = c["k"] * c["m"]
            h.do(1, lambda b: b.create(root, "f1", c))
            h.do(1, lambda b: b.create(root, "f2", c))
            h.do(0, lambda b: b.exists([root]))
            made(h, 2, root, cfg(k=2, n=1), rng)
            # and over an index that is there
            h.do(1, lambda b: b.create(root, "f3", c))
            use(h, 0, root, "u", rng)
            return h
        jobs.append(("invalid: %s" % kw, job))

    def over(rng, dirname):
        h = Hist(chk)
        root = os.path.join(dirname, "ix")
        made(h, 0, root, cfg(k=2, n=2), rng)
        for i, c in enumerate([cfg(k=2, n=2), cfg(k=1, n=1), cfg(k=3, n=3, w=5, fl=1), cfg(k=2, n=2)]):
            h.do(1, lambda b: b.create(root, "f%d" % i, c))
            look(h, 2, root, "l%d" % i)
        h.do(1, lambda b: b.createsimple(root, "g", 2, 10))
        use(h, 2, root, "u", rng)
        use(h, 1, root, "v", rng)
        return h
    jobs.append(("over an index", over))

    def nothing(rng, dirname):
        h = Hist(chk)
        for i, k in enumerate(("missing", "dir", "file")):
            root = os.path.join(dirname, k)
            if k == "dir":
                h.do(0, lambda b: b.mkdir(root))
            if k == "file":
                h.env(lambda: open(root, "w").write("x"))
                h.event(e="mkdir", r=root)
            for j in range(3):
                h.do(1, lambda b: b.openr(root, "a%d%d" % (i, j)))
                h.do(1, lambda b: b.openw(root, "b%d%d" % (i, j)))
                if k != "missing":
                    h.do(1, lambda b: b.create(root, "c%d%d" % (i, j), cfg(k=1, n=1)))
            h.do(0, lambda b: b.exists([root]))
            if k != "missing":
                h.env(lambda: os.rename(root, root + ".moved"))
                h.event(e="mv", r=root, to=root + ".moved")
            made(h, 2, root, cfg(k=2, n=1), rng)
            use(h, 1, root, "u%d" % i, rng)
            h.do(0, lambda b: b.openw(root, "x%d" % i))
            h.do(0, lambda b: b.removew("x%d" % i))
        return h
    jobs.append(("nothing there", nothing))

    def noparent(rng, dirname):
        h = Hist(chk)
        up = os.path.join(dirname, "p", "q")
        root = os.path.join(up, "ix")
        for i in range(2):
            h.do(1, lambda b: b.create(root, "f%d" % i, cfg(k=1, n=1)), inj=True)
            h.do(1, lambda b: b.openr(root, "g%d" % i))
            h.do(1, lambda b: b.openw(root, "h%d" % i))
            h.env(lambda: open(os.path.join(dirname, "p"), "w").write("") if i == 0 else None)
        h.env(lambda: os.unlink(os.path.join(dirname, "p")))
        h.env(lambda: os.makedirs(up))
        made(h, 2, root, cfg(k=2, n=1), rng)
        use(h, 1, root, "u", rng)
        return h
    jobs.append(("no parent", noparent))

    # not enough descriptors: fails at every place where one is needed
    for j in range(0, 7):
        def job(rng, dirname, j=j):
            h = Hist(chk)
            root = os.path.join(dirname, "ix")
            c = cfg(k=2, n=3)
            h.do(1, raw(dict(Op="mkdir", Root=dirname)))
            h.do(1, raw(dict(Op="fdlimit", N=j)))
            x = h.do(1, lambda b: b.create(root, "f1", c), inj=True)
            if x.get("ok"):
                h.do(1, lambda b: b.closew("f1"), inj=True)
                h.do(1, raw(dict(Op="fdlimit", N=-1)))
            else:
                h.do(0, lambda b: b.exists([root]))
                y = h.do(1, lambda b: b.create(root, "f2", c), inj=True)
                h.do(1, raw(dict(Op="fdlimit", N=-1)))
                if not y.get("ok"):
                    made(h, 2, root, c, rng)
            look(h, 0, root, "l")
            h.do(1, raw(dict(Op="fdlimit", N=j)))
            for i in range(3):
                for k, cl in (("openr", "closer"), ("openw", "closew")):
                    # closing a writing session needs two descriptors of its own
                    if k == "openw" and j >= 4:
                        continue
                    x = h.do(1, lambda b: getattr(b, k)(root, "a%d%s" % (i, k)), inj=True)
                    if x.get("ok"):
                        h.do(1, lambda b: getattr(b, cl)("a%d%s" % (i, k)))
            h.do(1, raw(dict(Op="fdlimit", N=-1)))
            use(h, 2, root, "u", rng)
            use(h, 1, root, "v", rng)
            return h
        jobs.append(("descriptors: %d" % j, job))

    # failing again and again in one process uses nothing up
    def many(kind, what):
        def job(rng, dirname):
            h = Hist(chk)
            root = os.path.join(dirname, "ix")
            made(h, 0, root, cfg(k=2, n=2), rng)
            do, undo = [(d[1], d[2]) for d in damages(2) if d[0] == what][0]
            h.env(lambda: do(root))
            h.event(e="damage", r=root)
            h.do(1, raw(dict(Op="fdlimit", N=14)))
            h.do(1, raw(dict(Op="gcpercent", N=-1)))
            for i in range(12):
                if kind == "create":
                    h.do(1, lambda b: b.create(root, "f%d" % i, cfg(k=2, n=2)))
                else:
                    h.do(1, lambda b: getattr(b, kind)(root, "f%d" % i))
            h.do(1, raw(dict(Op="gcpercent", N=100)))
            h.env(lambda: undo(root))
            h.event(e="repair", r=root)
            use(h, 1, root, "u", rng)
            use(h, 2, root, "v", rng)
            return h
        return job
    for kind, what in (("openr", "b1.pos missing"), ("openw", "b1.pos missing"), ("openr", "files.fnm cut"), ("openw", "b1.pos.iix cut"),
                       ("create", "cfg.json missing"), ("openw", "cfg.json missing"), ("openr", "cfg.json empty")):
        jobs.append(("again and again: %s %s" % (kind, what), many(kind, what)))

    def one(x):
        i, (name, job) = x
        d = os.path.dirname(chk.path("p09-%d" % i, "x"))
        h = None
        try:
            h = job(random.Random("p09/%d/%d" % (chk.seed, i)), d)
            if h.f.skipped:
                skipped.append(name)
            return h.f.events
        finally:
            if h:
                h.f.close()
            shutil.rmtree(d, ignore_errors=True)
    skipped = []
    traces = parallel(one, list(enumerate(jobs)), par=8)
    judge(chk, words, traces, [j[0] for j in jobs], "P09")
    if len(skipped) > len(jobs) / 3 and not chk.violations:
        raise ToolError("%d histories could not be set up: %s" % (len(skipped), skipped[:4]))
    chk.note(skipped=skipped)
    chk.note(garbled=ngarbled, causes=len(jobs), failed_attempts=sum(1 for t in traces for e in t if e["e"] in ("create", "openw", "openr") and not e["ok"]))
    chk.sample([j[0] for j in jobs[:6]])


def spellings(chk, words):
    """P21: one path in several spellings, by processes in several directories"""
    base = os.path.dirname(chk.path("spl", "x"))
    sub = os.path.join(base, "sub", "deeper")
    os.makedirs(sub, exist_ok=True)
    hs = generate(chk, 60 if chk.thorough else 12)

    def one(x):
        n, h = x
        d = os.path.join(base, "r%d" % n)
        os.makedirs(os.path.join(d, "w"), exist_ok=True)
        rng = random.Random("sp%d/%d" % (chk.seed, n))
        cwds = [d, os.path.join(d, "w"), "/"]
        root = os.path.join(d, "ix")

        def spell(r, a):
            b = os.path.basename(r)
            return rng.choice([[b, "./" + b, b + "/", "w/../" + b, r, r + "/", "../r%d/%s" % (n, b)],
                               ["../" + b, ".././" + b + "/", "../w/../" + b, r + "//", d + "/./" + b],
                               [r, r + "/", r[1:], "./" + r[1:] + "/", "/../" + r, d + "//" + b]][a])
        sc = Scheduler(chk, words, rng, [root], spell=spell, nactors=3, cwd=cwds)
        actor = {"s%d" % i: i % 3 for i in range(1, 5)}
        try:
            sc.ask("s0", "create", root, rng.randrange(3))
            sc.add("s0")
            sc.leave("s0", "close")
            for st in h:
                if sc.f.dead:
                    break
                s = st["s"]
                if st["a"] == "ask":
                    sc.ask(s, KIND[st["k"]], root, actor[s])
                elif st["a"] == "add":
                    sc.add(s)
                elif st["a"] == "die":
                    sc.die(actor[s])
                else:
                    sc.leave(s, st["a"])
            return sc.finish()
        finally:
            sc.f.close()
            shutil.rmtree(d, ignore_errors=True)
    traces = parallel(one, list(enumerate(hs)))
    judge(chk, words, traces, ["spellings-%d" % i for i in range(len(hs))], "P21 spellings")
    chk.note(spelling_schedules=len(hs))
