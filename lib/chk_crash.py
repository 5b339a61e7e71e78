"""Checks of histories with processes that die (P10, P11) and with file
operations that fail (P24): every file operation of the real code goes through
hooks in the standard library's syscall package."""
import json, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from dupilib import *
from vlib import ToolError, SPEC
import re

CFG = "SPECIFICATION CSpec\nVIEW TraceView\n"
DIED = 77


class History:
    """phases: Scripts, each run in a process of its own; arm: None or (mode, n,
    persistent) for the file operations of the phase"""
    def __init__(self, name, root):
        self.name, self.root, self.phases = name, root, []
        self.also = None        # where it is moved to

    def phase(self, arm=None):
        s = Script(self.name)
        self.phases.append((s, arm))
        return s


def run_phase(chk, drv, h, s, arm, log=False):
    """returns events, whether it died, and the log of operations"""
    ops, idx = [], []
    if arm or log:
        ops.append(dict(Op="arm", Root=h.root, Mode=arm[0] if arm else "log", N=arm[1] if arm else 0,
                        Kind=arm[3][0] if arm and len(arm) > 3 else "", To=arm[3][1] if arm and len(arm) > 3 else ""))
        idx.append(None)
    for i, o in enumerate(s.ops):
        if o["Op"] not in ("create", "openw", "openr", "mv"):
            o = dict(o, If=True)
        ops.append(o)
        idx.append(i)
        if arm and o["Op"] in ("create", "openw", "add", "closew"):
            ops.append(dict(Op="faults"))
            idx.append("faults")
    if log:
        ops.append(dict(Op="disarm"))
        idx.append("log")
    sf, of, ef = chk.fresh_ts(".script"), chk.fresh_ts(".out"), chk.fresh_ts(".err")
    json.dump([ops], open(sf, "w"))
    env = dict(os.environ, VERIF_OP_TIMEOUT="60", GOTRACEBACK="all")
    with open(ef, "wb") as eh:
        p = subprocess.Popen([drv, "run", sf, of], env=env, cwd=chk.dir, stdout=subprocess.DEVNULL, stderr=eh, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise ToolError("driver exceeded 200 s")
    res = []
    for ln in open(of, errors="replace"):
        try:
            res.append(json.loads(ln))
        except ValueError:
            break
    err = open(ef, errors="replace").read()
    for f in (sf, of, ef):
        os.unlink(f)
    done = bool(res) and res[-1].get("done")
    if done:
        res.pop()
    ev, runs = [], None
    for r, i, o in zip(res, idx, ops):
        if i is None or r.get("skipped"):
            continue
        if i == "faults":
            if ev:
                ev[-1]["inj"] = r["faults"]
                ev[-1]["persist"] = bool(arm[2])
        elif i == "log":
            runs = r["runs"]
        else:
            ev += event(s.mk[i], r)
            if ev and ev[-1]["e"] in ("hang", "panic"):
                return ev, False, None
    if done:
        return ev, False, runs
    if rc == DIED and arm:
        o = ops[len(res)] if len(res) < len(ops) else None
        i = idx[len(res)] if o else None
        if o is None or i in ("faults", "log"):
            raise ToolError("died outside an operation")
        if i is None:
            raise ToolError("died while arming")
        if o["Op"] in ("create", "openw", "openr"):
            e = s.mk[i](dict(ok=False, err="died"))[0]
            ev.append(dict(e="crashopen", r=e["r"], create=o["Op"] == "create", c=e.get("c", cfg())))
        elif o["Op"] in ("add", "closew"):
            e = s.mk[i](dict(ok=False, err="died"))[0]
            ev.append(dict(e="crash", h=o["H"], pending=e.get("docs", [])))
        else:
            raise ToolError("died during %s" % o["Op"])
        return ev, True, None
    if rc != 3 and re.search(r"(?m)^(panic:|fatal error:|unexpected fault|SIG)", err) and "go-air/dupi" in err:
        return ev + [dict(e="panic", what=err[:300], stack=err[:3000])], False, None
    raise ToolError("driver ended (rc=%s) %s" % (rc, err[-2000:]))


def run_history(chk, drv, h, log=None):
    """log: number of the phase whose file operations are wanted"""
    ev, runs, died = [], None, []
    for n, (s, arm) in enumerate(h.phases):
        e, d, r = run_phase(chk, drv, h, s, arm, log == n)
        ev += e
        died.append(d)
        runs = r or runs
        if e and e[-1]["e"] in ("hang", "panic"):
            break
    return ev, died, runs


def points(rng, runs, count):
    """operations worth dying at (their numbers): the first ones and the last
    one of every run of operations of one kind on one file, and some between"""
    must, more = [], []
    seen = {}
    for kind, name, first, num, size in runs:
        key = (kind, re.sub(r"\d+", "", name))
        seen[key] = seen.get(key, 0) + 1
        lst = must if seen[key] <= 2 else more
        if kind != "write":
            lst += [(first, "die"), (first + 1, "die")]
            continue
        lst += [(first, "diehalf"), (first + num - 1, "diehalf"), (first + num - 1, "die")]
        if num > 1:
            lst += [(first + 1, "die"), (first + 1, "diehalf")]
        if num > 3:
            more += [(first + rng.randrange(2, num - 1), rng.choice(["die", "diehalf"])) for _ in range(min(3, num // 4 + 1))]
    must, more = sorted(set(must)), sorted(set(more) - set(must))
    if len(must) > count:
        must = rng.sample(must, count)
    return must + rng.sample(more, min(len(more), count - len(must)))


def slow(rng, runs, count, mode="slowdie"):
    """operations that happen as late as everything else allows: the first and
    the last one of each kind on each file"""
    num, out = {}, []
    for kind, name, _, n, _ in runs:
        num[kind, name] = num.get((kind, name), 0) + n
    for (kind, name), n in num.items():
        out += [(j, mode, (kind, name)) for j in {1, n}]
    # one shard is like another
    seen, few = set(), []
    for j, m, (kind, name) in rng.sample(out, len(out)):
        key = (kind, re.sub(r"\d+", "", name), j == 1)
        if key not in seen:
            seen.add(key)
            few.append((j, m, (kind, name)))
    return few[:count]


def workload(rng, k, base, dense, count, tag):
    """groups of documents; dense: long lists, so that chunks are written while
    documents are added"""
    docs = []
    if dense:
        shared = [rng.randrange(len(VOCAB)) for _ in range(k + 2)]
        for i in range(count):
            ws = shared + [rng.randrange(3) for _ in range(rng.randint(0, 2))]
            docs.append(Doc("%s/%s%d" % (base, tag, i), ws, " ".join(VOCAB[w] for w in ws)))
    else:
        docs = random_docs(rng, count, base + "/" + tag, k, maxlen=12, share=0.8)
    return docs


def groups(rng, docs, dense):
    out, i = [], 0
    while i < len(docs):
        n = rng.choice([40, 150, 300]) if dense else rng.choice([1, 1, 2, 3])
        out.append(docs[i:i + n])
        i += n
    return out


def reading(s, root, h, spell=None):
    return s.openr(root, h, spell=spell).getall(h).enum(h).closer(h)


def appending(s, root, h, gs, spell=None):
    s.openw(root, h, spell=spell)
    for g in gs:
        s.add(h, g)
    return s.closew(h)


def scen(rng, i, thorough):
    dense = i % 3 == 2
    c = cfg(k=rng.choice([1, 2, 3]), n=rng.choice([1, 1, 2] if i % 2 else [1, 2, 3]), w=rng.choice([1, 1, 2, 4]),
            fl=rng.choice([1, 2, 3, 5, 16384]) if not dense else rng.choice([100, 250, 16384]))
    return dense, c


def creation(root, c, gs, arm, more, name):
    h = History(name, root)
    s = h.phase(arm)
    s.create(root, "w", c)
    for g in gs:
        s.add("w", g)
    s.closew("w")
    s = h.phase()
    reading(s, root, "r")
    appending(s, root, "a", more)
    reading(s, root, "r2")
    return h


def judge(chk, hs, drv, words, what, only=()):
    with ThreadPoolExecutor(7) as ex:
        out = list(ex.map(lambda h: run_history(chk, drv, h), hs))
    traces = [o[0] for o in out]
    for h in hs:
        shutil.rmtree(h.root, ignore_errors=True)
        if h.also:
            shutil.rmtree(h.also, ignore_errors=True)
    bad = chk.validate("CrashTrace", traces, extra=dict(H=words.H, only=list(only)), cfg=CFG, workers=6)
    for i, mm in sorted(bad.items()):
        line, kind = mm[-1]
        t = traces[i]
        ev = t[line - 1] if 0 < line <= len(t) else None
        h = hs[i]
        chk.violation("%s: history %s %s, event %d (%s): observed behaviour is not one of the specification (%s)" % (
            what, h.name, [a for _, a in h.phases], line, ev and ev.get("e"), kind),
            dict(phases=[dict(arm=a, ops=s.ops) for s, a in h.phases], root=h.root, event=ev, kind=kind, events=slim(t[:line])))
    return traces, out


def slim(t):
    return [{k: v for k, v in e.items() if k != "q"} for e in t]


def design(chk):
    """The order of the files written, and what is behind a list's table, with
    processes dying and operations failing anywhere."""
    big = chk.thorough
    chk.model("Commit", "MCCommitBig.cfg" if big else "MCCommit.cfg",
              "order of the files written: crash or failure at every operation, 2 shards, %d documents, 3 sessions" % (4 if big else 3))
    chk.model("Posting", "MCPostingBig.cfg" if big else "MCPosting.cfg", "posting lists in linked chunks: crash at every operation")
    if big:
        c = open(os.path.join(SPEC, "MCCommit.cfg")).read()
        for d in ("tables first", "names late", "complete tables", "append records"):
            chk.model_refuses("Commit", c.replace('Design = "code"', 'Design = "%s"' % d), d)
        c = open(os.path.join(SPEC, "MCPosting.cfg")).read()
        chk.model_refuses("Posting", c.replace("Bounded = TRUE", "Bounded = FALSE"), "lists read beyond the committed total")


def p10(chk):
    design(chk)
    words = Words(chk)
    drv = chk.build_iodriver()
    rng = chk.rng
    hs = []
    per = 60 if chk.thorough else 24
    for i in range(12 if chk.thorough else 5):
        dense, c = scen(rng, i, chk.thorough)
        base = "/corp%d" % i
        gs = groups(rng, workload(rng, c["k"], base, dense, 1060 if dense else rng.choice([3, 6, 10]), "a"), dense)
        more = groups(rng, workload(rng, c["k"], base, dense, 5, "b"), dense)
        root = chk.path("c%d-log" % i)
        _, _, runs = run_history(chk, drv, creation(root, c, gs, None, more, "log"), log=0)
        shutil.rmtree(root, ignore_errors=True)
        if not runs:
            raise ToolError("no file operations were seen")
        for n, (at, mode) in enumerate(points(rng, runs, per)):
            hs.append(creation(chk.path("c%d-%d" % (i, n)), c, gs, (mode, at, False), more, "creation-%d" % i))
        for n, (at, mode, where) in enumerate(slow(rng, runs, 40 if chk.thorough or i < 1 else 3)):
            hs.append(creation(chk.path("c%d-s%d" % (i, n)), c, gs, (mode, at, False, where), more, "creation-slow-%d" % i))
    traces, out = judge(chk, hs, drv, words, "P10")
    chk.note(crashes=sum(1 for o in out if any(o[1])), not_reached=sum(1 for o in out if not any(o[1])),
             opened_afterwards=sum(1 for t in traces if [e for e in t if e["e"] == "openr"][:1] and [e for e in t if e["e"] == "openr"][0]["ok"]))
    chk.sample(dict(history=[(e["e"], e.get("ok")) for e in traces[0]]))


def appended(root, c, base, lost, more, arm, name, to=None):
    """committed sessions base, a session that dies, maybe another one, and
    what comes after, maybe somewhere else"""
    h = History(name, root)
    s = h.phase()
    s.create(root, "w", c)
    for g in base[0]:
        s.add("w", g)
    s.closew("w")
    for n, gs in enumerate(base[1:]):
        appending(s, root, "w%d" % n, gs)
    for n, (gs, a) in enumerate(zip(lost, arm)):
        appending(h.phase(a), root, "x%d" % n, gs)
    s = h.phase()
    if to:
        h.also = to
        s.silent(Op="mv", Root=root, To=to)
    reading(s, root, "r", to)
    appending(s, root, "a", more[0], to)
    reading(s, root, "r2", to)
    s = h.phase()
    appending(s, root, "b", more[1], to)
    reading(s, root, "r3", to)
    return h


def p11(chk):
    design(chk)
    words = Words(chk)
    drv = chk.build_iodriver()
    rng = chk.rng
    hs = []
    per = 60 if chk.thorough else 22
    for i in range(14 if chk.thorough else 5):
        dense, c = scen(rng, i, chk.thorough)
        base = "/corp%d" % i
        w = lambda n, tag: groups(rng, workload(rng, c["k"], base, dense, n, tag), dense)
        big = 540 if dense else rng.choice([3, 6, 9])
        bs = [w(big, "a")] + [w(rng.choice([0, 2, big]), "a%d" % j) for j in range(rng.choice([0, 1]))]
        lost = [w(560 if dense else rng.choice([3, 6, 10]), "x"), w(530 if dense else 4, "y")]
        # documents of the sessions afterwards are at other places, so that taking one for another shows
        more = [w(4, "m"), w(3, "n")]
        root = chk.path("c%d-log" % i)
        _, _, runs = run_history(chk, drv, appended(root, c, bs, lost[:1], more, [None], "log"), log=1)
        shutil.rmtree(root, ignore_errors=True)
        if not runs:
            raise ToolError("no file operations were seen")
        ps = points(rng, runs, per)
        for n, (at, mode) in enumerate(ps):
            arm = [(mode, at, False)]
            if rng.random() < 0.3:
                at, mode = rng.choice(ps)
                arm.append((mode, at, False))
            hs.append(appended(chk.path("c%d-%d" % (i, n)), c, bs, lost[:len(arm)], more, arm, "append-%d" % i))
        for n, (at, mode, where) in enumerate(slow(rng, runs, 40 if chk.thorough or i < 2 else 3)):
            hs.append(appended(chk.path("c%d-s%d" % (i, n)), c, bs, lost[:1], more, [(mode, at, False, where)], "append-slow-%d" % i))
        # what a session left that died while writing a file anew; then the index is moved, to a shorter or a longer path
        tmp = [(first + j, m) for kind, name, first, num, _ in runs if kind in ("write", "rename") and name.endswith(".tmp")
               for j, m in ([(0, "die")] if kind == "rename" else [(num - 1, "die"), (0, "diehalf")])]
        for n, (at, mode) in enumerate(rng.sample(tmp, min(len(tmp), 30 if chk.thorough else 6))):
            a, b = chk.path("c%d-t%d" % (i, n) + "-long" * 20), chk.path("c%d-t%d" % (i, n))
            hs.append(appended(a if n % 3 else b, c, bs, lost[:1], more, [(mode, at, False)], "append-moved-%d" % i, to=b if n % 3 else a))
    traces, out = judge(chk, hs, drv, words, "P11")
    chk.note(crashes=sum(sum(o[1]) for o in out), not_reached=sum(1 for o in out if not any(o[1])))
    chk.sample(dict(history=[(e["e"], e.get("ok")) for e in traces[0]]))


FAILS = [("fail", False), ("failall", True), ("halfall", True), ("fail", False), ("close", True)]


def p24(chk):
    design(chk)
    words = Words(chk)
    drv = chk.build_iodriver()
    rng = chk.rng
    hs = []
    per = 40 if chk.thorough else 16
    for i in range(12 if chk.thorough else 6):
        dense, c = scen(rng, i, chk.thorough)
        base = "/corp%d" % i
        w = lambda n, tag: groups(rng, workload(rng, c["k"], base, dense, n, tag), dense)
        big = 540 if dense else rng.choice([3, 6, 9])
        lost = [w(560 if dense else rng.choice([3, 6, 10]), "x")]
        bs, more = [w(big, "a")], [w(4, "m"), w(3, "n")]
        make = i % 2 == 0

        def hist(root, arm, name):
            if make:
                return creation(root, c, lost[0], arm, more[0], name)
            return appended(root, c, bs, lost, more, [arm], name)
        root = chk.path("c%d-log" % i)
        _, _, runs = run_history(chk, drv, hist(root, None, "log"), log=0 if make else 1)
        shutil.rmtree(root, ignore_errors=True)
        if not runs:
            raise ToolError("no file operations were seen")
        for n, (at, mode) in enumerate(points(rng, runs, per)):
            kind, persist = FAILS[n % len(FAILS)]
            if kind == "close":
                at = rng.randrange(1, 12)
            hs.append(hist(chk.path("c%d-%d" % (i, n)), (kind, at, persist), ("create-" if make else "append-") + kind))
        for n, (at, mode, where) in enumerate(slow(rng, runs, 40 if chk.thorough else 4, "slowfail")):
            hs.append(hist(chk.path("c%d-s%d" % (i, n)), (mode, at, False, where), ("create-" if make else "append-") + mode))
        if i < 4 or chk.thorough:
            # what was written to one file is lost when it is closed
            at = list(range(1, 3 * c["n"] + 9))
            for n in at if chk.thorough else sorted(rng.sample(at, min(len(at), 10))):
                hs.append(hist(chk.path("c%d-l%d" % (i, n)), ("lost", n, False), ("create-" if make else "append-") + "lost"))
        if dense:
            # one write alone fails, while documents are being added
            at = [first + j for kind, name, first, num, _ in runs if kind == "write" and name.endswith(".pos") for j in range(min(num, 2))]
            for n, j in enumerate(at[:2] + rng.sample(at[2:], min(len(at[2:]), 4 if chk.thorough else 1))):
                hs.append(hist(chk.path("c%d-d%d" % (i, n)), ("fail", j, False), ("create-" if make else "append-") + "while-adding"))
    traces, out = judge(chk, hs, drv, words, "P24")
    chk.note(histories=len(hs), with_failures=sum(1 for t in traces if any(e.get("inj", 0) > 0 for e in t)),
             reported=sum(1 for t in traces if any(e.get("inj", 0) > 0 and not e["ok"] for e in t)))
    chk.sample(dict(history=[(e["e"], e.get("ok"), e.get("inj")) for e in traces[0]]))
