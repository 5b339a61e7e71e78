"""Workloads for the service specification (spec/Dupi.tla): scripts for the
driver together with the events their results become."""
import os, random, shutil
from fractions import Fraction
from vlib import ToolError

ASCII = ("alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omi pi rho tau ups phi chi psi "
         "a b c d e f g h 1 2 3 42 x9 9x the of and to in is it was he for on are as with his they at be this").split()
UNI = ["été", "über", "жук", "дом", "漢字", "ア", "λόγο", "naïve", "٣٤", "ñandú", "αβγ", "ệ"]
VOCAB = []
for w in ASCII + UNI:
    if w.lower() not in VOCAB:
        VOCAB.append(w.lower())
SEPS = [" ", " ", " ", " ", "\n", ", ", ". ", "\t", "'", "_", "-", "  ", "…", " — ", "\r\n", "\u00a0", "!?", " \u200b", "\x00", "·"]


def upvary(rng, w):
    out = []
    for ch in w:
        u = ch.upper()
        if len(u) == 1 and u.lower() == ch and len(u.encode()) == len(ch.encode()) and rng.random() < 0.4:
            ch = u
        out.append(ch)
    return "".join(out)


def render(rng, ws, vocab=VOCAB, plain=False, seps=None):
    """A text having the words ws (0-based numbers)."""
    if plain:
        return " ".join(vocab[w] for w in ws)
    seps = seps or SEPS
    t = rng.choice(["", "", " ", "\n", "(", "— "])
    for i, w in enumerate(ws):
        if i:
            t += rng.choice(seps)
        t += upvary(rng, vocab[w])
    return t + rng.choice(["", "", "", ".", "\n", "  ", "?!\n", "»"])


def clean(p):
    p = os.path.normpath(p)
    return p[1:] if p.startswith("//") else p


def tid(p):
    """the string as it is written in scripts and traces: one that is not valid
    UTF-8 (here with surrogate escapes) is given by its bytes"""
    b = os.fsencode(p)
    try:
        b.decode()
        return p
    except UnicodeDecodeError:
        return "hex:" + b.hex()


def tids(i):
    p, at, r = i.rpartition("@")
    return tid(p) + at + r


def comps(path):
    """Components of an absolute, cleaned path."""
    p = clean(path)
    return [tid(x) for x in p.strip("/").split("/")]


def fnv1_32(b):
    h = 0x811c9dc5
    for c in b:
        h = (h * 0x01000193) & 0xffffffff
        h ^= c
    return h


def runs(ids):
    """runs of equal elements: [[element, how often], ...]"""
    out = []
    for x in ids:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def hl(v):
    return [v >> 16, v & 0xffff]


class Words:
    """The vocabulary and the hash of every word as the code computes it."""
    def __init__(self, chk, vocab=VOCAB):
        self.vocab = vocab
        r = chk.run_scripts([[dict(Op="hash", Words=vocab)]])[0]
        if not r or "hash" not in r[0]:
            if r and ("panic" in r[0] or "hang" in r[0] or "crash" in r[0]):
                chk.violation("hashing a single word does not work: %s" % str(r[0])[:300], r[0])
            raise ToolError("no word hashes: %s" % str(r)[:500])
        self.hash = r[0]["hash"]
        self.H = [hl(h) for h in self.hash]

    def fps(self, ws, k, m, n):
        """Fingerprints of a word sequence; used to choose what to look up."""
        out = []
        for i in range(k * m, len(ws)):
            x = 0
            for j in range(k):
                x ^= self.hash[ws[i - j * m]]
            out.append(x % (n << 16))
        return out


INT = 2**31 - 1       # TLC has no larger numbers


def cfg(k=2, m=1, n=2, w=2, fl=16384, s=None, tok="words.simple"):
    return dict(k=k, m=m, n=n, w=w, fl=fl, s=k * m if s is None else s, tok=tok)


class Doc:
    __slots__ = ("path", "start", "end", "ws", "text", "abs", "raw")

    def __init__(self, path, ws, text, start=0, end=None, abs_=None):
        self.path, self.ws, self.text, self.start = path, ws, text, start
        self.end = start + len(text.encode()) if end is None else end
        self.abs = clean(path) if abs_ is None else abs_
        self.raw = ""                       # bytes in hex, instead of the text

    @property
    def id(self):
        return "%s@%d:%d" % (tid(self.abs), self.start, self.end)

    def op(self):
        o = dict(P=tid(self.path), S=self.start, E=self.end, T=self.text)
        if self.raw:
            o.update(T="", X=self.raw)
        return o

    def ev(self):
        return dict(id=self.id, ws=[x + 1 for x in self.ws], c=comps(self.abs))


def statnums(docs, paths, posts, blots, mean, sig):
    """statistics in TLC's integers"""
    sc = 1000 if posts <= 1400 else 1
    ev = dict(docs=min(docs, INT), paths=min(paths, INT), posts=min(posts, INT), blots=min(blots, INT), sig=posts <= 46000,
              sc=sc, mean20=-1, sig2b=-1)
    if ev["sig"] and mean == mean and sig == sig and abs(mean) < 1e6 and abs(sig) < 1e5:
        ev["mean20"] = min(int(round(Fraction(mean) * 2**20)), INT)
        ev["sig2b"] = min(int(round(Fraction(sig) ** 2 * blots * sc)), INT)
    return ev


class Script:
    """Operations for the driver; each knows how to make events of its result."""
    def __init__(self, name=""):
        self.name = name
        self.ops = []
        self.mk = []
        self.first = []         # events before the first operation

    def op(self, o, mk):
        self.ops.append(o)
        self.mk.append(mk)
        return self

    # sessions
    def create(self, r, h, c, raw=False, timeout=0, **kw):
        o = dict(Op="create", Root=r, H=h, Nsh=c["n"], K=c["k"], M=c["m"], Nw=c["w"], Fl=c["fl"],
                 Tok=c["tok"], Raw=True, Timeout=timeout)
        c = dict(c, fl=min(c["fl"], INT))
        if c["s"] != c["k"] * c["m"]:
            o["Mode"] = "inconsistent"
        o.update(kw)
        return self.op(o, lambda x: [dict(e="create", r=r, h=h, c=c, ok=x["ok"], err=x["err"])])

    def createsimple(self, r, h, n, k):
        c = cfg(k=k, n=n)
        return self.op(dict(Op="createsimple", Root=r, H=h, Nsh=n, K=k),
                       lambda x: [dict(e="create", r=r, h=h, c=c, ok=x["ok"], err=x["err"])])

    def openw(self, r, h, spell=None, timeout=0):
        return self.op(dict(Op="openw", Root=spell or r, H=h, Timeout=timeout),
                       lambda x: [dict(e="openw", r=r, h=h, ok=x["ok"], err=x["err"])])

    def openr(self, r, h, spell=None, timeout=0):
        return self.op(dict(Op="openr", Root=spell or r, H=h, Timeout=timeout),
                       lambda x: [dict(e="openr", r=r, h=h, ok=x["ok"], err=x["err"])])

    def probe(self, r, kind):
        return self.op(dict(Op="probe" + kind, Root=r), lambda x: [dict(e="probe", r=r, k=kind, ok=x["ok"], err=x["err"])])

    def sess(self, kind, h):
        return self.op(dict(Op=kind, H=h), lambda x: [dict(e=kind, h=h, ok=x["ok"], err=x["err"])])

    def closew(self, h): return self.sess("closew", h)
    def closer(self, h): return self.sess("closer", h)
    def removew(self, h): return self.sess("removew", h)
    def remover(self, h): return self.sess("remover", h)

    def add(self, h, docs):
        return self.op(dict(Op="add", H=h, Docs=[d.op() for d in docs]),
                       lambda x: [dict(e="add", h=h, docs=[d.ev() for d in docs], ok=x["ok"], err=x["err"])])

    def addsame(self, h, d, n):
        return self.op(dict(Op="addsame", H=h, N=n, Docs=[d.op()]),
                       lambda x: [dict(e="addsame", h=h, n=n, doc=d.ev(), ok=x["ok"], err=x["err"])])

    def getruns(self, h):
        return self.op(dict(Op="getall", H=h), lambda x: [dict(e="getruns", h=h, ok=x["ok"], err=x["err"],
                                                               q=[dict(b=hl(p["b"]), r=runs(p["d"])) for p in (x["p"] or [])])])

    def enumruns(self, h, batch=1):
        return self.op(dict(Op="enum", H=h, Batch=batch, Cap=-1, Extra=2),
                       lambda x: [dict(e="enumruns", h=h, err=x["err"], after=x["after"],
                                       p=[dict(b=hl(p["b"]), r=runs(p["d"])) for p in (x["p"] or [])])])

    def fill(self, h, n):
        return self.op(dict(Op="fill", H=h, N=n), lambda x: [dict(e="fill", h=h, n=n, ok=x["ok"], err=x["err"])])

    def fillpaths(self, h, i, n):
        """documents without words at /many/i and following"""
        return self.op(dict(Op="fillpaths", H=h, N=n, I=i), lambda x: [dict(e="fillpaths", h=h, n=n, i=i, ok=x["ok"], err=x["err"])])

    # reading
    def get(self, h, blots, cap=-1):
        def mk(x):
            return [dict(e="get", h=h, ok=x["ok"], err=x["err"],
                         q=[dict(b=hl(p["b"]), cap=cap, d=p["d"]) for p in (x["p"] or [])])]
        return self.op(dict(Op="get", H=h, Blots=blots, Cap=cap), mk)

    def getall(self, h):
        def mk(x):
            return [dict(e="getall", h=h, ok=x["ok"], err=x["err"],
                         q=[dict(b=hl(p["b"]), d=p["d"]) for p in (x["p"] or [])])]
        return self.op(dict(Op="getall", H=h), mk)

    def enum(self, h, batch=1, cap=-1, extra=2):
        def mk(x):
            return [dict(e="enum", h=h, cap=cap, err=x["err"], after=x["after"],
                         p=[dict(b=hl(p["b"]), d=p["d"]) for p in (x["p"] or [])])]
        return self.op(dict(Op="enum", H=h, Batch=batch, Cap=cap, Extra=extra), mk)

    def qstart(self, h, q):
        return self.op(dict(Op="qstart", H=h, Q=q), lambda x: [dict(e="qstart", h=h, q=q)])

    def qnext(self, q, caps, reuse=False):
        def mk(x):
            ev = dict(e="qnext", q=q, caps=caps, n=x["n"], err=x["err"],
                      p=[dict(b=hl(p["b"]), d=p["d"]) for p in (x["p"] or [])])
            if "stale" in x:
                ev["stale"] = x["stale"]
            return [ev]
        return self.op(dict(Op="qreuse" if reuse else "qnext", Q=q, Caps=caps), mk)

    def stats(self, h):
        def mk(x):
            if not x["ok"]:
                return [dict(e="stats", h=h, ok=False, err=x["err"])]
            return [dict(e="stats", h=h, ok=True, **statnums(x["docs"], x["paths"], x["posts"], x["blots"], float(x["meanstr"]), float(x["sigmastr"])))]
        return self.op(dict(Op="stats", H=h), mk)

    def info(self, h, wantroot):
        def mk(x):
            return [dict(e="info", h=h, nsh=x["nsh"], seqlen=x["seqlen"], nw=x["nw"], bk=x["bk"], bm=x["bm"], il=x["il"],
                         root=x["root"], wantroot=wantroot)]
        return self.op(dict(Op="info", H=h), mk)

    def readcfg(self, r, spell=None):
        def mk(x):
            if "fl" in x:
                x = dict(x, fl=min(x["fl"], INT))
            return [dict(x, e="readcfg", r=r)]
        return self.op(dict(Op="readcfg", Root=spell or r, Mode="root"), mk)

    def blotdoc(self, h, docs):
        def mk(x):
            return [dict(e="blotdoc", h=h, x=[dict(ws=[w + 1 for w in d.ws], b=[hl(v) for v in b])
                                              for d, b in zip(docs, x["blots"])])]
        return self.op(dict(Op="blotdoc", H=h, Docs=[d.op() for d in docs]), mk)

    def split(self, h, blots):
        def mk(x):
            return [dict(e="split", h=h, x=[dict(b=hl(b), sh=y[0], sl=y[1], j=hl(y[2])) for b, y in zip(blots, x["split"])])]
        return self.op(dict(Op="split", H=h, Blots=blots), mk)

    def cp(self, r, to):
        return self.op(dict(Op="cp", Root=r, To=to), lambda x: _env(x, dict(e="cp", r=r, to=to)))

    def mv(self, r, to):
        return self.op(dict(Op="mv", Root=r, To=to), lambda x: _env(x, dict(e="mv", r=r, to=to)))

    def grow(self, r, far=0, n=0):
        return self.op(dict(Op="grow", Root=r, Far=far, N=n), lambda x: _env(x, dict(e="grow", r=r, n=min(n, 1000000000))))

    def mkdir(self, r):
        return self.op(dict(Op="mkdir", Root=r), lambda x: _env(x, dict(e="mkdir", r=r)))

    def silent(self, **o):
        """an operation on the surroundings that is no event"""
        return self.op(o, lambda x: _env(x, None))

    def exists(self, roots):
        o = dict(Op="exist", Words=roots)
        return self.op(o, lambda x: [dict(e="exists", x=[dict(r=r, there=t) for r, t in zip(roots, x["there"])])])

    def par(self, branches, reps=1):
        """branches: Scripts of one reading operation each, run concurrently;
        since none changes anything their order does not matter."""
        ops = [b.ops[0] for b in branches]

        def mk(x):
            ev = []
            for b, rs in zip(branches, x["par"]):
                for r in rs:
                    ev += event(b.mk[0], r)
            return ev
        return self.op(dict(Op="par", Ops=ops, Reps=reps), mk)


def _env(x, ev):
    if not x.get("ok"):
        raise ToolError("environment operation failed: %s" % x)
    return [ev] if ev else []


def event(mk, r):
    for k in ("hang", "panic", "crash"):
        if k in r:
            return [dict(e="hang" if k == "hang" else "panic", what=str(r[k])[:300], stack=str(r.get("stack"))[:3000])]
    return mk(r)


def events(script, results):
    out = list(script.first)
    script.missing = ""
    for i, r in enumerate(results):
        if "cut" in r:
            script.missing = r["cut"]
            return out
        # of a session that was not opened (which the trace tells)
        script.missing = r.get("missing") or next((y["missing"] for b in r.get("par") or [] for y in b if "missing" in y), "")
        if script.missing:
            return out
        ev = event(script.mk[i], r)
        out += ev
        if any(e["e"] in ("hang", "panic") for e in ev):
            return out
    if len(results) < len(script.ops):
        raise ToolError("script %s ended after %d of %d operations" % (script.name, len(results), len(script.ops)))
    return out


def clear_roots(chk, s):
    """removes what a script made, so that it can be run again"""
    paths = [o.get(k) for o in s.ops for k in ("Root", "To") if o.get(k)]
    if any(not p.startswith(chk.dir + "/") for p in paths) or any(o["Op"] == "chdir" for o in s.ops):
        return False
    if any(o["Op"] == "exec" for o in s.ops):
        return False
    for o in s.ops:
        p = o.get("To") or o.get("Root")
        if o["Op"] in ("create", "createsimple", "cp", "mv", "mkdir") and p:
            shutil.rmtree(p, ignore_errors=True)
    return True


def run_validate(chk, scripts, words, only=(), module="DupiTrace", what="", drv=None, op_timeout=40, batch=None,
                 timeout=600, workers=4, env=None, extra=None, cfg=None):
    """Runs the scripts on the real code and checks what happened."""
    res = chk.run_scripts([s.ops for s in scripts], drv=drv, op_timeout=op_timeout, env=env)
    skipped = [s for s, r in zip(scripts, res) if r is None]
    scripts, res = [s for s, r in zip(scripts, res) if r is not None], [r for r in res if r is not None]
    traces = [events(s, r) for s, r in zip(scripts, res)]
    # an operation that did not return is tried again, alone and with more
    # time; once one is confirmed the others are not tried
    for i, t in enumerate(traces):
        if t and t[-1]["e"] == "hang" and clear_roots(chk, scripts[i]):
            r = chk.run_scripts([scripts[i].ops], drv=drv, op_timeout=2 * op_timeout, env=env)[0]
            traces[i] = events(scripts[i], r)
            if traces[i][-1]["e"] == "hang":
                break
    bad = chk.validate(module, traces, extra=dict(extra or {}, H=words.H if words else [], only=list(only)), timeout=timeout,
                       workers=workers, cfg=cfg)
    for i, mm in sorted(bad.items()):
        line, kind = mm[-1]
        ev = traces[i][line - 1] if 0 < line <= len(traces[i]) else None
        chk.violation("%s: script %s, event %d (%s): observed behaviour is not one of the specification (%s)" % (
            what or chk.pid, scripts[i].name, line, ev and ev.get("e"), kind),
            dict(script=scripts[i].ops, event=ev, line=line, kind=kind, events=traces[i][:line]))
    for i, s in enumerate(scripts):
        if s.missing and i not in bad:
            raise ToolError("script %s: %s" % (s.name, s.missing))
    if skipped and not bad:
        raise ToolError("%d scripts were not run: too many hung at first" % len(skipped))
    return traces, bad


# --- random documents ---------------------------------------------------------
def passages(rng, count, lo, hi, nv):
    return [[rng.randrange(nv) for _ in range(rng.randint(lo, hi))] for _ in range(count)]


def random_docs(rng, count, base, k, nv=None, maxlen=30, share=0.7, dirs=3, plain=False, paths=None, lo=0):
    """count documents below directory base; many share passages."""
    nv = nv or len(VOCAB)
    pool = passages(rng, max(2, count // 5), k + 1, k + 6, nv)
    out = []
    for i in range(count):
        ws = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < share:
                ws += rng.choice(pool)
            else:
                ws += [rng.randrange(nv) for _ in range(rng.randint(lo, 8))]
        if rng.random() < 0.08:
            ws = ws[:rng.randint(0, k + 1)]
        ws = ws[:maxlen]
        p = paths[i] if paths else "%s/d%d/f%d" % (base, rng.randrange(dirs), i)
        st = 0 if rng.random() < 0.8 else rng.randrange(1, 5000)
        out.append(Doc(p, ws, render(rng, ws, plain=plain), start=st))
    return out
