"""Checks decided with the service specification spec/Dupi.tla (P01-P03, P05-P07, P15, P16, P21, P22)."""
import json, os, random
from dupilib import *
from vlib import ToolError


def model(chk, thorough_cfg=True):
    small = """SPECIFICATION MCSpec
CONSTANTS Roots = {"r1", "r2"} WH = {"w"} RH = {"a"} QH = {"q"} MaxDocs = %d MaxWords = 2
 MaxSess = %d KS = {1} NS = %s NWords = 2 H <- HV None = None
INVARIANTS Exclusion AllIndexesOk EnumOk
PROPERTIES Snapshot Prefixed
CHECK_DEADLOCK FALSE
"""
    if chk.thorough:
        chk.model("MCDupi", small % (2, 4, "{1, 2}"), "service, 2 roots, 4 sessions, <=2 docs of <=2 words", timeout=850)
    else:
        chk.model("MCDupi", small % (2, 3, "{2}"), "service, 2 roots, 3 sessions, <=2 docs of <=2 words")


def allblots(words, docs, c):
    s = []
    for d in docs:
        for f in words.fps(d.ws, c["k"], c["m"], c["n"]):
            s.append(f)
    return sorted(set(s))


def rndcfg(rng, fls=(16384, 16384, 1, 2, 3, 7)):
    return cfg(k=rng.choice([1, 2, 2, 3, 4]), m=rng.choice([1, 1, 1, 2, 3]), n=rng.choice([1, 2, 2, 3, 4, 5]),
               w=rng.choice([1, 2, 3, 4, 8]), fl=rng.choice(fls))


def build(s, root, c, docs, splits=(), fills=None):
    """create, add in sessions (splits: positions where a session ends)"""
    fills = fills or {}
    s.create(root, "w0", c)
    h, n, at = "w0", 0, 0
    cuts = list(splits) + [len(docs)]
    for i, cut in enumerate(cuts):
        if i:
            n += 1
            h = "w%d" % n
            s.openw(root, h)
        while at < cut:
            nx = min([p for p in fills if p > at] + [cut])
            if at in fills and fills[at]:
                s.fill(h, fills[at])
            s.add(h, docs[at:nx])
            at = nx
        s.closew(h)
    return s


def reads(rng, s, root, h, words, docs, c, caps=True, getall=True):
    s.openr(root, h)
    if getall:
        s.getall(h)
    bl = allblots(words, docs, c)
    rng.shuffle(bl)
    sp = c["n"] << 16
    some = bl[:150] + [rng.randrange(sp) for _ in range(20)]
    # any 32-bit value is looked up reduced
    some += [b + sp * rng.randrange(1, (1 << 32) // sp) for b in bl[:60] if sp < 1 << 32]
    some = [b for b in some if b < 1 << 32]
    s.get(h, some)
    if caps:
        for cap in (0, 1, 2, 5):
            s.get(h, bl[:40], cap)
    return s


def several(chk, rng, num, kinds=("getall",), name="several", tag=""):
    """several indexes of different configurations, written and read at the
    same time in one process, an operation here and one there"""
    scripts = []
    for i in range(num):
        s = Script("%s-%d" % (name, i))
        X = []
        for j in range(rng.choice([2, 3, 3])):
            c = rndcfg(rng)
            N = rng.choice([4, 9, 16])
            # the same few directories, in another order
            paths = ["%s/%d" % (rng.choice(["/sv/a", "/sv/b", "/sv/a/b", "/sv/b/a/c", "/x", "/sv"]), y) for y in range(N)] if i % 2 else None
            docs = random_docs(rng, N, "/sv%d/%d" % (i, j), c["k"] * c["m"], paths=paths)
            # a word sequence that all of them have
            for d in docs[:3]:
                d.ws = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
                d.text = render(rng, d.ws)
                d.end = d.start + len(d.text.encode())
            X.append(dict(root=chk.path("sv%s%d-%d" % (tag, i, j)), c=c, docs=docs, n=0, at=0, w=None, r=None, j=j))
        for x in X:
            x["w"] = "w%d" % x["j"]
            s.create(x["root"], x["w"], x["c"])
        for _ in range(60 if num < 10 else 40):
            x = rng.choice(X)
            a = rng.random()
            if x["w"]:
                if a < 0.7 and x["at"] < len(x["docs"]):
                    n = rng.choice([1, 1, 2, 3])
                    s.add(x["w"], x["docs"][x["at"]:x["at"] + n])
                    x["at"] += n
                elif a > 0.85 or x["at"] >= len(x["docs"]):
                    s.closew(x["w"])
                    x["w"] = None
            elif x["r"]:
                if a < 0.75:
                    k = rng.choice(kinds)
                    if k == "enum":
                        s.enum(x["r"], batch=rng.choice([1, 3]))
                    elif k == "blotdoc":
                        s.blotdoc(x["r"], rng.sample(x["docs"], 2))
                    else:
                        getattr(s, k)(x["r"], *([x["root"]] if k == "info" else []))
                else:
                    s.closer(x["r"])
                    x["r"] = None
            else:
                x["n"] += 1
                if x["at"] < len(x["docs"]) and a < 0.5:
                    x["w"] = "w%d.%d" % (x["j"], x["n"])
                    s.openw(x["root"], x["w"])
                else:
                    x["r"] = "r%d.%d" % (x["j"], x["n"])
                    s.openr(x["root"], x["r"])
        for x in X:
            if x["w"]:
                s.closew(x["w"])
            if x["r"]:
                s.closer(x["r"])
        for x in X:
            s.openr(x["root"], "z%d" % x["j"])
        for k in kinds:
            for x in X[::-1]:
                if k == "blotdoc":
                    s.blotdoc("z%d" % x["j"], x["docs"][:3])
                else:
                    getattr(s, k)("z%d" % x["j"], *([x["root"]] if k == "info" else []))
        for x in X:
            s.closer("z%d" % x["j"])
        scripts.append(s)
    return scripts


# --- P01 ------------------------------------------------------------------------
def p01(chk):
    model(chk)
    words = Words(chk)
    rng = chk.rng
    scripts = several(chk, random.Random("several/%d" % chk.seed), 20 if chk.thorough else 5)
    for i in range(80 if chk.thorough else 26):
        c = rndcfg(rng, fls=(16384,))
        K = c["k"] * c["m"]
        pool = passages(rng, 3, K + 1, K + 1 + rng.choice([0, 0, 1, 4]), len(VOCAB))
        docs = []
        N = rng.choice([2, 3, 8, 16, 30])
        for j in range(N):
            ws = list(rng.choice(pool))
            # the run at the start, at the end, in the middle, or the whole document
            where = rng.choice(["whole", "first", "last", "mid", "mid"])
            pre = [rng.randrange(len(VOCAB)) for _ in range(rng.randint(1, 12))]
            post = [rng.randrange(len(VOCAB)) for _ in range(rng.randint(1, 12))]
            ws = dict(whole=ws, first=ws + post, last=pre + ws, mid=pre + ws + post)[where]
            t = render(rng, ws)
            if where in ("whole", "last") and rng.random() < 0.7:
                t = t.rstrip(".\n ?!»")
            docs.append(Doc("/c%d/d%d/f%d" % (i, j % 3, j), ws, t, start=rng.choice([0, 0, 17])))
        s = Script("shared-%d" % i)
        root = chk.path("p01-%d" % i)
        cuts = sorted(rng.sample(range(1, N), min(N - 1, rng.choice([0, 1, 2])))) if N > 1 else []
        build(s, root, c, docs, cuts)
        s.openr(root, "r").getall("r").enum("r", batch=rng.choice([1, 3, 50]), cap=rng.choice([-1, -1, 1, 2]))
        s.closer("r")
        scripts.append(s)
    # the run is far into long documents: after many words, after much between words
    for i, (far, gap) in enumerate([(300, 1100000), (9000, 70000)] + ([(70000, 10)] if chk.thorough else [])):
        c = cfg(k=2 + i, n=rng.choice([1, 2, 3]), w=3)
        run = [1, 2, 3, 4, 5, 6]
        docs = []
        for j in range(3):
            pre = [rng.randrange(7, 12) for _ in range(far + 13 * j)]
            pos = [rng.randrange(7, 12) for _ in range(9)]
            t = render(rng, pre, plain=True) + rng.choice([" ", "\n", "\u2026"]) * gap
            docs.append(Doc("/long/%d" % j, pre + run + pos, t + render(rng, run).strip() + " " + render(rng, pos, plain=True)))
        s = Script("long-%d" % i)
        root = chk.path("p01l-%d" % i)
        build(s, root, c, docs, [2])
        s.openr(root, "r").getall("r").enum("r", batch=3)
        s.closer("r")
        scripts.append(s)
    # ... and after just as many words as 16 bits count
    c = cfg(k=3, n=2, w=1)
    far = 65536 - rng.choice([1, 2, 3])
    docs = []
    for j, n in enumerate([far, 5, 0]):
        ws = [7 + x % 2 for x in range(n)] + [1, 2, 3, 4] + [20 + j, 9 + j, 30 + j]
        docs.append(Doc("/far/%d" % j, ws, " ".join(VOCAB[w] for w in ws)))
    s = Script("far")
    root = chk.path("p01f")
    build(s, root, c, docs, [1])
    scripts.append(s.openr(root, "r").getall("r").closer("r"))
    # many documents sharing one run: the list spans several chunks on disk
    for i, (N, gap) in enumerate([(530, 0), (600, 130)] if not chk.thorough else [(530, 0), (600, 130), (1100, 0), (700, 17000)]):
        c = cfg(k=2, n=2, w=4)
        run = [1, 2, 3]
        docs = [Doc("/many/%d" % j, run if j % 3 else [5 + j % 7] + run, render(rng, run if j % 3 else [5 + j % 7] + run)) for j in range(N)]
        s = Script("many-%d" % i)
        root = chk.path("p01m-%d" % i)
        build(s, root, c, docs, [N // 3, N // 2], {N // 2 + 5: gap} if gap else None)
        s.openr(root, "r").getall("r").enum("r", batch=4)
        s.closer("r")
        scripts.append(s)
    run_validate(chk, scripts, words, only=["passage", "create", "add", "closew", "openw", "openr"], what="P01")
    chk.note(pairs="all pairs of documents of every index; runs of exactly k+1 words at first/last/middle positions")
    chk.sample(dict(ops=[o["Op"] for o in scripts[0].ops], doc=[o for o in scripts[0].ops if o["Op"] == "add"][0]["Docs"][0]))


# --- P02 ------------------------------------------------------------------------
def tiny(rng, words, base, lens, k=1):
    """documents of k+1 words; lens: list length per fingerprint; returned in
    random order"""
    docs = []
    j = 0
    for f, n in enumerate(lens):
        ws = [(7 * f + x) % len(VOCAB) for x in range(k + 1)]
        for _ in range(n):
            docs.append(Doc("%s/t%d" % (base, j), ws, render(rng, ws, plain=True)))
            j += 1
    rng.shuffle(docs)
    return docs


def p02(chk):
    chk.model("Posting", "MCPosting.cfg" if not chk.thorough else "MCPostingBig.cfg",
              "posting lists in chunks on disk, sessions, crashes: what a reader decodes is what was committed", timeout=800)
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(60 if chk.thorough else 14):
        c = rndcfg(rng)
        N = rng.choice([1, 5, 20, 40])
        docs = random_docs(rng, N, "/p02/%d" % i, c["k"] * c["m"])
        s = Script("random-%d" % i)
        root = chk.path("p02-%d" % i)
        cuts = sorted(rng.sample(range(1, N), min(N - 1, rng.choice([0, 0, 1, 3])))) if N > 1 else []
        build(s, root, c, docs, cuts)
        reads(rng, s, root, "r", words, docs, c)
        s.closer("r")
        scripts.append(s)
    # lists around the chunk size, with gaps of one to four bytes
    shapes = [([511, 3], {}), ([512, 2], {}), ([513, 1], {}), ([1023, 40], {}), ([1025, 7], {}),
              ([300, 300], {1: 126, 5: 127, 9: 128, 300: 129}),
              ([280, 260], {j: 130 for j in range(1, 540, 2)}),
              ([40, 30], {3: 16383, 9: 16384, 20: 16385, 50: 20000})]
    if chk.thorough:
        shapes += [([1536, 600], {}), ([2600, 2], {}), ([200, 200], {j: 16400 for j in range(1, 40, 2)}),
                   ([30, 30], {4: 2097151, 8: 2097153})]
    for i, (lens, fills) in enumerate(shapes):
        c = cfg(k=1, n=rng.choice([1, 2, 3]), w=rng.choice([1, 2, 4]), fl=rng.choice([16384, 100]))
        docs = tiny(rng, words, "/p02t/%d" % i, lens)
        s = Script("chunks-%d" % i)
        root = chk.path("p02t-%d" % i)
        cuts = [] if i % 2 == 0 else sorted(rng.sample(range(1, len(docs)), 2))
        build(s, root, c, docs, cuts, fills)
        reads(rng, s, root, "r", words, docs, c)
        s.closer("r")
        scripts.append(s)
    # every behaviour of the posting specification up to a bound, on the code
    scripts += boundaries(chk, rng)
    scripts.append(huge(chk, rng, ["getruns"]))
    scripts += far(chk, rng, ["getall"])
    scripts += posting_behaviours(chk, rng, 40 if chk.thorough else 10)
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("getall",))
    run_validate(chk, scripts, words, only=["get", "create", "add", "closew", "openw", "openr"], what="P02", timeout=800)
    chk.sample(dict(ops=[o["Op"] for o in scripts[0].ops], lists="0..2600 long, gaps of 1 to 2097153 documents"))


def huge(chk, rng, what, total=None):
    """a list with more documents than 16 bits count, and some short ones"""
    total = total or (1 << 16) + rng.randrange(2, 9)
    cut = rng.randrange(20000, 45000)
    n = rng.choice([1, 2])
    s = Script("huge")
    root = chk.path("huge")
    d = [Doc("/huge/%d" % j, [3, 10 + j], render(rng, [3, 10 + j], plain=True)) for j in range(5)]
    s.create(root, "w", cfg(k=1, n=n, w=rng.choice([1, 4])))
    s.addsame("w", d[1], 300).addsame("w", d[0], cut).addsame("w", d[2], 5).closew("w")
    s.openw(root, "w2").addsame("w2", d[0], total - cut - 1).add("w2", d[3:]).addsame("w2", d[1], 2).addsame("w2", d[0], 1).closew("w2")
    s.openr(root, "r")
    for x in what:
        getattr(s, x)("r")
    return s.closer("r")


def far(chk, rng, reads, docs=True):
    """the files of an index grow between its sessions, so that blocks of
    postings lie around and beyond the offsets that 31, 32 and 40 bits hold,
    and documents have numbers (and records at offsets) beyond them"""
    scripts = []
    for i, edge in enumerate([[31, 32, 33], [32, 40], [31, 44]]):
        s = Script("far-%d" % i)
        root = chk.path("far-%d" % i)
        n = [1, 2, 3][i]
        c = cfg(k=1, n=n, w=rng.choice([1, 3]), fl=rng.choice([16384, 7]))
        sets = [[3, 4], [5, 6], [3, 4, 5, 6, 7]]
        N = [0]

        def more(num, big=0):
            r = []
            for j in range(num):
                ws = rng.choice(sets) + [20 + (N[0] % 10)] * (j < 3)
                r.append(Doc("/far%d/%d" % (i, N[0]), ws, render(rng, ws, plain=True)))
                N[0] += 1
            for j in range(big):
                r.append(Doc("/far%d/%d" % (i, N[0]), sets[0], render(rng, sets[0], plain=True)))
                N[0] += 1
            return r
        s.create(root, "w", c).add("w", more(6, 520 if i == 0 else 3)).closew("w")
        num = 0
        for j, e in enumerate(edge):
            # in the second, the records appended lie at 3 * 2^32 (and then
            # 6 * 2^32) bytes and a little after the first
            by = (2 ** 30 - 6 if i == 1 else [0, 400000000, 1800000000][j]) if docs and i < 2 else 0
            s.grow(root, far=(1 << e) - rng.choice([0, 1, 2, 9, 100, 511, 520, 600]), n=by)
            num += by
            s.openw(root, "w").add("w", more(7, 1040 if j == 0 and i != 1 else 5)).closew("w")
            if j < len(edge) - 1 and rng.random() < 0.5:
                s.openr(root, "r").getall("r").closer("r")
        s.openr(root, "r")
        for x in reads:
            if x != "stats" or num < 1000000000:
                getattr(s, x)("r", **(dict(batch=1, cap=rng.choice([-1, 300])) if x == "enum" else {}))
        scripts.append(s.closer("r"))
    return scripts


def boundaries(chk, rng):
    """one list, with sessions ending (and starting) just where a block of it
    is full, one posting short of it, and one over"""
    plans = []
    for a in (510, 511, 512, 513):
        plans.append((a, [a, a + 3], {}))
        plans.append((a + 514, [a, a + 511, a + 512], {}))
    plans += [(1030, [512, 1024], {}), (1030, [1, 513, 1025], {}), (1030, [1024], {}),
              (515, [], {511: 130}), (515, [], {511: 17000}), (514, [], {510: 17000}), (515, [513], {510: 140, 511: 17000}),
              (520, [511, 512], {511: 130}),           # 511 bytes, then a difference of two
              (520, [512], {510: 130, 511: 130}), (520, [510, 512], {509: 200, 512: 129}),
              (400, [256, 257], {j: 128 for j in range(1, 399)}), (400, [171, 172], {j: 16384 for j in range(165, 172)})]
    if chk.thorough:
        for _ in range(30):
            n = rng.choice([515, 1030, 1545])
            fl = {rng.randrange(1, n): rng.choice([126, 127, 128, 129, 16382, 16383, 16384]) for _ in range(rng.randint(0, 6))}
            plans.append((n, sorted({512 * j + e - len(fl) * rng.choice([0, 1]) for j in (1, 2) for e in (-2, -1, 0, 1) if 0 < 512 * j + e - len(fl) < n}), fl))
    scripts = []
    for i, (n, cuts, fills) in enumerate(plans):
        c = cfg(k=1, n=rng.choice([1, 1, 2]), w=rng.choice([1, 1, 3]), fl=rng.choice([16384, 512, 511]))
        docs = [Doc("/bd%d/%d" % (i, j), [3, 4], render(rng, [3, 4], plain=True)) for j in range(n)]
        s = Script("boundary-%d" % i)
        root = chk.path("bd-%d" % i)
        build(s, root, c, docs, cuts, fills)
        s.openr(root, "r").getall("r").enum("r", batch=1, cap=rng.choice([-1, 100])).stats("r").closer("r")
        scripts.append(s)
    return scripts


def posting_behaviours(chk, rng, num):
    """Histories of add / session end / reopening / lookup made by simulating
    the posting specification, executed on real indexes."""
    rc, out, st = chk.tlc("PostingGen", "PostingGen.cfg", args=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(chk.seed)],
                          workers=1, deadlock=False)
    hist = []
    for ln in out.splitlines():
        if ln.startswith('"{') or ln.startswith("{"):
            try:
                x = json.loads(ln)
                hist.append(json.loads(x) if isinstance(x, str) else x)
            except ValueError:
                pass
    if not hist:
        raise ToolError("no behaviours generated:\n" + out[-2000:])
    uniq = []
    for h in hist:
        if h not in uniq:
            uniq.append(h)
    scripts = []
    for i, h in enumerate(uniq[:num]):
        c = cfg(k=1, n=rng.choice([1, 2]), w=rng.choice([1, 2]), fl=rng.choice([1, 2, 16384]))
        s = Script("behaviour-%d" % i)
        root = chk.path("pb-%d" % i)
        s.create(root, "w", c)
        j = ses = 0
        opened = True
        for a in h["h"]:
            if a["a"] == "add":
                # the slots of the specification are the fingerprints of words 1 and 3
                ws = [0]
                for sl in a["s"]:
                    ws += [2 * sl - 1, 2 * sl - 1]
                if not a["s"]:
                    ws = []
                # a step of the specification stands for many postings, so
                # that the buffer of a list fills as it does there
                docs = []
                for _ in range(90):
                    docs.append(Doc("/b%d/%d" % (i, j), ws, render(rng, ws, plain=True)))
                    j += 1
                s.add("w", docs)
            elif a["a"] == "close":
                s.closew("w")
                s.openr(root, "r").getall("r").closer("r")
                opened = False
            elif a["a"] == "open":
                s.openw(root, "w")
                opened = True
        if opened:
            s.closew("w")
        s.openr(root, "r").getall("r").closer("r")
        scripts.append(s)
    chk.note(generated_behaviours=len(scripts))
    return scripts


# --- P03 ------------------------------------------------------------------------
def p03(chk):
    chk.model("Posting", "MCPosting.cfg" if not chk.thorough else "MCPostingBig.cfg",
              "posting lists over sessions", timeout=800)
    words = Words(chk)
    rng = chk.rng
    scripts = []

    def full(s, root, h, docs, c):
        s.openr(root, h).getall(h).enum(h, batch=rng.choice([1, 5])).stats(h)
        s.closer(h)

    for i in range(40 if chk.thorough else 12):
        c = rndcfg(rng)
        N = rng.choice([3, 10, 25])
        docs = random_docs(rng, N, "/p03/%d" % i, c["k"] * c["m"], paths=weird_paths(rng, N) if i % 3 == 0 else None)
        root = chk.path("p03-%d" % i)
        s = Script("split-%d" % i)
        kind = i % 4
        if kind == 0:
            cuts = list(range(1, N))[:8]
        elif kind == 1:
            cuts = [0, 0, N // 2, N // 2, N]       # empty sessions, first session empty
        elif kind == 2:
            cuts = sorted(rng.choice(range(0, N + 1)) for _ in range(rng.randint(1, 6)))
        else:
            cuts = [N, N]
        build(s, root, c, docs, cuts)
        full(s, root, "r", docs, c)
        one = chk.path("p03o-%d" % i)
        build(s, one, c, docs)
        full(s, one, "o", docs, c)
        scripts.append(s)
    shapes = [([515, 20], [100, 511, 513]), ([600, 600], [1, 512, 1024]), ([1030, 4], [511, 512, 1024, 1025]),
              ([300, 2], [10, 20, 30, 250]), ([1, 1], [1]), ([2, 513], [511])]
    if chk.thorough:
        shapes += [([1600, 30], [512 * j + e for j in (1, 2, 3) for e in (-1, 0, 1)]), ([90] * 10, list(range(50, 900, 100)))]
    for i, (lens, cuts) in enumerate(shapes):
        c = cfg(k=1, n=rng.choice([1, 2]), w=rng.choice([1, 3]), fl=rng.choice([16384, 64, 1]))
        docs = tiny(rng, words, "/p03t/%d" % i, lens)
        root = chk.path("p03t-%d" % i)
        s = Script("chunks-%d" % i)
        fills = {cuts[0]: 200} if i % 2 else {}
        build(s, root, c, docs, [x for x in cuts if x <= len(docs)], fills)
        full(s, root, "r", docs, c)
        scripts.append(s)
    # sessions of a process that may not have many files open
    c = cfg(k=1, n=1, w=2)
    docs = random_docs(rng, 20, "/p03f", 1)
    for n in (1, 3):
        c["n"] = n
        s = Script("few-files-%d" % n)
        root = chk.path("p03f%d" % n)
        s.silent(Op="fdlimit", N=9 + n).silent(Op="gcpercent", N=-1)
        build(s, root, dict(c), docs, list(range(1, 20)) if n == 1 else [5, 10])
        for j in range(25 if n == 1 else 10):
            s.openr(root, "x%d" % j).getall("x%d" % j).closer("x%d" % j)
        full(s, root, "r", docs, c)
        s.silent(Op="gcpercent", N=100).silent(Op="fdlimit", N=-1)
        scripts.append(s)
    scripts += boundaries(chk, rng)
    scripts += far(chk, rng, ["enum", "stats"], docs=False)
    scripts += posting_behaviours(chk, rng, 40 if chk.thorough else 10)
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("getall", "enum", "stats"))
    run_validate(chk, scripts, words, what="P03", timeout=800)
    chk.sample(dict(ops=[o["Op"] for o in scripts[1].ops]))


# --- P05 ------------------------------------------------------------------------
def weird_paths(rng, n):
    comps_ = ["a", "b", "ab", "abc", "a b", "a.b", ".hid", "ü", "漢字", "a\nb", "-x", "x" * 127, "y" * 128, "z" * 200,
              "A", "0", "f.txt", "f.txt.bak", "...", "\t", "ñ", "'", '"', "\\", "*", "é", "\udcff", "a\udce9b", "\udc80\udc80", "\udce6\udcbc", "\ufffd"]
    out = []
    for i in range(n):
        t = rng.random()
        if out and t < 0.2:
            out.append(rng.choice(out))                        # the same file again
        elif out and t < 0.4:
            out.append(rng.choice(out) + "/" + rng.choice(comps_))  # below an earlier path
        elif out and t < 0.5:
            out.append(os.path.dirname(rng.choice(out)) or "/p")    # a directory of an earlier path
        elif out and t < 0.6:
            out.append(rng.choice(out) + rng.choice(["x", "é", " "]))
        else:
            out.append("/" + "/".join(rng.choice(comps_) for _ in range(rng.randint(1, 6))))
    return out


def p05(chk):
    model(chk)
    chk.model("DocTable", "MCDocTable.cfg", "document table: buffered appends, sessions, crashes")
    chk.refuses("DocTable", "MCDocTable.cfg", [[('"code"', '"%s"' % d)] for d in ("pads", "full")])
    chk.refuses("Fnames", "MCFnames.cfg", [[("Rebuilt = TRUE", "Rebuilt = FALSE")]])
    chk.model("Fnames", "MCFnames.cfg", "path tree: interning, writing, reading")
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(50 if chk.thorough else 16):
        c = cfg(k=1, n=rng.choice([1, 2]), w=rng.choice([1, 2, 4]), fl=[1, 2, 3, 4, 16384, 5, 8, 7][i % 8])
        N = [c["fl"] - 1, c["fl"], c["fl"] + 1, 2 * c["fl"], 30][i % 5]
        N = max(1, min(N, 40))
        paths = weird_paths(rng, N)
        docs = []
        for j, p in enumerate(paths):
            ws = [rng.randrange(len(VOCAB)) for _ in range(rng.randint(2, 6))]
            st = rng.choice([0, 1, 7, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 5])
            en = rng.choice([st, st, st + 1, 2**32 - 1, 2**32 - 1, rng.randrange(st, 2**32)])
            docs.append(Doc(p, ws, render(rng, ws), start=st, end=min(en, 2**32 - 1)))
        s = Script("paths-%d" % i)
        root = chk.path("p05-%d" % i)
        cuts = sorted(rng.choice(range(0, N + 1)) for _ in range(rng.choice([0, 1, 2, 4])))
        build(s, root, c, docs, cuts)
        s.openr(root, "r").getall("r").enum("r", batch=2).stats("r")
        s.closer("r")
        scripts.append(s)
    # relative and unclean spellings
    for i in range(3):
        s = Script("spelling-%d" % i)
        root = chk.path("p05s-%d" % i)
        cwd = chk.path("cwd%d" % i, "sub", "x")
        os.makedirs(cwd, exist_ok=True)
        sp = ["f", "./f", "../f", "g/../f", "../sub//x/f", "/q//w/./e", "/q/w/../e/", "/../../z", ".", "..", "é/./ü/"]
        docs = [Doc(p, [j, j + 1, 3], render(rng, [j, j + 1, 3]), start=j,
                    abs_=clean(os.path.join(cwd, p))) for j, p in enumerate(sp)]
        rng.shuffle(docs)
        s.silent(Op="chdir", Root=cwd)
        build(s, root, cfg(k=1, n=2, fl=rng.choice([2, 100])), docs, [4])
        s.openr(root, "r").getall("r")
        s.closer("r")
        scripts.append(s)
    # many directories and nodes: node numbers of more than one byte
    for i, N in enumerate([400] if not chk.thorough else [400, 2000]):
        s = Script("tree-%d" % i)
        root = chk.path("p05n-%d" % i)
        docs = [Doc("/t/%d/%d/%s" % (j % 150, j % 7, "n" * (j % 140 + 1)), [j % 60, (j * 7) % 60], render(rng, [j % 60, (j * 7) % 60], plain=True),
                    start=j, end=j * 3) for j in range(N)]
        build(s, root, cfg(k=1, n=1, w=4, fl=rng.choice([16384, 64])), docs, [N // 2])
        s.openr(root, "r").getall("r").stats("r")
        s.closer("r")
        scripts.append(s)
    # the largest path name that is still reasonable, and thousands of documents
    s = Script("long")
    docs = [Doc("/" + "l" * L, [1, 2, L % 50], render(rng, [1, 2, L % 50], plain=True)) for L in (126, 127, 128, 129, 255, 256, 4095, 16383, 16384, 20000, 65535, 65536, 70000)]
    root = chk.path("p05l")
    s.create(root, "w", cfg(k=1, n=1, fl=300))
    s.fill("w", 3000).add("w", docs[:5]).closew("w").openw(root, "w2").add("w2", docs[5:]).closew("w2")
    s.openr(root, "r").getall("r").closer("r")
    scripts.append(s)
    # more paths than 16 bits count; the later ones below, at and beside the first ones
    s = Script("many")
    root = chk.path("p05m")
    top = 65536 + rng.randrange(10, 3000)
    at = [0, 5, 254, 255, 256, 32767, 65530, 65533, 65534, 65535, 65536, top - 1, top, top + 1]
    late = [33, 32766, 65500, 65522, 65525, top - 3, top - 2]       # the numbers of these nodes come in their turn

    def there(d, at=at):
        return [Doc("/many/%d%s" % (j, d), [2, 1 + j % 60], render(rng, [2, 1 + j % 60], plain=True), start=j) for j in at]
    s.create(root, "w", cfg(k=1, n=1, w=3, fl=1000)).add("w", there("")[:6]).fillpaths("w", 0, 40000).add("w", there("/a")).closew("w")
    s.openw(root, "w2").fillpaths("w2", 39990, top - 39990).add("w2", there("/a/b") + there("x") + there("/s/t", late)).closew("w2")
    s.openw(root, "w3").add("w3", there("") + there("/b") + there("/s/u", late)).closew("w3")
    s.openr(root, "r").getall("r").stats("r").closer("r")
    scripts.append(s)
    scripts += far(chk, rng, ["getall"])
    # every behaviour of at most five steps over seven paths, in real indexes
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("getall",))
    run_validate(chk, scripts, words, only=["get", "enum", "create", "add", "closew", "openw", "openr", "statspaths"], what="P05")
    doctable(chk)
    chk.sample(dict(paths=[d["P"][:60] for d in scripts[0].ops[1].get("Docs", [])][:6]))


def doctable(chk):
    """the document table by itself (package dmd)"""
    rng = chk.rng
    scripts = []
    for i in range(60 if chk.thorough else 24):
        s = Script("dmd-%d" % i)
        root = chk.path("dmd%d" % i)
        os.makedirs(root, exist_ok=True)
        fl = rng.choice([1, 2, 3, 5, 16, 16384])
        total = 0
        for sess in range(rng.randint(1, 4)):
            n = rng.choice([0, 1, fl - 1, fl, fl + 1, 2 * fl + 1, 3])
            n = max(0, min(n, 40))
            fl2 = fl if rng.random() < 0.5 else rng.choice([1, 2, 3, 16384])
            s.op(dict(Op="dnew", Root=root, H="a%d" % sess, Fl=fl2), lambda x, fl2=fl2: [dict(e="dnew", ok=x["ok"], fl=fl2)])
            recs = [(rng.choice([0, 1, 255, 65536, 2**32 - 1]), rng.randrange(2**32), rng.randrange(2**32)) for _ in range(n)]
            for f, a, b in recs:
                # the path node number is passed as the length of P
                f = f % 1000
                s.op(dict(Op="dadd", H="a%d" % sess, Docs=[dict(P="x" * f, S=a, E=b)]),
                     lambda x, f=f, a=a, b=b: [dict(e="dadd", ok=x["ok"], rec=[str(f), str(a), str(b)],
                                                    id=(x["ids"] or [-1])[0], last=x.get("last", -1))])
            total += n
            s.op(dict(Op="dclose", H="a%d" % sess), lambda x: [dict(e="dclose", ok=x["ok"])])
            s.op(dict(Op="dopen", Root=root, H="t%d" % sess), lambda x: [dict(e="dopen", ok=x["ok"])])
            ids = list(range(1, total + 1))
            rng.shuffle(ids)
            s.op(dict(Op="dlook", H="t%d" % sess, Ids=ids + [total + 1, total + 7]),
                 lambda x, ids=tuple(ids + [total + 1, total + 7]): [dict(e="dlook", x=[dict(id=a, rec=r[:3], err=r[3]) for a, r in zip(ids, x["recs"])])])
            s.op(dict(Op="dnum", H="t%d" % sess), lambda x: [dict(e="dnum", n=x["n"], err=x["err"])])
            s.op(dict(Op="dcloser", H="t%d" % sess), lambda x: [dict(e="dcloser", ok=x["ok"])])
        scripts.append(s)
    run_validate(chk, scripts, None, module="DocTableTrace", what="P05 document table")


# --- P06 ------------------------------------------------------------------------
def slot_words(chk, words, n, want):
    """words whose (k=1) fingerprint is in the wanted shards: list of (shard, count)"""
    out = {}
    for i, h in enumerate(words.hash):
        out.setdefault(h % (n << 16) % n, []).append(i)
    return out


def shaped_docs(rng, words, base, n, shape):
    """documents such that shard sh has lists of the lengths shape[sh] (k=1):
    document j contains every word whose list is longer than j"""
    by = slot_words(None, words, n, shape)
    use = {}
    for sh, lens in enumerate(shape):
        cand = [w for w in by.get(sh, [])]
        if len(cand) < len(lens):
            raise ToolError("vocabulary too small")
        for w, ln in zip(cand, lens):
            if ln:
                use[w] = ln
    docs = []
    top = max(list(use.values()) + [0])
    first = len(VOCAB) - 1
    for j in range(top):
        ws = [w for w in use if use[w] > j]
        rng.shuffle(ws)
        # k = 1: the first word has no fingerprint, so begin with one of them twice
        docs.append(Doc("%s/%d" % (base, j), ws[:1] + ws, render(rng, ws[:1] + ws, plain=True)))
    rng.shuffle(docs)
    return docs


def p06(chk):
    model(chk)
    chk.model("Cursor", "MCCursor.cfg" if not chk.thorough else "MCCursorBig.cfg",
              "per-shard cursors refine the abstract enumeration, for every small distribution and sequence of buffers", timeout=800)
    chk.refuses("Cursor", "MCCursor.cfg", [[('"code"', '"%s"' % d)] for d in ("first", "own", "empty", "lost")])
    words = Words(chk)
    rng = chk.rng
    scripts = []
    # behaviours of the specification of enumeration, on the code
    rc, out, st = chk.tlc("CursorGen", "CursorGen.cfg", args=["-simulate", "num=%d" % (2000 if chk.thorough else 500), "-depth", "80",
                                                               "-seed", str(chk.seed)], workers=1, deadlock=False)
    gen = {}
    for ln in out.splitlines():
        if ln.startswith('"{'):
            x = json.loads(json.loads(ln))
            gen.setdefault(json.dumps(x["shape"]), []).append(x["calls"])
    if not gen:
        raise ToolError("no enumeration behaviours:\n" + out[-3000:])
    ncalls = 0
    for i, (shape, behs) in enumerate(sorted(gen.items())[:(120 if chk.thorough else 24)]):
        shape = json.loads(shape)
        n = len(shape)
        s = Script("cursor-%d" % i)
        root = chk.path("p06c-%d" % i)
        docs = shaped_docs(rng, words, "/p06/%d" % i, n, shape)
        c = cfg(k=1, n=n)
        build(s, root, c, docs, [len(docs) // 2] if i % 3 == 0 else [])
        s.openr(root, "r")
        # behaviours that need the code to be asked on beyond their end get two more calls
        for b, calls in enumerate(behs[:12]):
            q = "q%d" % b
            s.qstart("r", q)
            for caps in calls:
                s.qnext(q, [x or -1 for x in caps])
                ncalls += 1
            s.qnext(q, [-1]).qnext(q, [1, 1])
        for batch in (1, 2, 3, 10):
            for cap in (-1, 1, 2):
                s.enum("r", batch=batch, cap=cap, extra=3)
        # one result buffer kept over all calls
        s.qstart("r", "qr")
        for _ in range(sum(len(x) for x in shape) * 3 + 3):
            s.qnext("qr", [2, 1], reuse=True)
        s.closer("r")
        scripts.append(s)
    chk.note(generated_next_calls=ncalls)
    # random indexes
    for i in range(30 if chk.thorough else 10):
        c = rndcfg(rng, fls=(16384,))
        N = rng.choice([0, 1, 2, 15, 40])
        docs = random_docs(rng, N, "/p06r/%d" % i, c["k"] * c["m"]) if N else []
        s = Script("random-%d" % i)
        root = chk.path("p06r-%d" % i)
        build(s, root, c, docs, [N // 2] if N > 3 else [])
        s.openr(root, "r")
        for batch in (1, 2, 7, 1000):
            s.enum("r", batch=batch, cap=rng.choice([-1, -1, 1, 3, 100]), extra=2)
        # two enumerations taking turns, with capacities that change
        s.qstart("r", "x").qstart("r", "y")
        for _ in range(25):
            s.qnext(rng.choice("xy"), [rng.choice([-1, 1, 2, 3, 8]) for _ in range(rng.randint(1, 4))])
        s.closer("r")
        scripts.append(s)
    # long lists
    for i, lens in enumerate([[530, 3, 515], [1030]]):
        c = cfg(k=1, n=2, w=4)
        docs = tiny(rng, words, "/p06l/%d" % i, lens)
        s = Script("long-%d" % i)
        root = chk.path("p06l-%d" % i)
        build(s, root, c, docs, [200])
        s.openr(root, "r").enum("r", batch=2, cap=-1).enum("r", batch=3, cap=100).enum("r", batch=1, cap=512).enum("r", batch=1, cap=511)
        s.closer("r")
        scripts.append(s)
    scripts.append(huge(chk, rng, ["enumruns"]))
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("enum",))
    run_validate(chk, scripts, words, only=["enum", "enumend", "create", "add", "closew", "openr"], what="P06", timeout=800)
    dense(chk, rng)
    chk.sample(dict(shape=sorted(gen)[0], calls=gen[sorted(gen)[0]][0]))


def dense(chk, rng):
    """An index in which every fingerprint of a shard has two documents."""
    have = {}
    i = 0
    while len(have) < 65536:
        w = "q%x" % i
        h = fnv1_32(w.encode()) & 0xffff
        if h not in have:
            have[h] = w
        i += 1
    vocab = list(have.values())
    words = Words(chk, vocab)
    missing = 65536 - len(set(h & 0xffff for h in words.hash))
    if missing:
        # the hash of words is not what this construction assumes
        chk.note(dense="skipped: %d fingerprints not reached" % missing)
        return
    ws = [0] + list(range(65536))
    text = " ".join(vocab[w] for w in ws)
    s = Script("dense")
    root = chk.path("dense")
    d = [Doc("/dense/%d" % j, ws, text) for j in range(2)]
    s.create(root, "w", cfg(k=1, n=1)).add("w", d).closew("w").openr(root, "r")

    def mk(x):
        ps = x["p"] or []
        good = [d[0].id, d[1].id]
        return [dict(e="fact", kind="dense: every one of the 65536 fingerprints once, with both documents, then EOF",
                     holds=len(ps) == 65536 and len(set(p["b"] for p in ps)) == 65536 and all(p["d"] == good for p in ps)
                     and x["err"] == "EOF" and all(a == "0 EOF" for a in x["after"]),
                     pieces=len(ps), err=x["err"], after=x["after"])]
    s.op(dict(Op="enum", H="r", Batch=1000, Cap=-1, Extra=3), mk)
    s.closer("r")
    res = chk.run_scripts([s.ops], op_timeout=120)[0]
    tr = [e for e in events(s, res) if e["e"] in ("fact", "hang", "panic")]
    bad = chk.validate("DupiTrace", [tr], extra=dict(H=[[0, 0]], only=[]))
    if bad:
        chk.violation("P06: dense index: %s" % json.dumps(tr)[:400], dict(events=tr))


# --- P07 ------------------------------------------------------------------------
def p07(chk):
    chk.model("Readers", "MCReaders.cfg", "concurrent readers sharing one file handle: positional reads")
    chk.refuses("Readers", "MCReaders.cfg", [[("Positional = TRUE", "Positional = FALSE")]])
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(10 if chk.thorough else 4):
        c = cfg(k=rng.choice([1, 2]), n=rng.choice([1, 2, 4]), w=2)
        N = rng.choice([30, 60])
        docs = random_docs(rng, N, chk.path("corp%d" % i, "x"), c["k"], paths=[chk.path("corp%d" % i, "d%d" % (j % 4), "f%d" % j) for j in range(N)])
        for d in docs:
            d.start, d.end = 0, len(d.text.encode())
            with open(d.path, "wb") as f:
                f.write(d.text.encode())
        big = tiny(rng, words, "/p07/%d" % i, [540, 20], k=c["k"])
        root = chk.path("p07-%d" % i)
        s = Script("conc-%d" % i)
        build(s, root, c, docs + big, [20])
        s.openr(root, "r")
        bl = allblots(words, docs + big, c)
        for rnd in range(6 if chk.thorough else 3):
            br = []
            for g in range(10):
                kind = rng.choice(["get", "get", "get", "enum", "enum", "stats", "getcap", "blotdoc", "findblot"])
                b = Script()
                if kind == "get":
                    b.get("r", [rng.choice(bl) for _ in range(60)])
                elif kind == "getcap":
                    b.get("r", [rng.choice(bl) for _ in range(60)], rng.choice([1, 3]))
                elif kind == "enum":
                    b.enum("r", batch=rng.choice([1, 4]), cap=rng.choice([-1, 2, 50]), extra=1)
                elif kind == "stats":
                    b.stats("r")
                elif kind == "blotdoc":
                    b.blotdoc("r", [rng.choice(docs) for _ in range(5)])
                else:
                    locate_branch(b, words, rng, [rng.choice(docs) for _ in range(6)], c)
                br.append(b)
            s.par(br, reps=40 if chk.thorough else 15)
        s.closer("r")
        scripts.append(s)
    run_validate(chk, scripts, words, what="P07", op_timeout=120, timeout=800)
    chk.sample(dict(branches=[o["Op"] for o in [x for x in scripts[0].ops if x["Op"] == "par"][0]["Ops"]]))


def locate_branch(b, words, rng, docs, c):
    """locate calls; what they have to return is in the specification (LocateOk)"""
    fps = []
    for d in docs:
        f = words.fps(d.ws, c["k"], c["m"], c["n"])
        fps += f[:2]
    fps = list(dict.fromkeys(fps))[:8]
    if not fps:
        b.blotdoc("r", docs)
        return

    def mk(x):
        return [dict(e="locate", h="r", x=[dict(ws=[w + 1 for w in docs[y["i"]].ws], b=hl(y["b"]),
                                                found=y["err"] == "" and y["panic"] == "",
                                                at=word_at(docs[y["i"]], y["s"], y["e"], c))
                                           for y in x["found"]])]
    b.op(dict(Op="findblot", H="r", Docs=[d.op() for d in docs], Blots=fps), mk)


def word_spans(d):
    """byte spans of the words of a document text, in file offsets"""
    out = []
    pos = 0
    cur = None
    for ch in d.text:
        n = len(ch.encode())
        if ch.isalpha() or ch.isdecimal():
            if cur is None:
                cur = pos
        elif cur is not None:
            out.append((d.start + cur, d.start + pos))
            cur = None
        pos += n
    if cur is not None:
        out.append((d.start + cur, d.start + pos))
    if len(out) != len(d.ws):
        raise ToolError("words of %r: %d, expected %d" % (d.text, len(out), len(d.ws)))
    return out


def word_at(d, s, e, c):
    """number of the word that ends at e, if s is where the word k*m before it begins"""
    sp = word_spans(d)
    for i, (a, b) in enumerate(sp):
        if b == e and i >= c["k"] * c["m"] and sp[i - c["k"] * c["m"]][0] == s:
            return i + 1
    return 0


# --- P15 ------------------------------------------------------------------------
def p15(chk):
    model(chk)
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(60 if chk.thorough else 22):
        c = rndcfg(rng)
        c["n"] = [1, 2, 3, 4, 5, 8][i % 6]
        N = [0, 1, 2, 10, 40, 25][i % 6 if i > 5 else rng.randrange(6)]
        docs = random_docs(rng, N, "/p15/%d" % i, c["k"] * c["m"], paths=weird_paths(rng, N)) if N else []
        s = Script("stats-%d" % i)
        root = chk.path("p15-%d" % i)
        cuts = sorted(rng.choice(range(0, N + 1)) for _ in range(rng.choice([0, 1, 2, 3])))
        build(s, root, c, docs, cuts, {0: rng.choice([0, 0, 1, 3, 200])} if N else {})
        s.openr(root, "r").stats("r").closer("r")
        # once more, appended by nothing and by something
        s.openw(root, "x").closew("x").openr(root, "r2").stats("r2").closer("r2")
        s.openw(root, "y").fill("y", rng.choice([0, 1, c["fl"] if c["fl"] < 100 else 5])).closew("y").openr(root, "r3").stats("r3").closer("r3")
        scripts.append(s)
    for i, lens in enumerate([[600, 520, 40], [1100], [3, 2, 1]]):
        c = cfg(k=1, n=[2, 1, 4][i], w=4)
        docs = tiny(rng, words, "/p15l/%d" % i, lens)
        s = Script("long-%d" % i)
        root = chk.path("p15l-%d" % i)
        build(s, root, c, docs, [len(docs) // 2])
        s.openr(root, "r").stats("r").closer("r")
        scripts.append(s)
    scripts.append(huge(chk, rng, ["stats"]))
    scripts += far(chk, rng, ["stats"])
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("stats",))
    run_validate(chk, scripts, words, only=["stats", "statsdocs", "statspaths", "create", "closew", "openr", "openw", "add"], what="P15")
    from chk_cli import inspect
    inspect(chk, words)
    chk.note(indexes=len(scripts))
    chk.sample(dict(ops=[o["Op"] for o in scripts[3].ops]))


# --- P16 ------------------------------------------------------------------------
def p16(chk):
    model(chk)
    words = Words(chk)
    rng = chk.rng
    scripts = []
    # accepted ones work
    good = [cfg(k=k, m=m, n=n, w=w, fl=fl) for k, m, n, w, fl in
            [(1, 1, 1, 1, 1), (1, 1, 1, 1, 2), (2, 1, 1, 8, 1), (3, 2, 2, 1, 3), (1, 3, 3, 2, 1), (10, 1, 4, 4, 16384),
             (4, 1, 7, 3, 5), (10, 2, 2, 2, 100), (7, 1, 12, 16, 2), (1, 5, 2, 5, 16384), (2, 2, 16, 1, 1), (20, 1, 1, 3, 4)]]
    # more than fits into 8 or 16 bits
    good += [cfg(k=k, m=m, n=n, w=w, fl=fl) for k, m, n, w, fl in
             [(300, 1, 1, 2, 16384), (2, 150, 1, 2, 9), (2, 1, 1, 300, 4), (2, 1, 2, 2, 65537), (1, 1, 1, 3, 1 << 20), (3, 1, 1, 1, 1 << 45)]]
    if chk.thorough:
        good += [cfg(k=k, m=m, n=n, w=w, fl=fl) for k, m, n, w, fl in
                 [(1000, 1, 2, 3, 7), (1, 300, 1, 3, 70000), (2, 1, 1, 3000, 100), (17, 17, 2, 20, 300), (3, 1, 50, 2, 16)]]
        good += [cfg(k=rng.randint(1, 12), m=rng.randint(1, 4), n=rng.randint(1, 16), w=rng.randint(1, 20), fl=rng.randint(1, 50)) for _ in range(30)]
    for i, c in enumerate(good):
        K = c["k"] * c["m"]
        docs = random_docs(rng, 12, "/p16/%d" % i, K, maxlen=3 * K + 10 if K < 100 else K + 60)
        s = Script("good-%d" % i)
        root = chk.path("p16-%d" % i)
        s.create(root, "w", c, timeout=30).add("w", docs[:5]).closew("w").readcfg(root)
        s.openw(root, "w2").add("w2", docs[5:9]).closew("w2").readcfg(root)
        s.openr(root, "r").info("r", root).getall("r").enum("r", batch=3).closer("r")
        # reformatted configuration file
        s.silent(Op="reformat", Root=os.path.join(root, "cfg.json"), Mode=["compact", "huge", "spaced"][i % 3])
        s.readcfg(root)
        s.openw(root, "w3").add("w3", docs[9:]).closew("w3").readcfg(root)
        s.openr(root, "r2").info("r2", root).getall("r2").blotdoc("r2", docs[:4]).closer("r2")
        scripts.append(s)
    for i, (n, k) in enumerate([(1, 1), (2, 3), (4, 10), (3, 12), (2, 11), (2, 9)]):
        s = Script("simple-%d" % i)
        root = chk.path("p16s-%d" % i)
        docs = random_docs(rng, 8, "/p16s/%d" % i, k, maxlen=40)
        s.createsimple(root, "w", n, k).add("w", docs).closew("w").openr(root, "r").info("r", root).getall("r").closer("r")
        scripts.append(s)
    # rejected ones are rejected before anything is there, and a valid creation follows
    bad = [dict(n=0), dict(n=-1), dict(n=65536), dict(n=1 << 20), dict(w=0), dict(w=-3), dict(fl=0), dict(fl=-1), dict(k=0, s=0), dict(k=-2, s=-2),
           dict(m=0, s=0), dict(m=-1, s=-2), dict(tok="no.such"), dict(k=2, m=2, s=5), dict(k=-2, m=-1, s=2), dict(n=1 << 31), dict(n=-(1 << 31))]
    for i, d in enumerate(bad):
        c = cfg()
        c.update(d)
        for x in ("n", "w", "fl", "k", "m", "s"):
            c[x] = max(-2**31 + 1, min(c[x], 2**31 - 1))
        s = Script("bad-%d %s" % (i, d))
        root = chk.path("p16b-%d" % i)
        s.create(root, "w", c, timeout=30)
        s.exists([root])
        s.create(root, "w", cfg(n=1)).closew("w")
        scripts.append(s)
    for i, (n, k) in enumerate([(0, 3), (2, 0), (-1, 3), (2, -1), (65536, 2)]):
        s = Script("badsimple-%d" % i)
        root = chk.path("p16bs-%d" % i)
        s.createsimple(root, "w", n, k).exists([root])
        scripts.append(s)
    scripts += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("info", "getall"))
    run_validate(chk, scripts, words, what="P16", op_timeout=60)
    if not chk.violations:
        manyshards(chk, words)
    chk.sample(good[3])
    chk.note(accepted=len(good), rejected=len(bad) + 5)


def manyshards(chk, words, n=257):
    """more shards than fit into 8 bits; needs about 40 MB for each while writing"""
    try:
        free = int(next(x for x in open("/proc/meminfo") if x.startswith("MemAvailable")).split()[1]) >> 20
    except (OSError, StopIteration):
        free = 0
    if free < 18:
        chk.assumptions.append("not more than 50 shards: not enough memory")
        return
    rng = chk.rng
    root = chk.path("p16-many")
    docs = random_docs(rng, 10, "/p16m", 2, maxlen=60)
    fps = sorted(set(f for d in docs for f in words.fps(d.ws, 2, 1, n)))
    trace = []
    # one process each: the memory of the first is given back
    for part in range(3 if chk.thorough else 2):
        s = Script("%d shards" % n)
        if part % 2 == 0:
            (s.create(root, "w", cfg(k=2, n=n, w=3), timeout=200) if part == 0 else s.openw(root, "w", timeout=200)).add("w", docs).closew("w").readcfg(root)
        else:
            s.openr(root, "r", timeout=200).get("r", fps + [f + (n << 16) for f in fps[:50]]).enum("r", batch=5).stats("r").info("r", root).split("r", fps[:60]).closer("r")
        r = chk.run_scripts([s.ops], op_timeout=240)[0]
        trace += events(s, r)
        if trace[-1]["e"] in ("hang", "panic"):
            break
    for i, mm in chk.validate("DupiTrace", [trace], extra=dict(H=words.H, only=[])).items():
        line, kind = mm[-1]
        chk.violation("P16: %d shards, event %d (%s): observed behaviour is not one of the specification (%s)" % (n, line, trace[line - 1]["e"], kind),
                      dict(events=trace[:line], kind=kind))


# --- P21 ------------------------------------------------------------------------
def allreads(s, root, h, spell=None, c=None):
    s.openr(root, h, spell=spell)
    s.getall(h).enum(h, batch=3).stats(h).info(h, root)
    s.closer(h)


def p21(chk):
    model(chk)
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(24 if chk.thorough else 8):
        c = rndcfg(rng)
        c["n"] = min(c["n"], 3)
        docs = random_docs(rng, 16, "/p21/%d" % i, c["k"] * c["m"])
        base = chk.path("p21-%d" % i, "x")
        base = os.path.dirname(base)
        A, B, C = (os.path.join(base, n) for n in ("a", "b", "c"))
        sub = os.path.join(base, "deep", "er")
        os.makedirs(sub, exist_ok=True)
        s = Script("copy-%d" % i)
        rel = i % 2
        s.silent(Op="chdir", Root=base)
        s.create(A, "w", c, Root="a" if rel else A).add("w", docs[:8]).closew("w")
        s.cp(A, B)
        allreads(s, B, "r", spell=["b", "./b/", B + "/", "../%s/b" % os.path.basename(base)][i % 4])
        s.openw(B, "w2", spell=["b/", B, "./b"][i % 3]).add("w2", docs[8:12]).closew("w2")
        allreads(s, A, "r2")
        allreads(s, B, "r3")
        s.silent(Op="chdir", Root=sub)
        s.mv(A, C)
        allreads(s, C, "r4", spell=["../../c", "../../c/", C][i % 3])
        s.openw(C, "w3", spell="../../c").add("w3", docs[12:]).closew("w3")
        s.exists([A, B, C])
        allreads(s, B, "r5", spell="../../b/.")
        allreads(s, C, "r6")
        s.readcfg(C, spell="../../c//").readcfg(B)
        # removal through the copy leaves the original alone and the other way round
        if i % 2:
            s.openr(B, "r7", spell="../../b").remover("r7")
        else:
            s.openw(B, "w7", spell="../../b/").removew("w7")
        s.exists([A, B, C])
        allreads(s, C, "r8")
        s.cp(C, A)
        s.openw(C, "w8").removew("w8")
        s.exists([A, B, C])
        allreads(s, A, "r9")
        scripts.append(s)
    # the working directory changes during sessions, to one where something
    # with the same relative name is
    for i in range(12 if chk.thorough else 4):
        c = rndcfg(rng)
        c["n"] = min(c["n"], 2)
        docs = random_docs(rng, 18, "/p21d/%d" % i, c["k"] * c["m"])
        base = os.path.dirname(chk.path("p21d-%d" % i, "x"))
        A, sub = os.path.join(base, "ix"), os.path.join(base, "sub")
        B = os.path.join(sub, "ix")
        os.makedirs(sub, exist_ok=True)
        s = Script("chdir-%d" % i)
        s.silent(Op="chdir", Root=base)
        if i % 2:
            s.create(B, "o", c).add("o", docs[:5]).closew("o")
        s.create(A, "w", c, Root=["ix", "./ix"][i // 2 % 2], Mode="asgiven" if i % 4 < 3 else "")
        s.add("w", docs[:4]).silent(Op="chdir", Root=sub).add("w", docs[4:7]).closew("w")
        s.exists([A, B])
        allreads(s, A, "r")
        s.silent(Op="chdir", Root=base).openw(A, "w2", spell="ix").silent(Op="chdir", Root=sub).add("w2", docs[7:12]).silent(Op="chdir", Root="/").closew("w2")
        allreads(s, A, "r1")
        s.silent(Op="chdir", Root=base).openr(A, "r2", spell="./ix").silent(Op="chdir", Root=sub)
        s.getall("r2").enum("r2", batch=3).stats("r2").info("r2", A).closer("r2")
        if i % 2:
            allreads(s, B, "r3")
        # removed from somewhere else
        s.silent(Op="chdir", Root=base)
        if i // 2 % 2:
            s.openw(A, "w3", spell="ix").silent(Op="chdir", Root=sub).removew("w3")
        else:
            s.openr(A, "r4", spell="ix").silent(Op="chdir", Root=sub).remover("r4")
        s.exists([A, B])
        if i % 2:
            allreads(s, B, "r5")
        scripts.append(s)
    run_validate(chk, scripts, words, what="P21", op_timeout=30)
    # exclusion between spellings of one path: sessions of several processes
    import chk_lock
    chk_lock.spellings(chk, words)
    chk.sample(dict(ops=[(o["Op"], o.get("Root", "")[-20:]) for o in scripts[0].ops][:30]))


# --- P22 ------------------------------------------------------------------------
def p22(chk):
    model(chk)
    words = Words(chk)
    rng = chk.rng
    scripts = []
    for i in range(30 if chk.thorough else 10):
        c = rndcfg(rng)
        c["n"] = min(c["n"], 3)
        docs = random_docs(rng, 18, "/p22/%d" % i, c["k"] * c["m"])
        base = os.path.dirname(chk.path("p22-%d" % i, "x"))
        A = os.path.join(base, "ix")
        others = [os.path.join(base, n) for n in ("ix2", "ix.bak", "i", "ix.lock2", "sub/ix")]
        s = Script("remove-%d" % i)
        s.silent(Op="chdir", Root=base)
        spell = ["ix", A, "./ix", A + "/", "ix/"][i % 5]
        # what is around it
        s.create(others[0], "o", c).add("o", docs[:3]).closew("o")
        for o in others[1:]:
            s.silent(Op="mkdir", Root=o)
            s.silent(Op="write", Root=os.path.join(o, "keep"), Text="keep")
        s.create(A, "w", c, Root=spell if i % 2 else A)
        s.add("w", docs[:6])
        kind = i % 5

        def away(s=s, i=i, base=base):
            # there is an ix in the directory it is removed from, too
            if i // 5 % 2:
                s.silent(Op="chdir", Root=os.path.join(base, "sub"))
            return s
        # whatever is in the directory goes with it
        if i % 2:
            s.silent(Op="write", Root=os.path.join(A, "cfg.json.tmp"), Text="left behind")
            s.silent(Op="mkdir", Root=os.path.join(A, "sub", "er"))
            s.silent(Op="write", Root=os.path.join(A, "sub", "er", "notes"), Text="notes")
            # a link goes, what it leads to stays
            s.silent(Op="symlink", Root=os.path.join(A, "sub", "link"), To=others[4])
            s.silent(Op="symlink", Root=os.path.join(A, "all"), To=base)
        if kind == 0:
            away().removew("w")                       # removed by its creating session
        else:
            s.closew("w")
            if kind == 1:
                s.openw(A, "w2", spell=spell).add("w2", docs[6:9])
                away().removew("w2")
            elif kind == 2:
                s.openr(A, "r", spell=spell).getall("r")
                away().remover("r")
            elif kind == 3:
                s.openr(A, "r", spell=spell)
                away().remover("r")
            else:
                s.openw(A, "w2", spell=spell).closew("w2").openr(A, "r", spell=spell)
                away().remover("r")
        s.exists([A, others[0]])
        for o in others[1:]:
            s.op(dict(Op="read", Root=os.path.join(o, "keep")),
                 lambda x: [dict(e="fact", kind="neighbour", holds=x["ok"] and x["t"] == "keep")])
        # not usable before it is created again, and empty then
        s.openr(A, "n1", timeout=20)
        s.openw(A, "n2", timeout=20)
        c2 = rndcfg(rng)
        s.create(A, "w9", c2, timeout=30).add("w9", docs[9:12]).closew("w9")
        allreads(s, A, "r9")
        s.openw(A, "wa").add("wa", docs[12:]).closew("wa")
        allreads(s, A, "rb")
        allreads(s, others[0], "ro")
        if i % 3 == 0:
            s.openr(A, "rz").remover("rz").create(A, "wz", c).closew("wz")
            allreads(s, A, "ry")
        scripts.append(s)
    run_validate(chk, scripts, words, what="P22", op_timeout=30)
    # removed because the disk is full, or failing: its session cannot be ended
    # properly, but it goes all the same
    drv = chk.build_iodriver()
    scripts = []
    for i, (mode, n) in enumerate([("failall", 1), ("failall", 3), ("close", 1), ("fail", 2), ("lost", 1), ("halfall", 2)]):
        c = rndcfg(rng)
        docs = random_docs(rng, 12, "/p22f/%d" % i, c["k"] * c["m"])
        A = chk.path("p22f-%d" % i, "ix")
        s = Script("remove-failing-%d" % i)
        s.create(A, "w", c).add("w", docs[:4])
        if i % 2:
            s.closew("w").openw(A, "w").add("w", docs[4:6])
        s.silent(Op="arm", Root=A, Mode=mode, N=n)
        s.op(dict(Op="removew", H="w"), lambda x: [dict(e="removew", h="w", ok=True, err="")])
        s.silent(Op="disarm").exists([A])
        s.openr(A, "n1", timeout=20).openw(A, "n2", timeout=20)
        s.create(A, "w9", c, timeout=30).add("w9", docs[6:9]).closew("w9")
        allreads(s, A, "r9")
        scripts.append(s)
    run_validate(chk, scripts, words, what="P22", op_timeout=30, drv=drv)
    # sessions that wait for it
    import chk_lock
    chk_lock.removals(chk, words, "P22")
    chk.sample(dict(ops=[o["Op"] for o in scripts[1].ops]))
