"""Checks of what happens to a text: tokens (P12), fingerprints (P13) and where
they are (P14)."""
import itertools, json, os, random, unicodedata
from dupilib import *
from chk_dupi import build, rndcfg, word_spans, weird_paths
from vlib import ToolError


def isword(ch):
    c = unicodedata.category(ch)
    return c[0] == "L" or c == "Nd"


def words_of(t):
    out, cur = [], ""
    for ch in t:
        if isword(ch):
            cur += ch
        elif cur:
            out.append(cur)
            cur = ""
    return out + [cur] if cur else out


def casepairs(rng):
    """pairs of words differing in letter case only: every letter with a lower
    case of one character"""
    pairs = []
    for cp in range(0x110000):
        if 0xd800 <= cp < 0xe000:
            continue
        ch = chr(cp)
        lo = ch.lower()
        if lo != ch and len(lo) == 1 and unicodedata.category(ch) != "Cn":
            pairs.append((ch, lo))
    pw = [(a, b) for a, b in pairs] + [("x" + a + "y", "x" + b + "y") for a, b in pairs]
    for _ in range(200):
        w = "".join(rng.choice(pairs)[1] for _ in range(rng.randint(1, 12)))
        pw.append((upvary(rng, w), w))
    return pw


def stuck(r):
    for k in ("hang", "panic", "crash"):
        if k in r:
            return dict(e="hang" if k == "hang" else "panic", what=str(r[k])[:300], stack=str(r.get("stack"))[:2000])


# --- P12 ------------------------------------------------------------------------
KINDS = ["a", "7", " ", "漢", "_", "é", "😀", "𝒜", "…", "\u0301"]
BADBYTES = [b"\x80", b"\xbf", b"\xff", b"\xfe", b"\xc0\x80", b"\xc1\xa1", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf",
            b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc3", b"\xe6\xbc",
            b"\xf0\x9d\x92", b"\xe6\x61\x62", b"\xc3\x28"]


def textrec(b, valid):
    return dict(b=b, valid=valid)


def units(s):
    """the characters; in long texts, a run of characters of one kind is one"""
    if len(s) < 5000:
        return [dict(w=isword(ch), n=len(ch.encode())) for ch in s]
    out = []
    for ch, g in itertools.groupby(s):
        w, n = isword(ch), len(ch.encode()) * sum(1 for _ in g)
        if out and out[-1]["w"] == w:
            out[-1]["n"] += n
        else:
            out.append(dict(w=w, n=n))
    return out


def tok_event(texts, res, off):
    """texts: bytes; an event for TokensTrace"""
    xs = []
    for b, r in zip(texts, res):
        try:
            s = b.decode("utf-8")
            u, valid = units(s), True
        except UnicodeDecodeError:
            u, valid = [], False
        ts = []
        for tg, pos, n, lit in r["t"]:
            p = pos if 0 <= pos < 2**31 else -1
            ts.append(dict(tag=tg, pos=p, len=n, lit=lit, want=b[p:p + n].hex() if p >= 0 else "?"))
        xs.append(dict(u=u, valid=valid, same=r["same"], t=ts, hex=b.hex()[:200]))
        if len(b) > 5000:
            for t in ts:
                # the bytes themselves are compared here, their places and number there
                t["lit"], t["want"] = ("same", "same") if t["lit"] == t["want"] else ("other", "same")
    return dict(e="tok", off=off, x=xs)


def p12(chk):
    chk.model("Tokens", "MCTokens.cfg" if not chk.thorough else
              "SPECIFICATION Spec\nCONSTANTS Units <- UnitSet MaxLen = 7 LastFlushed = TRUE\nINVARIANTS Correct SameDefinition\nCHECK_DEADLOCK FALSE\n",
              "the scanner against the definition, all texts of 5 kinds of characters")
    chk.refuses("Tokens", "MCTokens.cfg", [[("LastFlushed = TRUE", "LastFlushed = FALSE")]])
    rng = chk.rng
    out = chk.fresh(".gen.json")
    kinds, length = (10, 5) if chk.thorough else (10, 4)
    rc, o, _ = chk.tlc("TokensGen", "CONSTANTS Kinds = %d Length = %d\n" % (kinds, length), env=dict(OUT=out), mem="8g")
    if not os.path.exists(out):
        raise ToolError("no texts generated: " + o[-2000:])
    texts = ["".join(KINDS[i - 1] for i in t).encode() for t in json.load(open(out))]
    ngen = len(texts)
    jobs = []                       # (texts, offset, tokens before)
    for i in range(0, len(texts), 4000):
        jobs.append((texts[i:i + 4000], [0, 17, 2**31, 2**32 - 20][(i // 4000) % 4] if i else 0, [0, 0, 3][(i // 4000) % 3]))
    allch = [chr(c) for c in list(range(0, 0x500)) + [0x2028, 0x2029, 0xfeff, 0x200b, 0x3000, 0x5d0, 0x627, 0x660, 0x966, 0xe01, 0x3042, 0xac00,
             0xfffd, 0xffff, 0x10ffff, 0x10000, 0x1d7ce, 0x20000, 0xe000, 0xd7ff, 0x2160, 0xb2, 0xbd, 0x203f]]
    allch = [ch for ch in allch if unicodedata.category(ch) != "Cn"]
    for n, ln in [(400, 30), (60, 200), (6, 1500)] if not chk.thorough else [(4000, 30), (600, 200), (20, 3000)]:
        b = []
        for _ in range(n):
            pool = rng.choice([allch, KINDS, KINDS + VOCAB[:30], ["a", " "], ["é", "b", "…"]])
            b.append("".join(rng.choice(pool) for _ in range(rng.randint(0, ln))).encode())
        jobs.append((b, rng.choice([0, 5, 2**32 - 1 - max(map(len, b)), 12345]), rng.choice([0, 1, 7])))
    # long words, and much between them
    b = []
    for n in [255, 256, 4095, 4096, 65535, 65536, 65537, 300000] + ([3000000] if chk.thorough else []):
        for ch in ("a", "é", "漢", " ", "…"):
            b.append(rng.choice(["", "ab ", "…"]) .encode() + (ch * n).encode() + rng.choice(["", " cd", "9", "—"]).encode())
    jobs.append((b, 3, 0))
    # texts that are not valid
    bad = []
    for x in BADBYTES:
        for pre, post in [("", ""), ("ab ", ""), ("", " cd"), ("ab ", " cd"), ("é", "漢"), ("one two three four five ", " six seven eight nine")]:
            bad.append(pre.encode() + x + post.encode())
    for _ in range(300):
        t = "".join(rng.choice(KINDS + VOCAB) for _ in range(rng.randint(1, 40))).encode()
        i = rng.randrange(len(t) + 1)
        b = t[:i] + rng.choice(BADBYTES) + t[i:]
        c = t[:i]
        for y in (b, c):
            try:
                y.decode("utf-8")
            except UnicodeDecodeError:
                bad.append(y)
    for n in [1024, 4096, 65536, 300000, 1100000] + ([5000000] if chk.thorough else []):
        for at in (0, n // 2, n):
            for unit in ("a", " ", "é"):
                t = (unit * n).encode()[:n]
                bad.append(t[:at] + b"\xff" + t[at:])
                bad.append(t[:at - 1] + "é".encode()[:1] + t[at:])
    jobs.append((bad, 0, 0))
    jobs.append((bad, 9, 2))
    scripts = [[dict(Op="tokensx", Words=[b.hex() for b in tx], N=off, Cap=cap)] for tx, off, cap in jobs]
    scripts.append([dict(Op="runes")])
    root = chk.path("p12")
    K = 2
    scripts.append([dict(Op="createsimple", Root=root, H="w", Nsh=1, K=K), dict(Op="closew", H="w"), dict(Op="openr", Root=root, H="r")] +
                   [dict(Op="blotraw", H="r", Text=b.hex()) for b in bad])
    pw = casepairs(rng)
    scripts.append([dict(Op="hash", Words=[w for p in pw for w in p])])
    res = chk.run_scripts(scripts)
    traces, what = [], []
    for (tx, off, cap), r in zip(jobs, res):
        traces.append([stuck(r[0]) or tok_event(tx, r[0]["tokens"], off)])
        what.append("tokens")
    r = res[len(jobs)][0]
    if stuck(r):
        traces.append([stuck(r)])
    else:
        # what is expected of every character, by the Unicode database here;
        # characters it does not know are left out
        rs = []
        for g in r["runes"]:
            lo, cur = g["lo"], None
            for cp in range(g["lo"], g["hi"] + 1):
                c = unicodedata.category(chr(cp))
                e = "u" if c == "Cn" else "w" if c[0] == "L" or c == "Nd" else "o"
                if e != cur:
                    if cur:
                        rs.append(dict(lo=lo, hi=cp - 1, o=g["c"], e=cur))
                    lo, cur = cp, e
            rs.append(dict(lo=lo, hi=g["hi"], o=g["c"], e=cur))
        traces.append([dict(e="runes", x=rs)])
    what.append("characters")
    rr = res[len(jobs) + 1]
    st = [stuck(x) for x in rr if stuck(x)]
    if st:
        traces.append(st[:1])
    else:
        if not all(x["ok"] for x in rr[:3]):
            raise ToolError("no index for P12: %s" % rr[:3])
        traces.append([dict(e="none", x=[x["n"] for x in rr[3:]])])
    what.append("fingerprints of invalid texts")
    r = res[len(jobs) + 2][0]
    if stuck(r):
        traces.append([stuck(r)])
    else:
        h = r["hash"]
        traces.append([dict(e="pairs", x=[dict(w=pw[i][0], a=hl(h[2 * i]), b=hl(h[2 * i + 1])) for i in range(len(pw))])])
    what.append("letter case")
    bad_ = chk.validate("TokensTrace", traces, timeout=800, mem="10g", workers=8)
    for i, mm in bad_.items():
        chk.violation("P12: %s: %s" % (what[i], mm[-1]), dict(trace=first_bad(traces[i][0])))
    # a whole index of texts some of which are not valid
    words = Words(chk)
    scripts = []
    for i in range(6 if chk.thorough else 2):
        c = cfg(k=rng.choice([1, 2]), n=2, w=rng.choice([1, 4]))
        docs = random_docs(rng, 40, "/p12/%d" % i, c["k"])
        for d in docs[::3]:
            b = d.text.encode()
            at = rng.randrange(len(b) + 1)
            x = b[:at] + rng.choice([b"\xff", b"\xc3 ", b"\xed\xa0\x80"]) + b[at:]
            d.ws = []
            d.raw = x.hex()
            d.end = d.start + len(x)
        s = Script("mixed-%d" % i)
        root = chk.path("p12i-%d" % i)
        build(s, root, c, docs, [15])
        s.openr(root, "r").getall("r").stats("r").closer("r")
        scripts.append(s)
    run_validate(chk, scripts, words, what="P12")
    chk.note(texts=sum(len(t) for t, _, _ in jobs), generated=ngen, invalid=len(bad), characters=0x110000 - 2048, casepairs=len(pw))
    chk.sample(dict(text=texts[-7].decode(), event=traces[0][0].get("x", [None])[-7:-6]))


def first_bad(ev):
    if ev["e"] == "tok":
        for y in ev["x"]:
            if not y["same"] or (not y["valid"] and y["t"]) or any(t["lit"] != t["want"] for t in y["t"]):
                return y
        return dict(off=ev["off"], some=ev["x"][:20])
    if ev["e"] == "runes":
        return [x for x in ev["x"] if x["e"] not in ("u", x["o"])][:20]
    if ev["e"] == "pairs":
        return [x for x in ev["x"] if x["a"] != x["b"]][:20]
    return ev


# --- P13 ------------------------------------------------------------------------
def p13(chk):
    chk.model("Window", "MCWindow.cfg", "ring of the last k hashes against the definition")
    chk.refuses("Window", "MCWindow.cfg", [[("Xors = TRUE", "Xors = FALSE")]])
    words = Words(chk)
    rng = chk.rng
    nv = len(VOCAB)
    scripts, mks = [], []
    confs = [(k, m) for k in (1, 2, 3, 4, 7, 10) for m in (1, 2, 3, 5)]
    if chk.thorough:
        confs += [(k, m) for k in (5, 6, 8, 9, 11, 12, 16, 31, 32, 33) for m in (1, 2, 4, 7)]
    for k, m in confs:
        for kind in ("bnew", "binter", "bcirc"):
            if kind == "bcirc" and m != 1:
                continue
            ops = [dict(Op=kind, H="b", K=k, M=m), dict(Op="bconf", H="b")]
            mk = [lambda r, k=k, m=m: dict(e="new", k=k, m=m, ok=r["ok"]), lambda r: dict(e="conf", k=r["k"], m=r["m"], il=r["il"])]
            for _ in range(rng.randint(2, 4)):
                small = rng.random() < 0.4
                ws = [rng.randrange(3 if small else nv) for _ in range(rng.randint(0, 4 * k * m + 5))]
                ops.append(dict(Op="bblot", H="b", Words=[upvary(rng, VOCAB[w]) for w in ws]))
                mk.append(lambda r, ws=ws: dict(e="words", ws=[w + 1 for w in ws], b=[hl(v) for v in r["blots"]]))
            ops.append(dict(Op="bconf", H="b"))
            mk.append(mk[1])
            scripts.append(ops)
            mks.append(mk)
    vs = [(i, upvary(rng, VOCAB[i])) for i in range(nv) for _ in range(4)] + [(i, VOCAB[i].upper()) for i in range(nv) if VOCAB[i].upper().lower() == VOCAB[i]]
    scripts.append([dict(Op="hash", Words=[v for _, v in vs])])
    mks.append([lambda r: dict(e="variants", v=[i + 1 for i, _ in vs], h=[hl(h) for h in r["hash"]])])
    pw = casepairs(rng)
    scripts.append([dict(Op="hash", Words=[w for p in pw for w in p])])
    mks.append([lambda r: dict(e="pairs", x=[dict(w=pw[i][0], a=hl(r["hash"][2 * i]), b=hl(r["hash"][2 * i + 1])) for i in range(len(pw))])])
    res = chk.run_scripts(scripts)
    traces = []
    for ops, mk, rs in zip(scripts, mks, res):
        tr = []
        for o, f, r in zip(ops, mk, rs):
            tr.append(stuck(r) or f(r))
        traces.append(tr)
    bad = chk.validate("WindowTrace", traces, extra=dict(H=words.H), workers=8)
    for i, mm in bad.items():
        chk.violation("P13: %s: %s" % (scripts[i][0], mm[-1]), dict(script=scripts[i], events=traces[i]))
    # fingerprints of query texts are those stored, after whatever texts
    dsc = []
    for i in range(24 if chk.thorough else 8):
        c = rndcfg(rng)
        c["w"] = rng.choice([1, 1, 2])
        K = c["k"] * c["m"]
        docs = []
        for j in range(30):
            n = rng.choice([0, 0, 1, K - 1, K, K + 1, K + 2, 2 * K + 3, 25, 60])
            ws = [rng.randrange(nv if rng.random() < 0.6 else 4) for _ in range(n)]
            docs.append(Doc("/p13/%d/%d" % (i, j), ws, render(rng, ws)))
        s = Script("query-%d" % i)
        root = chk.path("p13-%d" % i)
        build(s, root, c, docs, [10])
        s.openr(root, "r")
        q = list(docs) + random_docs(rng, 10, "/none", c["k"])
        rng.shuffle(q)
        s.blotdoc("r", q).getall("r").blotdoc("r", q[::-1])
        sp = c["n"] << 16
        bl = [f for d in docs for f in words.fps(d.ws, c["k"], c["m"], c["n"])][:80] + [0, 1, sp - 1, sp, 2**32 - 1, c["n"], c["n"] - 1]
        s.split("r", bl + [rng.randrange(2**32) for _ in range(60)])
        s.closer("r")
        dsc.append(s)
    # every remainder by the number of shards
    for n in (1, 2, 3, 5, 7, 16):
        s = Script("split-%d" % n)
        root = chk.path("p13s-%d" % n)
        s.create(root, "w", cfg(n=n)).closew("w").openr(root, "r")
        s.split("r", list(range(0, 4 * n)) + [x for j in range(1, 6) for x in (j * (n << 16) - 1, j * (n << 16), j * 65536 + 1) if x < 2**32] +
                [rng.randrange(2**32) for _ in range(200)]).closer("r")
        dsc.append(s)
    from chk_dupi import several
    dsc += several(chk, random.Random("several/%d" % chk.seed), 16 if chk.thorough else 4, ("blotdoc",))
    run_validate(chk, dsc, words, what="P13")
    chk.note(blotters=len(confs), indexes=len(dsc))
    chk.sample(dict(trace=traces[0][:3]))


# --- P14 ------------------------------------------------------------------------
def p14(chk):
    chk.model("Window", "MCWindow.cfg", "ring of the last k hashes against the definition")
    words = Words(chk)
    rng = chk.rng
    nv = len(VOCAB)
    scripts = []
    for i in range(40 if chk.thorough else 14):
        c = rndcfg(rng)
        if i % 5 == 0:
            c["m"], c["k"] = 2 + i % 2, 2
            c["s"] = c["k"] * c["m"]
        K = c["k"] * c["m"]
        base = os.path.dirname(chk.path("p14-%d" % i, "corp", "x"))
        docs = []
        pool = passages(rng, 3, K + 1, K + 6, nv)
        for j in range(14):
            kind = rng.choice(["whole", "whole", "part", "parts"])
            f = os.path.join(base, "d%d" % (j % 3), "f%d é" % j if j % 4 == 0 else "f%d" % j)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            parts = 1 if kind != "parts" else rng.randint(2, 4)
            content = b"" if kind == "whole" else rng.choice(["head ", "été — ", "漢", "\n\n", "alpha beta gamma delta eps zeta "]).encode()
            for _ in range(parts):
                ws = []
                for _ in range(rng.randint(0, 3)):
                    ws += rng.choice(pool) if rng.random() < 0.5 else [rng.randrange(nv if rng.random() < 0.5 else 3) for _ in range(rng.randint(0, 9))]
                t = render(rng, ws)
                d = Doc(f, ws, t, start=len(content))
                docs.append(d)
                content += t.encode()
                content += rng.choice(["", " ", "tail\n", "_"]).encode()
            if kind == "whole":
                content = docs[-1].text.encode()
            with open(f, "wb") as fh:
                fh.write(content)
        if i % 7 == 3:
            # documents anywhere in a file of four gigabytes that has holes
            f = os.path.join(base, "holes")
            with open(f, "wb") as fh:
                for at in [2**16 - 9, 2**24 - 3, 2**31 - 40, 2**31 + 5000, 2**32 - 900]:
                    ws = rng.choice(pool) + [rng.randrange(nv) for _ in range(K + 3)] + rng.choice(pool)
                    d = Doc(f, ws, render(rng, ws), start=at)
                    docs.append(d)
                    fh.seek(at)
                    fh.write(d.text.encode())
        if i % 7 == 5:
            # documents that are long, mostly with what is between words
            for j in range(2):
                f = os.path.join(base, "long%d" % j)
                ws = rng.choice(pool) + [rng.randrange(nv) for _ in range(K + 3)] + rng.choice(pool)
                t = render(rng, ws[:3]) + rng.choice(["\n", " ", "…"]) * rng.choice([70000, 1100000]) + render(rng, ws[3:])
                docs.append(Doc(f, ws, t))
                with open(f, "wb") as fh:
                    fh.write(t.encode())
        s = Script("locate-%d" % i)
        root = chk.path("p14i-%d" % i)
        build(s, root, c, docs, [len(docs) // 2])
        s.openr(root, "r").getall("r")
        # the files of documents are closed again
        s.silent(Op="fdlimit", N=12)
        spans = [word_spans(d) for d in docs]
        dn = {d.id: n for n, d in enumerate(docs)}
        # offsets within the document
        devs = [dict(id=d.id, ws=[w + 1 for w in d.ws], sp=[[y - d.start for y in x] for x in sp]) for d, sp in zip(docs, spans)]
        starts = [d.start for d in docs]

        def rel(v, n, starts=starts):
            v -= starts[n]
            return v if 0 <= v < 2**31 else -1

        def mk(x, devs=devs, dn=dn, rel=rel):
            if not x["ok"]:
                return [dict(e="fact", kind="locate: " + x["err"], holds=False)]
            return [dict(e="locatein", h="r", docs=devs,
                         x=[dict(d=dn[y["d"]] + 1, b=hl(y["b"]), found=y["err"] == "", s=rel(y["s"], dn[y["d"]]), e=rel(y["e"], dn[y["d"]])) for y in x["loc"]])]
        s.op(dict(Op="locateall", H="r", N=rng.choice([0, 3])), mk)
        # fingerprints of other documents, and ones nobody has
        fps = sorted(set(f for d in docs for f in words.fps(d.ws, c["k"], c["m"], c["n"])))
        some = rng.sample(fps, min(len(fps), 12)) + [rng.randrange(c["n"] << 16) for _ in range(4)] + [rng.randrange(2**32)]

        def mk2(x, devs=devs, rel=rel):
            return [dict(e="locatein", h="r", docs=devs,
                         x=[dict(d=y["i"] + 1, b=hl(y["b"]), found=y["err"] == "" and y["panic"] == "", s=rel(y["s"], y["i"]), e=rel(y["e"], y["i"]))
                            for y in x["found"]])]
        s.op(dict(Op="findblot", H="r", Docs=[d.op() for d in docs], Blots=some), mk2)
        s.op(dict(Op="findblot", H="r", Docs=[d.op() for d in docs], Blots=some, Mode="dat"), mk2)
        # passages: those of the documents under their fingerprint, others under it
        wins = []
        for d, sp in zip(docs, spans):
            b = d.text.encode()
            wins.append([b[sp[g][0] - d.start:sp[g + K][1] - d.start] for g in range(len(d.ws) - K)] if len(d.ws) > K else [])
        pdocs = [dict(ws=e["ws"], win=[x.hex() for x in w]) for e, w in zip(devs, wins)]
        for rnd in range(4):
            m = {}
            for d, w in zip(docs, wins):
                f = words.fps(d.ws, c["k"], c["m"], c["n"])
                for b, t in zip(f, w):
                    r = rng.random()
                    if r < 0.35:
                        m[b] = t.decode()
                    elif r < 0.42:
                        m[b] = rng.choice([t.decode().upper(), t.decode() + " ", t.decode()[1:], "", "nothing of the kind", t.decode().replace(" ", "  ")])
            if rnd == 3:
                m = {}
            for _ in range(3):
                m[rng.randrange(c["n"] << 16)] = rng.choice(VOCAB)
            mm = [dict(b=hl(b), t=t.encode().hex()) for b, t in m.items()]

            def mk3(x, mm=mm, pdocs=pdocs):
                return [dict(e="passages", h="r", docs=pdocs,
                             x=[dict(d=y["i"] + 1, m=mm, err=y["err"] or y["panic"],
                                     r=[dict(b=hl(int(b)), t=t.encode().hex()) for b, t in y["m"]]) for y in x["found"]])]
            s.op(dict(Op="findblots", H="r", Docs=[d.op() for d in docs], Pass={str(b): t for b, t in m.items()},
                      Mode=rng.choice(["", "dat"])), mk3)
        s.silent(Op="fdlimit", N=-1)
        s.closer("r")
        scripts.append(s)
    tr, _ = run_validate(chk, scripts, words, what="P14", workers=8)
    chk.note(located=sum(len(e["x"]) for t in tr for e in t if e["e"] == "locatein"),
             found=sum(1 for t in tr for e in t if e["e"] == "locatein" for y in e["x"] if y["found"]),
             searches=sum(len(e["x"]) for t in tr for e in t if e["e"] == "passages"),
             passages=sum(len(y["r"]) for t in tr for e in t if e["e"] == "passages" for y in e["x"]))
    chk.sample(dict(located=[e for e in tr[0] if e["e"] == "locatein"][0]["x"][:5]))


# --- P26 ------------------------------------------------------------------------
def p26(chk):
    chk.model("Trigram", "MCTrigram.cfg" if not chk.thorough else
              "SPECIFICATION Spec\nCONSTANTS N = 5 MaxLen = 8 Reset = FALSE\nINVARIANT Correct\nCHECK_DEADLOCK FALSE\n",
              "shifting letters into a number against the windows of the text, all texts up to a length")
    chk.model_refuses("Trigram", "SPECIFICATION Spec\nCONSTANTS N = 3 MaxLen = 5 Reset = TRUE\nINVARIANT Correct\nCHECK_DEADLOCK FALSE\n",
                      "starting again after a separator")
    rng = chk.rng
    out = chk.fresh(".gen.json")
    rc, o, _ = chk.tlc("TokensGen", "CONSTANTS Kinds = 6 Length = %d\n" % (5 if chk.thorough else 4), env=dict(OUT=out), mem="8g")
    if not os.path.exists(out):
        raise ToolError("no texts generated: " + o[-2000:])
    kinds = ["a", "Z", "9", " ", "\u00e9", "_"]
    texts = ["".join(kinds[i - 1] for i in t).encode() for t in json.load(open(out))]
    ngen = len(texts)
    allch = [chr(c) for c in range(0, 0x180)]
    for n, ln in [(300, 12), (100, 60), (4, 3000)]:
        for _ in range(n * (8 if chk.thorough else 1)):
            pool = rng.choice([allch, [chr(c) for c in range(48, 123)], KINDS + VOCAB[:30], ["z", "Z", "0", " "]])
            texts.append("".join(rng.choice(pool) for _ in range(rng.randint(0, ln))).encode())
    texts += [b"", b"a", b" ", b"ab", b" a", b"a ", b"abc", "\u00e9".encode(), b"\xff", b"ab\xff"] + [bytes([c]) for c in range(128)]
    groups = [texts[i:i + 500] for i in range(0, len(texts), 500)]
    scripts = [[dict(Op="trigrams", Words=[b.hex() for b in g])] for g in groups]
    scripts += [[dict(Op="trinames", I=i, N=8000)] for i in range(0, 37 ** 3, 8000)]
    res = chk.run_scripts(scripts)
    traces = []
    for r in res:
        r = r[0]
        st = stuck(r)
        traces.append([st or dict(e="tri" if "toks" in r["x"][0] else "names", x=r["x"])])
    bad = chk.validate("TrigramTrace", traces)
    for i, mm in sorted(bad.items()):
        chk.violation("P26: %s" % mm[-1][1], dict(script=scripts[i], detail=str(mm[-1])[:3000]))
    chk.note(texts=len(texts), generated=ngen)
    chk.sample(dict(text=texts[ngen].hex(), result=res[0][0]["x"][:1] if "x" in res[0][0] else None))
