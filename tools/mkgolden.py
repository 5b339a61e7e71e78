#!/usr/bin/env python3
"""Writes golden/golden.tar.xz: indexes made by the released version (commit
317b483), what was added to them, and its word hashes.  Run once:
  git -C /repo worktree add --detach /tmp/m/base 317b483
  VERIF_REPO=/tmp/m/base python3 tools/mkgolden.py
The texts end with a newline: the released version dropped the last character
of a text."""
import json, os, random, sys, tarfile, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib
from dupilib import *
import chk_dupi

chk = vlib.Check("P23")
rng = random.Random(23)
words = Words(chk)
LONG = "/golden/" + "/".join(["n" * 127, "m" * 128, "ü" * 70, "x" * 300, "with space", "a.b-c_d", "\u6f22\u5b57", "-", "..."])


def nl(docs):
    for d in docs:
        d.text += "\n"
        d.end = d.start + len(d.text.encode())
    return docs


def corpus(i, c, count):
    docs = random_docs(rng, count, "/golden/c%d" % i, c["k"] * c["m"], maxlen=40)
    for j, d in enumerate(docs):
        if rng.random() < 0.15:
            d.path = d.abs = rng.choice(["/x", "/golden", LONG, LONG + "/f%d" % j, "/golden/c%d/d0" % i, "/golden/c%d/d00" % i])
        if rng.random() < 0.15:
            d.start = rng.choice([127, 128, 255, 256, 65535, 65536, 2**24, 2**31 - 5, 2**31, 2**32 - 400])
    return nl(docs)


G = []      # name, cfg, list of sessions; a session is a list of [docs] or numbers (documents without words)
for i in range(7):
    c = chk_dupi.rndcfg(rng)
    docs = corpus(i, c, rng.choice([12, 25, 40]))
    cut = sorted(rng.sample(range(1, len(docs)), rng.choice([0, 1, 2, 3])))
    G.append(("mixed-%d" % i, c, [[docs[a:b]] for a, b in zip([0] + cut, cut + [len(docs)])]))
c = cfg(k=1, n=2, w=3)
docs = nl(chk_dupi.tiny(rng, words, "/golden/long", [1500, 700, 513, 512, 511, 1024, 1025, 2, 1]))
G.append(("long", c, [[docs[:2100]], [docs[2100:2150]], [docs[2150:]]]))
c = cfg(k=2, n=3, w=2)
docs = corpus(50, c, 16)
G.append(("gaps", c, [[docs[:3], 70, docs[3:5], 200, docs[5:7]], [17000, docs[7:9], 3], [20000, docs[9:11], 2100000, docs[11:14]], [130, docs[14:]]]))
c = cfg(k=1, n=1, w=1)
docs = nl(chk_dupi.tiny(rng, words, "/golden/big", [8300, 2]))
G.append(("total", c, [[docs]]))
c = cfg(k=10, n=4, w=4)
docs = nl(random_docs(rng, 20, "/golden/dflt", 10, maxlen=60))
G.append(("default-length", c, [[docs[:15]], [docs[15:]]]))
G.append(("empty", cfg(k=3, n=2), [[]]))

tmp = tempfile.mkdtemp(dir=chk.dir)
meta = dict(vocab=words.vocab, hash=words.hash, indexes=[])
for name, c, sess in G:
    root = os.path.join(tmp, name)
    s = Script(name)
    for j, se in enumerate(sess):
        if j == 0:
            s.create(root, "w0", c)
        else:
            s.openw(root, "w%d" % j)
        for g in se:
            s.fill("w%d" % j, g) if isinstance(g, int) else s.add("w%d" % j, g)
        s.closew("w%d" % j)
    r = chk.run_scripts([s.ops], op_timeout=200)[0]
    for x in r:
        assert x.get("ok"), (name, x)
    meta["indexes"].append(dict(name=name, cfg=c, sessions=[[g if isinstance(g, int) else [[d.path, d.start, d.end, d.text, d.ws] for d in g] for g in se] for se in sess]))
    print(name, len(sess), sorted(os.listdir(root)))
json.dump(meta, open(os.path.join(tmp, "meta.json"), "w"))
with tarfile.open(os.path.join(V, "golden", "golden.tar.xz"), "w:xz", preset=6) as t:
    for n in ["meta.json"] + [g[0] for g in G]:
        t.add(os.path.join(tmp, n), n)
print(os.path.getsize(os.path.join(V, "golden", "golden.tar.xz")))
