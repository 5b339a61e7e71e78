"""Indexes written by the released version (golden/, see tools/mkgolden.py),
read and appended to by the current code (P23)."""
import json, os, shutil, tarfile
from dupilib import *
from vlib import VERIF, ToolError
import chk_dupi


class Stored(Script):
    """A script on an index that is there already, with the history that made it."""
    def __init__(self, name, root, g):
        super().__init__(name)
        self.root, self.c = root, g["cfg"]
        self.docs = []
        self.first = []
        for j, se in enumerate(g["sessions"]):
            h = "g%d" % j
            self.first.append(dict(e="create", r=root, h=h, c=self.c, ok=True, err="") if j == 0 else dict(e="openw", r=root, h=h, ok=True, err=""))
            for x in se:
                if isinstance(x, int):
                    self.first.append(dict(e="fill", h=h, n=x, ok=True, err=""))
                else:
                    ds = [Doc(p, ws, t, start=s, end=e) for p, s, e, t, ws in x]
                    self.docs += ds
                    self.first.append(dict(e="add", h=h, docs=[d.ev() for d in ds], ok=True, err=""))
            self.first.append(dict(e="closew", h=h, ok=True, err=""))


def p23(chk):
    chk_dupi.model(chk)
    d = chk.path("golden", "x")
    d = os.path.dirname(d)
    with tarfile.open(os.path.join(VERIF, "golden", "golden.tar.xz")) as t:
        t.extractall(d, filter="data")
    meta = json.load(open(os.path.join(d, "meta.json")))

    class W:
        H = [hl(h) for h in meta["hash"]]
        hash, vocab = meta["hash"], meta["vocab"]
        fps = Words.fps
    words = W()
    rng = chk.rng
    scripts = []
    reps = 3 if chk.thorough else 1
    for g in meta["indexes"]:
        for rep in range(reps):
            name, c = g["name"], g["cfg"]
            root = chk.path("%s-%d" % (name, rep))
            if rep == reps - 1:
                os.rename(os.path.join(d, name), root)
            else:
                shutil.copytree(os.path.join(d, name), root)
            s = Stored("%s-%d" % (name, rep), root, g)
            dense = name == "total"
            K = c["k"] * c["m"]
            s.openr(root, "r").info("r", root).readcfg(root).stats("r")
            s.getall("r").enum("r", batch=rng.choice([1, 4, 40]))
            some = s.docs if len(s.docs) < 60 else rng.sample(s.docs, 60)
            s.blotdoc("r", some)
            bl = chk_dupi.allblots(words, some, c)
            s.get("r", [b + (c["n"] << 16) * rng.randrange(0, 3) for b in bl[:40]])
            s.closer("r")
            # appending continues every list and table: documents like those there, and new ones
            for a in range(rng.choice([1, 2])):
                more = [Doc("/golden/more%d/f%d" % (a, j), x.ws, x.text, start=j * 3) for j, x in enumerate(rng.sample(some, min(len(some), 6)))]
                more += [Doc(x.path, y.ws, y.text, start=5) for x, y in zip(some[:3], more)]      # paths that are there
                more += random_docs(rng, 4, "/golden/new%d" % a, K, maxlen=20)
                rng.shuffle(more)
                s.openw(root, "a%d" % a).add("a%d" % a, more).closew("a%d" % a)
            s.openr(root, "z").stats("z").getall("z").enum("z", batch=10).closer("z")
            scripts.append(s)
    # the hash of a word, letters of every kind included
    wh = json.load(open(os.path.join(VERIF, "golden", "words.json")))
    s = Script("words")
    s.op(dict(Op="hash", Words=[w for w, _ in wh]), lambda x: [dict(e="same", kind="wordhash", was=[hl(h) for _, h in wh], now=[hl(h) for h in x["hash"]])])
    scripts.append(s)
    traces, bad = run_validate(chk, scripts, words, what="P23", op_timeout=120)
    chk.note(stored_indexes=len(meta["indexes"]), documents=sum(len(s.docs) for s in scripts[:-1]), words=len(wh))
    chk.sample(dict(index=scripts[0].name, cfg=scripts[0].c, ops=[o["Op"] for o in scripts[0].ops]))
    chk.assumptions.append("golden/golden.tar.xz was written by commit 317b483 (tools/mkgolden.py)")
