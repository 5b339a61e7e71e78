"""P04: the parallel indexing pipeline."""
import itertools, os, random
from dupilib import *
from vlib import ToolError


def costly(rng, d, units):
    """the same document taking longer to tokenise: padding is no word"""
    pad = " " * (20000 * units)
    return Doc(d.path, d.ws, rng.choice([d.text + pad, pad + d.text]) if units else d.text, start=d.start, end=d.end, abs_=d.abs)


def p04(chk):
    chk.model("Pipeline", "MCPipeline.cfg", "pipeline, 4 documents, 3 workers, 2 shards: order, completeness, termination")
    chk.refuses("Pipeline", "MCPipeline.cfg", [[("Serial = TRUE", "Serial = FALSE"), ("Ordered = TRUE", "Ordered = FALSE")], [('Wake = "all"', 'Wake = "one"')],
                                               [("Ordered = TRUE", "Ordered = FALSE")], [("Acked = TRUE", "Acked = FALSE")]])
    if chk.thorough:
        chk.model("Pipeline", "MCPipelineBig.cfg", "pipeline, 6 documents, 4 workers, 3 shards: order and completeness", timeout=850)
    words = Words(chk)
    rng = chk.rng
    scripts = []

    def one(name, c, docs, cuts=(), small=True):
        root = chk.path("p04-%d" % len(scripts))
        s = Script(name)
        build(s, root, c, docs, cuts)
        s.openr(root, "r").getall("r").stats("r").closer("r")
        scripts.append(s)

    from chk_dupi import build
    # the order in which the workers finish tokenising, every permutation of
    # up to four; documents share words so that every list shows the order
    perms = [p for n in (2, 3, 4) for p in itertools.permutations(range(n))]
    rng.shuffle(perms)
    for g in range(0, len(perms), 8):
        W = 4
        docs = []
        pool = passages(rng, 3, 3, 6, 20)
        for p in perms[g:g + 8]:
            for rank in p:
                ws = rng.choice(pool) + rng.choice(pool)
                d = Doc("/p04/%d/%d" % (g, len(docs)), ws, render(rng, ws))
                docs.append(costly(rng, d, rank))
            for _ in range(W - len(p)):
                docs.append(Doc("/p04/%d/e%d" % (g, len(docs)), [], ""))
        one("finish-order-%d" % g, cfg(k=1, n=rng.choice([1, 2, 3]), w=W), docs, [len(docs) // 2])
    # one slow document, many fast ones waiting behind it
    for i, (W, n) in enumerate([(2, 1), (3, 2), (8, 2), (16, 3), (4, 5), (1, 4), (5, 1), (40, 2)]):
        docs = []
        pool = passages(rng, 4, 3, 6, 20)
        for j in range(120 if not chk.thorough else 400):
            ws = rng.choice(pool) + ([] if rng.random() < 0.5 else rng.choice(pool))
            if rng.random() < 0.1:
                ws = ws[:1]
            d = Doc("/p04s/%d/%d" % (i, j), ws, render(rng, ws))
            units = 30 if j % 40 == 3 else rng.choice([0, 0, 0, 0, 1, 2]) if i % 2 else 0
            docs.append(costly(rng, d, units))
        # the last documents are still being worked on when the index is closed
        docs[-1] = costly(rng, docs[-1], 20)
        one("slow-%d" % i, cfg(k=2, n=n, w=W, fl=rng.choice([1, 7, 16384])), docs, sorted(rng.sample(range(1, len(docs)), rng.choice([0, 1, 2]))))
    # the last ones take long, so that closing overlaps with work
    for i in range(24 if chk.thorough else 8):
        W, n = rng.choice([1, 2, 3, 4, 8]), rng.choice([1, 2, 4])
        ws = [rng.randrange(20) for _ in range(6)]
        docs = []
        for j in range(rng.randint(1, W + 2)):
            d = Doc("/p04c/%d/%d" % (i, j), ws, render(rng, ws))
            docs.append(costly(rng, d, rng.choice([0, 3, 15, 40])))
        one("closing-%d" % i, cfg(k=1, n=n, w=W), docs, [len(docs) // 2] if i % 3 == 0 else [])
    # lists long enough to be written out while others are being filled
    for i in range(4 if chk.thorough else 2):
        ws = [1, 2, 3, 4]
        docs = []
        for j in range(1200):
            w = ws[rng.randrange(2):] if rng.random() < 0.9 else ws[:2]
            docs.append(Doc("/p04l/%d/%d" % (i, j), w, render(rng, w, plain=True)))
        one("long-%d" % i, cfg(k=1, n=[1, 3, 2, 4][i], w=[8, 3, 16, 2][i]), docs, [500] if i % 2 else [])
    only = ["get", "add", "create", "closew", "openw", "openr", "closer", "stats", "statsdocs"]
    runs = 0
    for env in ([{}, {"GOMAXPROCS": "1"}, {"GOMAXPROCS": "2"}, {"GOMAXPROCS": "16"}] if chk.thorough
                else [{}, {"GOMAXPROCS": "2"}]):
        run_validate(chk, fresh_roots(chk, scripts, runs), words, only=only, what="P04 (%s)" % env, env=env, op_timeout=30, timeout=800)
        runs += 1
        if chk.violations:
            return
    # the instrumented scheduler of the race build gives other interleavings
    # (its reports are not part of the verdict: the property is about results)
    try:
        drv = chk.build_driver(race=True, name="race")
    except ToolError:
        drv = None
    if drv:
        sel = scripts if chk.thorough else scripts[::2]
        run_validate(chk, fresh_roots(chk, sel, runs), words, only=only, what="P04 (race build)", drv=drv,
                     env={"GORACE": "halt_on_error=0 exitcode=0 log_path=%s" % chk.path("race.log")}, op_timeout=60, timeout=800)
        runs += 1
    chk.note(schedules=runs * len(scripts), race_build=bool(drv))
    chk.sample(dict(script=scripts[0].name, costs=[len(d["T"]) for o in scripts[0].ops if o["Op"] == "add" for d in o["Docs"]][:16]))


def fresh_roots(chk, scripts, run):
    """the same scripts on other directories"""
    if run == 0:
        return scripts
    out = []
    for s in scripts:
        roots = {o["Root"] for o in s.ops if o["Op"] == "create"}
        t = Script(s.name)
        t.mk = [remap(m, roots, run) for m in s.mk]
        for o in s.ops:
            o = dict(o)
            if o.get("Root") in roots:
                o["Root"] += ".%d" % run
            t.ops.append(o)
        out.append(t)
    return out


def remap(m, roots, run):
    def f(x):
        ev = m(x)
        for e in ev:
            if e.get("r") in roots:
                e["r"] += ".%d" % run
        return ev
    return f
