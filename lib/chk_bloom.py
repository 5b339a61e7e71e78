"""P25: sets kept in Bloom filters."""
import os
from vlib import ToolError, VERIF, REPO


def p25(chk):
    chk.model("Bloom", "MCBloom.cfg" if not chk.thorough else
              "SPECIFICATION Spec\nCONSTANTS Sets = {1, 2} Values = {1, 2, 3} Bits = {1, 2, 3} Skip = FALSE MaxOps = 6\n"
              "INVARIANTS NoFalseNegative EmptyHasNothing\nCHECK_DEADLOCK FALSE\n",
              "filters with any assignment of bits to values, all operation sequences", timeout=2000)
    chk.refuses("Bloom", "MCBloom.cfg", [[("Skip = FALSE", "Skip = TRUE")]])
    rng = chk.rng
    plain = chk.build_driver()
    try:
        drv = chk.build_driver(extra={os.path.join(REPO, "attic", "zz_verif_export.go"): os.path.join(VERIF, "overlay", "attic_export.go")},
                               tags="verifposts", name="posts")
        chk.note(posts="sets of attic and the filter itself")
    except ToolError as e:
        # the unexported type is gone or has another shape: only the filter's own interface
        drv = plain
        chk.note(posts="filter only: " + str(e)[-300:])
    scripts, metas = [], []
    sizes = [8, 16, 24, 64, 80, 128, 1000 * 8, 12345 * 8]
    edge = [0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    for i in range(600 if chk.thorough else 150):
        m = rng.choice(sizes) if rng.random() < 0.8 else 8 * rng.randint(1, 40)
        k = rng.choice([1, 1, 2, 3, 4, 7, 12, 40])
        pool = [rng.choice(edge) if rng.random() < 0.3 else rng.randrange(2**32) for _ in range(rng.choice([3, 8, 60]))]
        hs = ["a", "b", "c"][:rng.randint(1, 3)]
        ops = [dict(Op=rng.choice(["new", "new", "new", "full"]), H=h) for h in hs]
        for _ in range(rng.choice([5, 20, 60])):
            h, o = rng.choice(hs), rng.choice(hs)
            kind = rng.choice(["add"] * 5 + ["union", "union", "inter", "inter", "new", "full", "has", "has", "zero", "bits"])
            if kind == "full" and rng.random() < 0.6:
                kind = "add"
            if kind == "add":
                ops.append(dict(Op="add", H=h, Ids=[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 5]))]))
            elif kind in ("union", "inter"):
                ops.append(dict(Op=kind, H=h, To=o))
            elif kind == "has":
                ops.append(dict(Op="has", H=h, Ids=pool))
            else:
                ops.append(dict(Op=kind, H=h))
            if rng.random() < 0.3:
                ops.append(dict(Op="has", H=h, Ids=pool))
        for h in hs:
            ops += [dict(Op="has", H=h, Ids=pool + [rng.randrange(2**32) for _ in range(5)]), dict(Op="zero", H=h), dict(Op="bits", H=h)]
        ops.append(dict(Op="ones", Ids=pool[:10]))
        if m > 5000:
            ops = [o for o in ops if o["Op"] != "bits"]
        scripts.append([dict(Op="bloom", M=m, K=k, Mode=rng.choice(["", "config"]), Text="raw" if i % 4 == 0 else "", Ops=ops)])
        metas.append((m, k, ops))
    res = chk.run_scripts(scripts, drv=drv)
    traces = []
    for (m, k, ops), r in zip(metas, res):
        r = r[0]
        st = [x for x in ("hang", "panic", "crash") if x in r]
        if st:
            traces.append([dict(e="hang" if st[0] == "hang" else "panic", what=str(r[st[0]])[:300], stack=str(r.get("stack"))[:2000])])
            continue
        if not r["ok"]:
            traces.append([dict(e="panic", what="no filter: " + r["err"])])
            continue
        ev = []
        for o, y in zip(ops, r["r"]):
            if o["Op"] in ("new", "full"):
                ev.append(dict(e="new", h=o["H"], full=o["Op"] == "full"))
            elif o["Op"] == "add":
                ev.append(dict(e="add", h=o["H"], vs=[str(v) for v in o["Ids"]]))
            elif o["Op"] in ("union", "inter"):
                ev.append(dict(e=o["Op"], h=o["H"], o=o["To"]))
            elif o["Op"] == "has":
                ev.append(dict(e="has", h=o["H"], vs=[str(v) for v in o["Ids"]], has=y))
            elif o["Op"] == "zero":
                ev.append(dict(e="zero", h=o["H"], zero=y))
            elif o["Op"] == "bits":
                ev.append(dict(e="bits", h=o["H"], on=y[0], raw=y[1]))
            else:
                ev.append(dict(e="ones", k=k, m=m, gk=y["gk"], gm=y["gm"], ck=y["ck"], cm=y["cm"], x=[dict(a=a, b=b) for a, b in y["x"]]))
        traces.append(ev)
    bad = chk.validate("BloomTrace", traces)
    for i, mm in sorted(bad.items()):
        line = mm[-1][0]
        chk.violation("P25: filter of %d bits and %d functions, step %d: %s" % (metas[i][0], metas[i][1], line, mm[-1][1]),
                      dict(script=scripts[i], events=traces[i][:line]))
    chk.note(operations=sum(len(o) for _, _, o in metas))
    chk.sample(dict(m=metas[0][0], k=metas[0][1], trace=traces[0][:6]))
