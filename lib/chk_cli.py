"""Checks of the commands of the program: index (P17), extract (P18), like
(P19), blot and unblot (P20)."""
import json, os, random, re, shutil, stat
from dupilib import *
from chk_dupi import build, rndcfg, word_spans, model, allblots
from vlib import ToolError

NOBODY = 65534
XCFG = "SPECIFICATION XSpec\nVIEW TraceView\n"
# between words: nothing a parser of the output could take for something else
CSEPS = [" ", " ", " ", "\n", ", ", ". ", "\t", "'", "_", "-", "  ", "…", " — ", "\r\n", "\u00a0", "!?", "\x00"]


class Cli:
    def __init__(self, chk, cmd="dupi"):
        self.chk = chk
        self.bin = chk.build_cli(cmd)
        os.chmod(self.bin, 0o755)
        os.chmod(chk.dir, 0o755)
        self.home = chk.path("home", "x")[:-2]
        os.makedirs(os.path.join(self.home, ".config"), exist_ok=True)
        for d, _, _ in os.walk(self.home):
            os.chmod(d, 0o777)
        r = chk.run_scripts([[dict(Op="exec", Words=["/bin/true"], Root="/", N=NOBODY)]])[0][0]
        self.user = NOBODY if r.get("ok") and r["rc"] == 0 else 0

    def run(self, s, args, mk, cwd=None, r=None, user=0, how="r", home=None, files=0):
        """adds an execution of the program with the arguments to the script"""
        env = ["HOME=" + (home or self.home), "PATH=/usr/bin:/bin"]
        g = []
        if r:
            if how == "r":
                self.runs = getattr(self, "runs", 0) + 1
                g = [["-r", r], ["-r", r], ["-r=" + r], ["--r", r]][self.runs % 4]
                if self.runs % 3 == 0:      # the option counts more than the environment
                    env.append("DUPIROOT=" + self.chk.path("noroot"))
            elif how == "env":
                env.append("DUPIROOT=" + r)

        def made(x):
            if not x["ok"]:
                raise ToolError("the program cannot be run: " + x["err"])
            x["text"] = bytes.fromhex(x["out"])
            if x["rc"] < 0 or "goroutine " in x["stderr"] and re.search(r"(?m)^(panic:|fatal error:|\[signal)", x["stderr"]):
                return [dict(e="panic", what=x["stderr"][:300], stack=x["stderr"][:3000])]
            return mk(x)
        # no more than so many open files
        sh = ["/bin/sh", "-c", 'ulimit -n %d; exec "$@"' % files, "sh"] if files else []
        return s.op(dict(Op="exec", Words=sh + [self.bin] + g + [tid(a) for a in args], Root=tid(cwd or self.chk.dir), N=user, Env=env), made)


def dashes(rng):
    """the end of the options may be marked"""
    return ["--"] if rng.random() < 0.25 else []


def broken(what):
    """output that cannot be understood"""
    return [dict(e="fact", kind="output: " + what[:200], holds=False)]


# --- P17 ------------------------------------------------------------------------
NAMES = ["a", "b", "c", "dir", "sub", "x.txt", "ü", "漢", "a b", "~", "-v", "UP", "a.b", "...a", ".hid", ".git", "..x", "...", ".a", "like", "#f", "%s", "n\udcff", "\udce9t"]


class Node:
    link = False        # a symbolic link, to a file somewhere else or to nowhere

    def __init__(self, path, isdir, ok=True, doc=None):
        self.path, self.isdir, self.ok, self.doc = path, isdir, ok, doc


class Tree(list):
    odd = False         # there are also pipes in it


def mktree(rng, base, words, k, unreadable, depth=0, budget=None, big=None, pipes=False, links=None):
    """files and directories below base; nodes in the order of a walk"""
    out = []
    budget = budget or [30]
    names = sorted(rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5] if depth else [4, 5, 6, 7])), key=os.fsencode)
    for n in names:
        if budget[0] <= 0:
            break
        budget[0] -= 1
        p = os.path.join(base, n)
        if pipes and rng.random() < 0.15:
            os.mkfifo(p)
            continue
        if rng.random() < (0.45 if depth < 3 else 0):
            os.mkdir(p)
            nd = Node(p, True)
            out.append(nd)
            out += mktree(rng, p, words, k, unreadable, depth + 1, budget, big, pipes, links)
            if unreadable and rng.random() < 0.15:
                nd.ok = False
        else:
            r = rng.random()
            raw = None
            ws = [rng.randrange(len(VOCAB)) for _ in range(rng.choice([0, 1, k, k + 1, k + 2, 8, 20]))]
            if r < 0.1:
                ws, raw = [], b"not \xff valid one two three four five six seven"
            elif r < 0.15:
                ws, raw = [], b""
            t = render(rng, ws)
            if big and raw is None:
                # a long file, mostly of what is between words
                ws = [rng.randrange(len(VOCAB)) for _ in range(3 * k + 6)]
                t = render(rng, ws[:k + 3]) + rng.choice("\n #\u2026") * big.pop() + render(rng, ws[k + 3:])
            link = links and rng.random() < 0.3
            nowhere = rng.random() < 0.15
            if link:
                os.symlink(os.path.join(links, rng.choice(["none", "dir"]) if nowhere else "%d" % len(os.listdir(links))), p)
            if link and nowhere:
                nd = Node(p, False, False, Doc(p, [], ""))
                nd.link = True
                out.append(nd)
                continue
            with open(p, "wb") as f:
                f.write(t.encode() if raw is None else raw)
            d = Doc(p, ws, t, end=len(t.encode()) if raw is None else len(raw))
            nd = Node(p, False, True, d)
            if unreadable and not link and rng.random() < 0.12:
                nd.ok = False
            out.append(nd)
    return out


def nm(s):
    return [tid(c) for c in os.path.basename(s.rstrip("/")) or "/"]


def abspath(cwd, a):
    return clean(os.path.join(cwd, a))


def printed(p):
    """the last name, as it is in the messages"""
    return os.fsencode(os.path.basename(p)).decode("utf-8", "replace")


def treeev(nodes, x):
    err = x["stderr"]
    return [dict(p=comps(n.path), nm=nm(n.path), dir=n.isdir, ok=n.ok,
                 reported=printed(n.path) in err,
                 doc=n.doc.ev() if n.doc else dict(id="", ws=[], c=[])) for n in nodes]


def p17(chk):
    chk.model("MCWalk", "MCWalk.cfg", "walks of all trees of up to two levels: definition and program")
    words = Words(chk)
    cli = Cli(chk)
    rng = chk.rng
    scripts, post = [], []
    for i in range(60 if chk.thorough else 22):
        k = rng.choice([1, 2, 3, 10])
        n = rng.choice([1, 2, 4])
        user = cli.user
        area = chk.path("p17-%d" % i, "x")[:-2]
        base = os.path.join(area, "corp")
        os.mkdir(base)
        unreadable = bool(user) and i % 2 == 0
        links = None
        if i % 4 == 2:
            links = os.path.join(area, "elsewhere")
            os.makedirs(os.path.join(links, "dir"))     # what can be opened, but not read
        nodes = Tree([Node(base, True)] + mktree(rng, base, words, k, unreadable, pipes=i % 6 == 3, links=links,
                                                 big=[70000, rng.choice([1100000, 4300000, 17000000])] if i % 5 == 1 else None))
        nodes.odd = i % 6 == 3
        if user:
            for d, ds, fs in os.walk(area):
                for f in [d] + [os.path.join(d, f) for f in fs]:
                    os.lchown(f, user, user)
        locked = [nd for nd in nodes if not nd.ok and not nd.link]
        for nd in locked[::-1]:
            os.chmod(nd.path, rng.choice([0, 0o111] if nd.isdir else [0, 0o222]))
        s = Script("walk-%d" % i)
        how = ["r", "env", "home"][i % 3]
        home = None
        # a name may be that of a command
        verbal = i % 6 == 0
        root = os.path.join(area, ["index", "like", "extract"][i // 6 % 3] if verbal else "ix")
        if how == "home":
            home = area
            root = os.path.join(area, ".dupi")
        c = cfg(k=k, n=n, w=4)
        lnk = os.path.join(area, "lnk")
        own = [nd for nd in nodes if nd.isdir]
        if links:
            # the same tree under another name
            os.symlink(base, lnk)
            for nd in list(nodes):
                q = lnk + nd.path[len(base):]
                o = Node(q, nd.isdir, nd.ok)
                if nd.doc:
                    o.doc = Doc(q, nd.doc.ws, nd.doc.text, end=nd.doc.end)
                nodes.append(o)
        dirs = [nd for nd in nodes if nd.isdir]
        files = [nd for nd in nodes if not nd.isdir]

        def choose():
            cwd = rng.choice([base, area] + verbal * [area] * 3 + [d.path for d in own if all(x.ok for x in dirs if d.path.startswith(x.path))][:3])
            args = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = rng.random()
                if t < 0.3:
                    p = base if not links or rng.random() < 0.5 else lnk
                elif t < 0.6:
                    p = rng.choice(dirs).path
                elif t < 0.85 and files:
                    p = rng.choice(files).path
                elif t < 0.92:
                    p = os.path.join(base, "not-there")
                else:
                    p = cwd if cwd != area else base
                rel = os.path.relpath(p, cwd)
                isd = any(d.path == p for d in dirs)
                forms = [p, rel, "./" + rel, os.path.join(cwd, rel)]
                if isd:
                    forms += [p + "/", rel + "/", rel + "/.", p + "/./"]
                    up = [d for d in dirs if os.path.dirname(d.path) == p and d.ok]
                    if up:
                        forms.append(os.path.join(rel, os.path.basename(up[0].path), ".."))
                if p == lnk:        # as a directory
                    forms = [lnk + "/", os.path.join(cwd, rel) + "//", rel + "/", lnk + "/.", "./" + rel + "/./"]
                a = rng.choice(forms)
                args.append(a)
            return cwd, args
        extra = []
        first = True
        for sess in range(rng.choice([1, 2, 3])):
            cwd, args = choose()
            # a path that is reached through a directory that cannot be entered cannot be looked at
            fl = []
            if first:
                w = rng.choice([1, 2, 4, 7])
                c["w"] = w
                fl = rng.choice([["-n", str(n), "-t", str(k), "-s", str(w)], ["-s=%d" % w, "-t=%d" % k, "-n=%d" % n]])
            else:
                fl = ["-a"]
            if rng.random() < 0.2:
                fl.append("-v")
            args = [a for a in args if reachable(nodes, abspath(cwd, a), a, cwd)] or [base]
            if not reachable(nodes, cwd, ".", cwd):
                cwd, args = area, [base]
            dd = dashes(rng)
            args = ["./" + a if a.startswith("-") and not dd else a for a in args]

            def mk(x, args=args, cwd=cwd, first=first, c=dict(c), nodes=nodes, root=root):
                return [dict(e="xindex", r=root, create=first, c=c, rc=x["rc"], stderr=x["stderr"][-300:], odd=nodes.odd, tree=treeev(nodes, x),
                             args=[dict(p=comps(abspath(cwd, a)), nm=nm(a), reported=printed(a.rstrip("/")) in x["stderr"]) for a in args])]
            cli.run(s, ["index"] + fl + dd + args, mk, cwd=cwd, r=os.path.relpath(root, cwd) if verbal else root, user=user, how=how, home=home)
            getbag(s.openr(root, "r%d" % sess), "r%d" % sess).stats("r%d" % sess).closer("r%d" % sess)
            first = False
        # there is an index already; there is none
        if i % 4 == 0:
            cli.run(s, ["index", "-t", "2", base], lambda x, root=root, nodes=nodes, base=base: [
                dict(e="xindex", r=root, create=True, c=cfg(), rc=x["rc"], odd=nodes.odd, tree=treeev(nodes, x), args=[dict(p=comps(base), nm=nm(base), reported=False)])],
                r=root, user=user, how=how, home=home)
            no = os.path.join(area, "noindex")
            cli.run(s, ["index", "-a", base], lambda x, no=no, nodes=nodes, base=base: [
                dict(e="xindex", r=no, create=False, c=cfg(), rc=x["rc"], odd=nodes.odd, tree=treeev(nodes, x), args=[dict(p=comps(base), nm=nm(base), reported=False)])],
                r=no, user=user, how=how if how != "home" else "r", home=home)
            getbag(s.openr(root, "rz"), "rz").stats("rz").closer("rz")
            s.exists([no])
        scripts.append(s)
        post.append(locked)
    # many files in one directory, a deep tree, many arguments; few files may be open
    for i in range(4 if chk.thorough else 2):
        area = chk.path("p17w-%d" % i, "x")[:-2]
        base = os.path.join(area, "corp")
        k, n = 2, rng.choice([1, 2])
        nodes = Tree([Node(base, True)])
        os.mkdir(base)

        def put(p):
            ws = [rng.randrange(12) for _ in range(rng.choice([0, 2, 3, 4]))]
            t = render(rng, ws, plain=True)
            open(p, "w").write(t)
            nodes.append(Node(p, False, True, Doc(p, ws, t, end=len(t))))
        args = [base]
        if i % 2 == 0:
            for j in range(1100):
                put(os.path.join(base, "%05d" % j))
        else:
            p = base
            for j in range(120):
                p = os.path.join(p, "d%03d" % j)
                os.mkdir(p)
                nodes.append(Node(p, True))
            put(os.path.join(p, "leaf"))
            for j in range(200):
                put(os.path.join(base, "f%03d" % j))
            args = [nd.path for nd in nodes[121:]] + [os.path.join(base, "d000"), os.path.join(base, "not-there")]
        c = cfg(k=k, n=n, w=3)
        root = os.path.join(area, "ix")
        s = Script("wide-%d" % i)
        for first in (True, False):
            cli.run(s, ["index"] + (["-n", str(n), "-t", str(k), "-s", "3"] if first else ["-a"]) + args,
                    lambda x, args=args, first=first, c=dict(c), nodes=nodes, root=root: [
                        dict(e="xindex", r=root, create=first, c=c, rc=x["rc"], stderr=x["stderr"][-300:], odd=nodes.odd, tree=treeev(nodes, x),
                             args=[dict(p=comps(a), nm=nm(a), reported=printed(a) in x["stderr"]) for a in args])],
                    cwd=area, r=root, files=40)
            args = args[-150:]
        getbag(s.openr(root, "r"), "r").stats("r").closer("r")
        scripts.append(s)
    # a configuration file overrides the other flags
    for i in range(3):
        area = chk.path("p17c-%d" % i, "x")[:-2]
        base = os.path.join(area, "corp")
        os.mkdir(base)
        c = cfg(k=2, m=i + 1, n=2, w=3, fl=5)
        nodes = Tree([Node(base, True)] + mktree(rng, base, words, 2, False))
        root, tmpl = os.path.join(area, "ix"), os.path.join(area, "tmpl")
        s = Script("config-%d" % i)
        s.create(tmpl, "w", c).closew("w")
        cf = os.path.join(area, "c.json")

        def prep(x, cf=cf, tmpl=tmpl, root=root):
            d = json.loads(x["t"])
            for q in [q for q, v in d.items() if v == tmpl]:
                d[q] = root
            return []
        # the configuration of tmpl with the path of root
        s.op(dict(Op="subst", Root=os.path.join(tmpl, "cfg.json"), To=cf, Words=[tmpl, root]), lambda x: [])
        cli.run(s, ["index", "-t", "7", "-n", "1", "-c", cf, base],
                lambda x, root=root, c=c, nodes=nodes, base=base: [
                    dict(e="xindex", r=root, create=True, c=c, rc=x["rc"], odd=nodes.odd, tree=treeev(nodes, x), args=[dict(p=comps(base), nm=nm(base), reported=False)])],
                r=os.path.join(area, "other"))
        s.exists([os.path.join(area, "other")])
        getbag(s.openr(root, "r"), "r").stats("r").info("r", root).closer("r")
        scripts.append(s)
    run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P17", extra=dict(corp=[]),
                 only=["index", "reported", "get", "statsdocs", "statspaths", "openr", "closer", "create", "closew", "exists", "info"])
    for locked in post:
        for nd in locked:
            os.chmod(nd.path, 0o755)
    chk.note(trees=len(scripts), commands=sum(1 for s in scripts for o in s.ops if o["Op"] == "exec"),
             unprivileged=bool(cli.user))
    if not cli.user:
        chk.assumptions.append("unreadable files and directories not covered: the program could not be run as another user")
    chk.sample(dict(args=[o["Words"][1:] for o in scripts[0].ops if o["Op"] == "exec"]))


def reachable(nodes, p, a, cwd):
    """is the way to p, as spelled, through directories that can be entered?"""
    bad = [n.path for n in nodes if n.isdir and not n.ok]
    full = os.path.join(cwd, a)
    cur = "/"
    parts = [x for x in full.split("/") if x]
    for j, x in enumerate(parts):
        if cur in bad and os.stat(cur).st_mode & 0o111 == 0:
            return False
        if x == "..":
            cur = os.path.dirname(cur)
        elif x != ".":
            cur = os.path.join(cur, x)
    # asking for "d/." enters d
    last = a.rstrip("/").endswith("/.") or a.endswith("/") or a.endswith("/..") or a in (".", "..")
    return not (last and cur in bad)


def getbag(s, h):
    def mk(x):
        return [dict(e="getbag", h=h, ok=x["ok"], err=x["err"], q=[dict(b=hl(p["b"]), d=p["d"]) for p in (x["p"] or [])])]
    return s.op(dict(Op="getall", H=h), mk)


# --- corpora on disk ---------------------------------------------------------------
def corpus(rng, words, base, c, N, weird=False, parts=True, seps=CSEPS, big=None):
    """documents in files below base, sharing passages word for word (and
    sometimes only up to letter case or what is between the words)"""
    K = c["k"] * c["m"]
    nv = len(VOCAB)
    pool = []
    for _ in range(max(2, N // 4)):
        ws = [rng.randrange(nv) for _ in range(rng.randint(K + 1, K + 5))]
        pool.append((ws, render(rng, ws, seps=seps).strip()))
    docs = []
    j = 0
    names = ["f%d", "d/f%d", "d/e/f%d", "g.%d.txt"] + (["a b%d", "ü%d", "f@%d:1", "漢%d", "%%%d", '"%d', "x\udcff%d"] if weird else [])
    while len(docs) < N:
        f = os.path.join(base, rng.choice(names) % j)
        j += 1
        os.makedirs(os.path.dirname(f), exist_ok=True)
        np = rng.randint(2, 3) if parts and rng.random() < 0.25 else 1
        content = b"" if np == 1 else rng.choice(["", "head ", "été — "]).encode()
        for _ in range(np):
            ws, t = [], ""
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if t:
                    t += rng.choice(seps)
                r = rng.random()
                if r < 0.55:
                    w, x = rng.choice(pool)
                    if r < 0.08:
                        x = "".join(a.upper() if len(a.upper()) == 1 and a.upper().lower() == a else a for a in x)
                    elif r < 0.16:
                        x = render(rng, w, seps=seps).strip()
                else:
                    w = [rng.randrange(nv if rng.random() < 0.7 else 3) for _ in range(rng.randint(1, K + 6))]
                    x = render(rng, w, seps=seps)
                ws, t = ws + w, t + x
            d = Doc(f, ws, t, start=len(content))
            if np == 1 and not t:
                ws = [rng.randrange(nv)]
                d = Doc(f, ws, VOCAB[ws[0]])
            if d.end > d.start or np == 1:
                docs.append(d)
            content += d.text.encode() + (rng.choice(["", " ", "\n"]).encode() if np > 1 else b"")
        with open(f, "wb") as fh:
            fh.write(content)
    return docs


def windows(d, c):
    K = c["k"] * c["m"]
    sp = word_spans(d)
    b = d.text.encode()
    return [b[sp[g][0] - d.start:sp[g + K][1] - d.start].hex() for g in range(len(d.ws) - K)] if len(d.ws) > K else []


def corpev(docs, c):
    return [dict(id=d.id, ws=[w + 1 for w in d.ws], win=windows(d, c)) for d in docs]


# --- P18 ------------------------------------------------------------------------
SIGMAS = [("0", 0, 1, False), ("2", 2, 1, False), ("1", 1, 1, False), ("0.5", 1, 2, False), ("3.7", 37, 10, False), ("100", 100, 1, False),
          ("-1", 1, 1, True), ("-0.5", 1, 2, True), ("10", 10, 1, False), ("-50", 50, 1, True), ("31.4", 314, 10, False), ("250", 250, 1, False),
          ("600", 600, 1, False)]
# beyond what any integer type holds: nothing qualifies, or everything does
HUGE = [("1e30", 2000000000, 1, False), ("-1e30", 2000000000, 1, True), ("inf", 2000000000, 1, False), ("1e19", 2000000000, 1, False),
        ("-inf", 2000000000, 1, True), ("5e12", 2000000000, 1, False)]


def parse_doc(s):
    m = re.match(r"(.*)@(\d+):(\d+)$", s, re.S)
    return s if m else None


def extract_out(x, mode):
    t = os.fsdecode(x["text"])
    out = []
    if mode == "json":
        dec = json.JSONDecoder()
        at = 0
        while True:
            while at < len(t) and t[at] in " \t\r\n":
                at += 1
            if at >= len(t):
                return out
            try:
                v, at = dec.raw_decode(t, at)
            except ValueError:
                return None
            for b in (v if isinstance(v, list) else [v]):
                try:
                    out.append(dict(b=hl(b["Blot"]), d=[tids("%s@%d:%d" % (d["Path"], d["Start"], d["End"])) for d in b["Docs"]]))
                except (KeyError, TypeError):
                    return None
    for ln in t.split("\n"):
        if ln == "":
            continue
        p = ln.split(" ")
        if not re.fullmatch(r"[0-9a-fA-F]+", p[0]) or int(p[0], 16) >= 2**32 or (mode == "b") != (len(p) == 1):
            return None
        if any(parse_doc(y) is None for y in p[1:]):
            return None
        out.append(dict(b=hl(int(p[0], 16)), d=[tids(y) for y in p[1:]]))
    return out if t == "" or t.endswith("\n") else None


def p18(chk):
    chk.model("MCBigNat", "\n\n", "arithmetic used for the threshold")
    chk.model("MCExtract", "\n\n", "threshold by squares against the direct definition")
    words = Words(chk)
    cli = Cli(chk)
    rng = chk.rng
    scripts = []
    for i in range(30 if chk.thorough else 12):
        c = rndcfg(rng)
        c["n"] = min(c["n"], [1, 2, 4, 3][i % 4])
        weird = i % 3 == 2
        base = chk.path("p18-%d" % i, "corp", "x")[:-2]
        N = rng.choice([0, 1, 6, 20, 40])
        docs = random_docs(rng, N, base, c["k"] * c["m"],
                           paths=[base + "/" + (rng.choice(["a b%d", "ü%d", '"%d', "f@%d:1", "x\n%d", "<%d>&"]) % j if weird else "d%d/f%d" % (j % 3, j))
                                  for j in range(N)]) if N else []
        if i % 4 == 1:
            # many documents of one fingerprint: the threshold separates lists of different lengths
            ws = [1, 2, 3, 4, 5][:c["k"] * c["m"] + 1]
            ws += [7] * (c["k"] * c["m"] + 1 - len(ws))
            for j in range(60 if i % 8 == 1 else 12):
                docs.append(Doc(base + "/same/%d" % j, ws[:], render(rng, ws)))
            rng.shuffle(docs)
        if i % 4 in (0, 3) and not weird or i % 6 == 5:
            # documents that are parts of few files, some of them twice
            at = {}
            for d in docs:
                d.path = base + "/parts%d" % rng.randrange(3)
                d.abs, d.start = clean(d.path), at.get(d.path, 0)
                d.end = at[d.path] = d.start + len(d.text.encode())
            docs += rng.sample(docs, len(docs) // 6)
        root = chk.path("p18i-%d" % i)
        s = Script("extract-%d" % i)
        build(s, root, c, docs, [len(docs) // 3])
        modes = ["json"] if weird else ["text", "json", "b"]
        for sg in rng.sample(SIGMAS, 5 if not chk.thorough else 9) + [None, HUGE[i % len(HUGE)]]:
            for mode in modes:
                a = ["extract"] + ([] if sg is None else ["-sigma=" + sg[0]]) + {"text": [], "json": ["-json"], "b": ["-b"]}[mode]

                def mk(x, sg=sg, mode=mode, root=root):
                    p = extract_out(x, mode)
                    if p is None:
                        return broken(x["out"])
                    _, num, den, neg = sg or ("2", 2, 1, False)
                    return [dict(e="xextract", r=root, sigma=dict(num=num, den=den, neg=neg), mode=mode, rc=x["rc"], p=p)]
                cli.run(s, a, mk, r=root, how=rng.choice(["r", "env"]))
        # not an index
        no = root + "-no"
        cli.run(s, ["extract"], lambda x, no=no: [dict(e="xextract", r=no, sigma=dict(num=2, den=1, neg=False), mode="text", rc=x["rc"], p=[])], r=no)
        scripts.append(s)
    # a list longer than any buffer, and others that are shorter
    for i in range(3 if chk.thorough else 1):
        c = cfg(k=1, n=rng.choice([1, 2]), w=rng.choice([1, 4]))
        base = chk.path("p18l-%d" % i, "corp", "x")[:-2]
        docs = []
        for ws, num in [([1, 2], 2300), ([3, 4], 1500), ([5, 6, 7], 1024), ([8, 9], 1000), ([10, 11], 600), ([12, 13, 14, 15], 30), ([16, 17], 1)]:
            docs += [Doc("%s/%d/%d" % (base, ws[0], j), ws, render(rng, ws, plain=True)) for j in range(num)]
        root = chk.path("p18li-%d" % i)
        s = Script("extract-long-%d" % i)
        build(s, root, c, docs, [len(docs) // 3])
        for sg in [SIGMAS[0], SIGMAS[8]]:
            for mode in ["text", "json"]:
                def mk(x, sg=sg, mode=mode, root=root):
                    p = extract_out(x, mode)
                    if p is None:
                        return broken(x["out"])
                    return [dict(e="xextract", r=root, sigma=dict(num=sg[1], den=sg[2], neg=sg[3]), mode=mode, rc=x["rc"], p=p)]
                cli.run(s, ["extract", "-sigma=" + sg[0]] + (["-json"] if mode == "json" else []), mk, r=root)
        scripts.append(s)
    tr, _ = run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P18", extra=dict(corp=[]))
    chk.note(commands=sum(1 for s in scripts for o in s.ops if o["Op"] == "exec"),
             printed=sum(len(e["p"]) for t in tr for e in t if e["e"] == "xextract"))
    chk.sample(dict(ops=[o["Words"][1:] for o in scripts[1].ops if o["Op"] == "exec"][:6]))


# --- P15: the inspect command -----------------------------------------------------
def inspect_out(x, js):
    t = os.fsdecode(x["text"])
    if js:
        try:
            d = json.loads(t)
            return dict(root=d["Root"], m100=-1, s100=-1, **statnums(d["NumDocs"], d["NumPaths"], d["NumPosts"], d["NumBlots"], float(d["BlotMean"]), float(d["BlotSigma"])))
        except (ValueError, KeyError, TypeError):
            return None
    m = re.match(r"(?s)dupi index at (.*):\n\s*- (\d+) docs\n\s*- (\d+) nodes in path tree\n\s*- (\d+) posts\n\s*- (\d+) blots\n"
                 r"\s*- (\d+)\.(\d\d) mean docs per blot\n\s*- (\d+)\.(\d\d) sigma \(std deviation\)\n$", t)
    if not m:
        return None
    g = m.groups()
    return dict(statnums(*[int(v) for v in g[1:5]], 0, 0), root=g[0], sig=False, m100=min(int(g[5] + g[6]), INT), s100=min(int(g[7] + g[8]), INT))


def inspect(chk, words):
    """the inspect command, in its two forms, between sessions"""
    cli = Cli(chk)
    rng = chk.rng
    scripts = []
    for i in range(24 if chk.thorough else 8):
        c = rndcfg(rng)
        c["n"] = [1, 2, 3, 5][i % 4]
        N = [0, 8, 30, 60][i % 4 if i > 3 else rng.randrange(4)]
        base = chk.path("p15x-%d" % i, "x")[:-2]
        root = os.path.join(base, ["ix", "inspect", "i x", "like", "i:x", "ix\u00fc"][i % 6])
        docs = random_docs(rng, N, "/p15x/%d" % i, c["k"] * c["m"]) if N else []
        if i % 4 == 2:
            ws = [1, 2, 3, 4, 5, 6, 7, 8] * 4
            docs += [Doc("/p15x/same%d" % j, ws, render(rng, ws)) for j in range(50)]
        s = Script("inspect-%d" % i)

        def look():
            for js in (False, True):
                how = rng.choice(["r", "env"])
                sp, cwd = root, None
                if rng.random() < 0.4:
                    sp, cwd = rng.choice(["./", "../%s/" % os.path.basename(base), "", ""]) + os.path.basename(root), base

                def mk(x, js=js, root=root):
                    o = inspect_out(x, js)
                    if x["rc"] == 0 and o is None:
                        return broken(x["out"])
                    return [dict(e="xinspect", r=root, rc=x["rc"], wantroot=tid(root), **dict(o or {}, root=tid(o["root"]) if o else ""))]
                cli.run(s, ["inspect"] + (["-json"] if js else []), mk, cwd=cwd, r=sp, how=how)
        look()
        build(s, root, c, docs[:N // 2], [])
        look()
        s.openw(root, "y").add("y", docs[N // 2:]).fill("y", rng.choice([0, 1, 20])).closew("y")
        look()
        s.openr(root, "q").stats("q").remover("q")
        look()
        scripts.append(s)
    run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P15 inspect", extra=dict(corp=[]),
                 only=["stats", "statsdocs", "statspaths", "create", "closew", "openr", "openw", "add", "rc", "remover"])
    chk.note(inspect_commands=sum(1 for s in scripts for o in s.ops if o["Op"] == "exec"))


# --- P19 ------------------------------------------------------------------------
def like_out(x, names):
    t = os.fsdecode(x["text"])
    if t and not t.endswith("\n"):
        return None
    out = []
    for ln in t.split("\n")[:-1]:
        if ln.startswith("\t"):
            m = re.match(r"\t(.*) (\d+):(\d+)$", ln)
            if not m or not out:
                return None
            out[-1].append(tids("%s@%s:%s" % m.groups()))
        elif ln.startswith("like ") and ln.endswith(":") and len(out) < len(names) and ln[5:-1] == names[len(out)]:
            out.append([])
        else:
            return None
    return out


def p19(chk):
    model(chk)
    words = Words(chk)
    cli = Cli(chk)
    rng = chk.rng
    scripts, corps = [], []
    for i in range(40 if chk.thorough else 14):
        c = rndcfg(rng)
        c["n"] = min(c["n"], 4)
        base = chk.path("p19-%d" % i, "corp", "x")[:-2]
        os.makedirs(base, exist_ok=True)
        if i % 5 == 4:
            # fingerprints that do not tell passages apart: the same words in another order
            docs = permuted(rng, base, c, onefile=i % 10 == 9)
        else:
            docs = corpus(rng, words, base, c, rng.choice([4, 12, 25]), weird=True, big=[1100000, 70000] if i % 7 == 3 else None)
        corps.append(corpev(docs, c))
        root = chk.path("p19i-%d" % i)
        s = Script("like-%d" % i)
        # some are in the index twice
        again = rng.sample(docs, min(2, len(docs))) if i % 3 == 0 else []
        build(s, root, c, docs + again, [len(docs) // 2])
        for q in range(8 if chk.thorough else 5):
            files, fev = [], []
            for g in range(rng.choice([1, 1, 2])):
                p = os.path.join(os.path.dirname(base), "q%d_%d" % (q, g))
                if i % 5 == 4 and q % 3 == 2:
                    # the passages of one of them only
                    d = rng.choice(docs)
                    with open(p, "wb") as fh:
                        fh.write(d.text.encode())
                    files.append(p)
                    fev.append(dict(ws=[w + 1 for w in d.ws], win=windows(Doc(p, d.ws, d.text), c)))
                    continue
                t = rng.random()
                whole = [d for d in docs if d.start == 0 and d.end == os.path.getsize(d.path)]
                if t < 0.3 and whole:
                    d = rng.choice(whole)
                    files.append(d.path)
                    fev.append(dict(ws=[w + 1 for w in d.ws], win=windows(d, c)))
                    continue
                ws, tx = [], ""
                # in a file with several passages of one fingerprint, any of them counts
                twins = i % 5 == 4 and q % 3 != 2
                for d in [rng.choice(docs) for _ in range(rng.randint(2, 4) if twins else rng.randint(0, 3))]:
                    sp = word_spans(d)
                    if twins:
                        w, y = d.ws, d.text
                    elif rng.random() < 0.75 and len(d.ws) > 1:
                        a = rng.randrange(len(d.ws))
                        b = min(len(d.ws), a + rng.choice([c["s"], c["s"] + 1, c["s"] + 1, c["s"] + 3]))
                        w, y = d.ws[a:b], d.text.encode()[sp[a][0] - d.start:sp[b - 1][1] - d.start].decode()
                    else:
                        w = [rng.randrange(len(VOCAB)) for _ in range(rng.randint(1, 6))]
                        y = render(rng, w, seps=CSEPS).strip()
                    if rng.random() < 0.1:
                        y = y.upper() if y.upper().lower() == y and len(y.upper()) == len(y) else y
                    if not words_len(y, w):
                        continue
                    ws, tx = ws + w, tx + (rng.choice([" ", "\n", ", "]) if tx else "") + y
                with open(p, "wb") as fh:
                    fh.write(tx.encode())
                files.append(p)
                fev.append(dict(ws=[w + 1 for w in ws], win=windows(Doc(p, ws, tx), c)))

            def mk(x, files=files, fev=fev, root=root, n=len(corps)):
                out = like_out(x, files)
                if out is None:
                    return broken(x["out"])
                return [dict(e="xlike", r=root, corp=n, files=fev, out=out, rc=x["rc"])]
            cli.run(s, ["like"] + dashes(rng) + files, mk, r=root, files=24 + c["n"], how=rng.choice(["r", "env"]))
        no = root + "-no"
        cli.run(s, ["like", files[0]], lambda x, no=no, n=len(corps): [dict(e="xlike", r=no, corp=n, files=[], out=[], rc=x["rc"])], r=no)
        scripts.append(s)
    tr, _ = run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P19", extra=dict(corp=corps))
    chk.note(files=sum(len(e["files"]) for t in tr for e in t if e["e"] == "xlike"),
             listed=sum(len(o) for t in tr for e in t if e["e"] == "xlike" for o in e["out"]))
    chk.sample(dict(event=[e for e in tr[0] if e["e"] == "xlike"][0]["out"]))


def words_len(t, ws):
    from chk_text import words_of
    return len(words_of(t)) == len(ws)


def permuted(rng, base, c, onefile=False):
    """documents of the same words in different order: other passages, same
    fingerprints (in one file, its parts one after the other)"""
    K = c["k"] * c["m"]
    docs, content = [], b""
    ws = rng.sample(range(20), min(20, K + 1))
    ws += [0] * (K + 1 - len(ws))
    # long passages that begin alike, and end alike
    lead, tail = [rng.choice([" ", " ", " ", " " * 70, ", " * 80, " " * 300, "\n" * 5000]) for _ in range(2)]
    for j in range(10):
        w = ws[:1] + rng.sample(ws[1:], len(ws) - 1) if j > 2 else list(ws)
        f = os.path.join(base, "p%d" % j)
        t = lead.join([VOCAB[w[0]], " ".join(VOCAB[x] for x in w[1:-1]) + tail + VOCAB[w[-1]]]) if j % 3 else render(rng, w, seps=CSEPS)
        if j % 4 == 3:
            w2 = [30 + j] + w
            t = VOCAB[30 + j] + " " + t
            w = w2
        if onefile:
            f = os.path.join(base, "parts")
            docs.append(Doc(f, w, t, start=len(content)))
            content += t.encode() + b"\n"
        else:
            docs.append(Doc(f, w, t))
            content = t.encode()
        with open(f, "wb") as fh:
            fh.write(content)
    return docs


# --- P20 ------------------------------------------------------------------------
def blot_out(x, offsets):
    t = os.fsdecode(x["text"])
    if t and not t.endswith("\n"):
        return None
    out = []
    for ln in t.split("\n")[:-1]:
        m = re.fullmatch(r"([0-9a-fA-F]{1,8}) (\d+):(\d+)" if offsets else r"([0-9a-fA-F]{1,8})", ln)
        if not m:
            return None
        out.append(dict(b=hl(int(m.group(1), 16)), s=int(m.group(2)) if offsets else -1, e=int(m.group(3)) if offsets else -1))
    return out


def unblot_out(x):
    t = x["text"]
    out = []
    while t:
        m = re.match(rb"text:\n'''\n(.*?)'''\n((?:\t[^\n]* \d+:\d+\n)+)", t, re.S)
        if not m:
            return None
        ds = []
        for ln in os.fsdecode(m.group(2)).split("\n")[:-1]:
            y = re.match(r"\t(.*) (\d+):(\d+)$", ln)
            ds.append(tids("%s@%s:%s" % y.groups()))
        out.append(dict(t=m.group(1).hex(), ds=ds))
        t = t[m.end():]
    return out


def p20(chk):
    model(chk)
    words = Words(chk)
    cli = Cli(chk)
    rng = chk.rng
    scripts, corps = [], []
    for i in range(40 if chk.thorough else 14):
        c = rndcfg(rng)
        c["n"] = min(c["n"], 4)
        base = chk.path("p20-%d" % i, "corp", "x")[:-2]
        os.makedirs(base, exist_ok=True)
        if i % 4 == 3:
            docs = permuted(rng, base, c, onefile=i % 8 == 7)
        else:
            docs = corpus(rng, words, base, c, rng.choice([5, 12, 20]), weird=True, big=[1100000, 70000] if i % 7 == 4 else None)
        corps.append(corpev(docs, c))
        root = chk.path("p20i-%d" % i)
        s = Script("blot-%d" % i)
        build(s, root, c, docs, [len(docs) // 2])
        whole = [d for d in docs if d.start == 0 and d.end == os.path.getsize(d.path)]
        for q in range(6):
            off = q % 2 == 1
            ds = [rng.choice(whole) for _ in range(rng.choice([1, 1, 2, 3]))] if whole else []
            if q >= 4:
                p = os.path.join(os.path.dirname(base), "n%d" % q)
                ws = [rng.randrange(len(VOCAB)) for _ in range(rng.choice([0, c["s"], c["s"] + 1, 30]))]
                d = Doc(p, ws, render(rng, ws))
                with open(p, "wb") as fh:
                    fh.write(d.text.encode())
                ds = [d] + ds

            def mk(x, ds=ds, off=off, root=root, q=q):
                out = blot_out(x, off)
                if out is None:
                    return broken(x["out"])
                return [dict(e="xblot", r=root, offsets=off, out=out, rc=x["rc"],
                             files=[dict(ws=[w + 1 for w in d.ws], sp=[list(y) for y in word_spans(d)]) for d in ds * (8 if q == 5 else 1)])]
            cli.run(s, ["blot"] + (["-offsets"] if off else []) + dashes(rng) + [d.path for d in ds] * (8 if q == 5 else 1), mk, r=root, files=24 + c["n"], how=rng.choice(["r", "env"]))
        bl = allblots(words, docs, c)
        cnt = {}
        for d in docs:
            for f in set(words.fps(d.ws, c["k"], c["m"], c["n"])):
                cnt[f] = cnt.get(f, 0) + 1
        dup = [f for f in bl if cnt[f] > 1]
        asked = rng.sample(dup, min(len(dup), 7)) + rng.sample(bl, min(len(bl), 4)) + [rng.randrange(c["n"] << 16)]
        asks = [[b] for b in asked]
        # several in one command, also the same one again
        for _ in range(4 if chk.thorough else 2):
            bs = [rng.choice(dup or bl or [0]) if rng.random() < 0.6 else rng.choice(asked) for _ in range(rng.choice([2, 3, 4]))]
            if rng.random() < 0.6:
                bs.insert(rng.randrange(len(bs) + 1), rng.choice(bs))
            asks.append(bs)
        asks.append([])
        for bs in asks:
            al = rng.random() < 0.5
            ask = [b + (c["n"] << 16) if rng.random() < 0.2 and b + (c["n"] << 16) < 2**32 else b for b in bs]

            def mk2(x, ask=ask, al=al, root=root, n=len(corps)):
                g = unblot_out(x)
                if g is None:
                    return broken(x["out"])
                return [dict(e="xunblot", r=root, corp=n, bs=[hl(b) for b in ask], all=al, groups=g, rc=x["rc"])]
            cli.run(s, ["unblot"] + (["-all"] if al else []) + dashes(rng) + [rng.choice(["%x", "%08x", "%X"]) % b for b in ask], mk2, r=root, files=24 + c["n"], how=rng.choice(["r", "env"]))
        no = root + "-no"
        cli.run(s, ["blot", docs[0].path], lambda x, no=no: [dict(e="xblot", r=no, offsets=False, out=[], rc=x["rc"], files=[])], r=no)
        cli.run(s, ["unblot", "0"], lambda x, no=no, n=len(corps): [dict(e="xunblot", r=no, corp=n, bs=[[0, 0]], all=False, groups=[], rc=x["rc"])], r=no)
        scripts.append(s)
    tr, _ = run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P20", extra=dict(corp=corps))
    chk.note(blots=sum(len(e["out"]) for t in tr for e in t if e["e"] == "xblot"),
             unblots=sum(1 for t in tr for e in t if e["e"] == "xunblot"),
             passages=sum(len(e["groups"]) for t in tr for e in t if e["e"] == "xunblot"))
    chk.sample(dict(event=[e for e in tr[0] if e["e"] == "xunblot"][0]))


# --- P27 ------------------------------------------------------------------------
HEADS = ["Message-ID: <%d>", "Date: Mon, %d", "From: a%d@b", "Subject: one two %d", "X-Folder: \\\\a\\b%d", "To: "]


def csvrec(rng, a, b, odd):
    """two fields as a record of the file"""
    def q(t):
        if any(ch in t for ch in ',"\n\r') or t[:1] in (" ", "\t") or rng.random() < 0.5:
            return '"' + t.replace('"', '""') + '"'
        return t
    return q(a) + "," + q(b)


def p27(chk):
    model(chk)
    cli = Cli(chk, "dupenron")
    words = Words(chk)
    rng = chk.rng
    scripts = []
    seps = [" ", " ", "\n", ", ", ". ", "\t", "'", "\n> ", " \"", "\" ", "=\n", "\n\n", ";", "_", " \u2014 "]
    for i in range(40 if chk.thorough else 12):
        s = Script("enron-%d" % i)
        base = chk.path("p27-%d" % i, "x")[:-2]
        os.makedirs(base, exist_ok=True)
        root = os.path.join(base, "ix")
        fname = os.path.join(base, ["mail.csv", "m \u00fc.csv"][i % 2])
        n, k = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 10])
        N = [0, 1, 5, 20, 60][i % 5]
        # all documents of one path; the numbers are only to tell them apart here
        docs = random_docs(rng, N, "/x", k)
        nl = rng.choice(["\n", "\n", "\r\n"])
        lines, recs, evd = [], [], []
        for j, d in enumerate(docs):
            body = render(rng, d.ws, seps=seps)
            heads = [h % j if "%" in h else h for h in rng.sample(HEADS, rng.randint(1, 5))]
            r = rng.random()
            if r < 0.75:
                msg, ws = "\n".join(heads) + "\n\n" + body, d.ws
            elif r < 0.9 and body[:1] != "\n":
                # no head; the text goes up to the first empty line only if there is one
                t = body.replace("\n\n", "\n \n")
                msg, ws = t, d.ws
            else:
                msg, ws = "\n".join(heads) + "\n\n", []
            if not msg:
                msg = "x: y\n\n"
            key = rng.choice(["a/%d." % j, "b c/%d." % j, "d,e/%d." % j, "%d" % j])
            if i % 5 != 4:
                lines.append(csvrec(rng, key, msg, False))
                recs.append([key, msg])
            else:
                lines.append(csvrec(rng, key, msg.replace("\n", nl), False))
                recs.append([key, msg.replace("\r\n", "\n")])
            evd.append(dict(id=str(j), ws=[x + 1 for x in ws], c=comps(fname)))
        ok = True
        if i % 6 == 5:
            # not well formed: a record of one or of three fields
            at = rng.randrange(len(lines) + 1)
            lines.insert(at, rng.choice(["only-one", "a,b,c"]))
            recs.insert(at, ["?"])
            ok = False
        with open(fname, "w", newline="") as f:
            f.write("".join(ln + nl for ln in lines))
        missing = i % 6 == 2 and chk.thorough
        num = rng.choice([0, 1, 3, len(recs), len(recs) + 5])

        def head(x, recs=recs, num=num, ok=ok):
            try:
                import csv, io
                csv.field_size_limit(1 << 28)
                out = [r for r in csv.reader(io.StringIO(os.fsdecode(x["text"]), newline=""))]
            except Exception as e:
                return broken(x["out"])
            return [dict(e="xhead", rc=x["rc"], n=num, ok=ok, recs=recs, out=out)]
        cli.run(s, ["-o", "-n", str(num), fname], head)
        c = cfg(k=k, m=1, n=n, w=1)

        def made(x, root=root, c=c, ok=ok, evd=evd):
            return [dict(e="xenron", r=root, rc=x["rc"], ok=ok, c=c, docs=evd)]
        sp, cwd, f = root, None, fname
        if i % 3 == 1:
            sp, cwd, f = "ix", base, "./" + os.path.basename(fname)
        cli.run(s, ["-r", sp, "-n", str(n), "-s", str(k), f], made, cwd=cwd)
        if ok:
            def counts(x, fname=fname):
                return [dict(e="getcounts", h="r", ok=x["ok"], err=x["err"], file=fname,
                             q=[dict(b=hl(p["b"]), n=len(p["d"])) for p in (x["p"] or [])],
                             paths=sorted({d.rsplit("@", 1)[0] for p in (x["p"] or []) for d in p["d"]}))]
            s.openr(root, "r").op(dict(Op="getall", H="r"), counts).stats("r").closer("r")
            # not over what is there
            cli.run(s, ["-r", sp, "-n", str(n), "-s", str(k), f], made, cwd=cwd)
        scripts.append(s)
    run_validate(chk, scripts, words, module="CommandsTrace", cfg=XCFG, what="P27", extra=dict(corp=[]),
                 only=["rc", "records", "get", "paths", "stats", "statsdocs", "statspaths", "openr", "closer"])
    chk.note(files=len(scripts))
    chk.sample(dict(ops=[o["Words"][1:] for o in scripts[2].ops if o["Op"] == "exec"]))
