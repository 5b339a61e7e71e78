"""Shared machinery of the checks: building the driver from /repo's working
tree, running scripts on the real code, running TLC, verdicts and evidence."""
import concurrent.futures
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check could not decide (not a violation)."""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return "/tmp"


GOENV = dict(HOME=os.environ.get("HOME") or "/root",
             PATH="/usr/local/bin:/usr/local/go/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="0")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=scratch_base())
        atexit.register(self.cleanup)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []          # (what, replay data)
        self.known = []
        self.notes = {}
        self.models = []
        self._n = 0
        self.drivers = {}

    # -- scratch ---------------------------------------------------------
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def fresh(self, suffix=""):
        self._n += 1
        return self.path("f%d%s" % (self._n, suffix))

    # -- building --------------------------------------------------------
    def go(self, args, env=None, timeout=600, cwd=None):
        e = dict(GOENV)
        for k in ("GOCACHE", "GOMODCACHE", "TMPDIR"):
            if k in os.environ:
                e[k] = os.environ[k]
        e.update(env or {})
        return subprocess.run(["go"] + args, cwd=cwd or REPO, env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")

    def build_driver(self, extra=None, race=False, tags=None, name="drv"):
        """Compiles /verif/driver as package dupi/verifdrv through an overlay.
        extra: more overlay entries (path -> replacement)."""
        if name in self.drivers:
            return self.drivers[name]
        ov = {"Replace": {}}
        src = os.path.join(VERIF, "driver")
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                ov["Replace"][os.path.join(REPO, "verifdrv", f)] = os.path.join(src, f)
        ov["Replace"].update(extra or {})
        ovf = self.fresh(".overlay.json")
        json.dump(ov, open(ovf, "w"))
        out = self.fresh("." + name)
        args = ["build", "-overlay", ovf, "-o", out]
        env = {}
        if race:
            args.insert(1, "-race")
            env["CGO_ENABLED"] = "1"
        if tags:
            args += ["-tags", tags]
        r = self.go(args + ["./verifdrv"], env=env)
        if r.returncode != 0:
            raise ToolError("building the driver failed:\n" + r.stdout)
        self.drivers[name] = out
        return out

    def build_iodriver(self):
        """The driver with hooks into the file operations of the standard
        library's syscall package (overlay/syscall_hook.go.txt)."""
        if "io" in self.drivers:
            return self.drivers["io"]
        r = self.go(["env", "GOROOT", "GOARCH"])
        goroot, arch = r.stdout.split()
        f = os.path.join(goroot, "src", "syscall", "zsyscall_linux_%s.go" % arch)
        if not os.path.exists(f):
            raise ToolError("no " + f)
        src = open(f).read()
        hook = os.path.join(VERIF, "overlay", "syscall_hook.go.txt")
        for name in re.findall(r"verif0(\w+)\(", open(hook).read()):
            src, n = re.subn(r"(?m)^func %s\(" % name, "func verif0%s(" % name, src)
            if n == 0 and "func verif0%s(" % name not in src:
                raise ToolError("%s is not in %s" % (name, f))
        z = self.fresh(".go")
        open(z, "w").write(src)
        h = self.fresh(".go")
        shutil.copy(hook, h)
        return self.build_driver(extra={f: z, os.path.join(goroot, "src", "syscall", "zz_verif_hook.go"): h},
                                 tags="verifio", name="io")

    def build_cli(self, cmd="dupi"):
        if "cli-" + cmd in self.drivers:
            return self.drivers["cli-" + cmd]
        out = self.fresh("." + cmd)
        r = self.go(["build", "-o", out, "./cmd/" + cmd])
        if r.returncode != 0:
            raise ToolError("building cmd/%s failed:\n" % cmd + r.stdout)
        self.drivers["cli-" + cmd] = out
        return out

    # -- running scripts -------------------------------------------------
    def run_scripts(self, scripts, drv=None, timeout=None, op_timeout=40, env=None, cwd=None, par=6):
        """Runs each script (list of ops) and returns a list of result lists.
        A script that hung, or took down the process, ends with an entry
        holding "hang" / "crash".  After some hangs the rest is not run (None)."""
        drv = drv or self.build_driver()
        timeout = timeout or (1500 if self.thorough else 400)
        results = [None] * len(scripts)
        self.hangs = 0
        groups = [[] for _ in range(min(par, max(1, len(scripts))))]
        order = sorted(range(len(scripts)), key=lambda i: -len(scripts[i]))
        for n, i in enumerate(order):
            groups[n % len(groups)].append(i)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(groups)) as ex:
            list(ex.map(lambda g: self._run_group(g, scripts, results, drv, timeout, op_timeout, env, cwd), groups))
        return results

    def _run_group(self, group, scripts, results, drv, timeout, op_timeout, env, cwd):
        todo = list(group)
        while todo and self.hangs < 3:
            sf, of, ef = self.fresh_ts(".script"), self.fresh_ts(".out"), self.fresh_ts(".err")
            json.dump([scripts[i] for i in todo], open(sf, "w"))
            e = dict(os.environ)
            e["VERIF_OP_TIMEOUT"] = str(op_timeout)
            e["VERIF_MAXRSS"] = "26" if self.pid == "P16" else "12" if self.thorough else "5"
            e["GOTRACEBACK"] = "all"
            e.update(env or {})
            dead = None
            with open(ef, "wb") as eh:
                p = subprocess.Popen([drv, "run", sf, of], env=e, cwd=cwd or self.dir,
                                     stdout=subprocess.DEVNULL, stderr=eh, stdin=subprocess.DEVNULL)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    # what was seen so far can still be judged
                    p.kill()
                    rc = p.wait()
                    dead = "driver exceeded %ds" % timeout
            lines = []
            if os.path.exists(of):
                for ln in open(of, errors="replace"):
                    try:
                        lines.append(json.loads(ln))
                    except ValueError:
                        break
            err = open(ef, errors="replace").read()
            for f in (sf, of, ef):
                try:
                    os.unlink(f)
                except OSError:
                    pass
            done = bool(lines) and lines[-1].get("done")
            if done:
                lines.pop()
            by = {}
            for r in lines:
                by.setdefault(r["s"], []).append(r)
            last = max(by) if by else 0
            if dead:
                # what is left of the script it was in, and those after it,
                # were not run
                self.hangs = 99
                for s in by:
                    if len(by[s]) < len(scripts[todo[s]]):
                        by[s].append(dict(s=s, o=len(by[s]), cut=dead))
                    results[todo[s]] = by[s]
                return
            if not done:
                hung = lines and "hang" in lines[-1]
                if hung:
                    self.hangs += 1
                else:
                    # process died: a Go panic or fatal error outside the op's goroutine
                    if rc == 3 or not re.search(r"(?m)^(panic:|fatal error:|unexpected fault|SIG)", err) \
                            or "go-air/dupi" not in err:
                        raise ToolError("driver died (rc=%s): %s" % (rc, err[-3000:]))
                    n = len(by.get(last, []))
                    if by and n == len(scripts[todo[last]]):
                        last, n = last + 1, 0
                    by.setdefault(last, []).append(dict(s=last, o=n, crash=err[:400], stack=err[:6000]))
            for s in range(len(todo)):
                if s in by:
                    results[todo[s]] = by[s]
                elif done or s < last:
                    results[todo[s]] = []
            if done:
                return
            todo = todo[last + 1:]

    def fresh_ts(self, suffix):
        fd, p = tempfile.mkstemp(suffix=suffix, dir=self.dir)
        os.close(fd)
        return p

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), timeout=600, workers="auto", mem="6g", deadlock=True,
            jvm=(), workdir=None):
        """Runs TLC on spec/<module>.tla with the given cfg (text or name of a
        file in spec/).  Returns (rc, output, stats)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        if "\n" in cfg or " " in cfg:
            cf = os.path.join(meta, module + ".cfg")
            open(cf, "w").write(cfg)
        else:
            cf = os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + meta] + list(jvm) + \
              ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(meta, "st"), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + ["-config", cf, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=workdir or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise ToolError("TLC on %s exceeded %ds" % (module, timeout))
        finally:
            shutil.rmtree(os.path.join(meta, "st"), ignore_errors=True)
        st = {}
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout, re.M)
        if m:
            st["transitions"] = int(m[-1][0].replace(",", ""))
            st["states"] = int(m[-1][1].replace(",", ""))
        return r.returncode, r.stdout, st

    def model(self, module, cfg, what="", **kw):
        """Model-checks a design specification; it must pass."""
        t = time.time()
        rc, out, st = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise ToolError("model %s does not check (rc=%d):\n%s" % (module, rc, out[-4000:]))
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)
        self.models.append(dict(module=module, what=what, states=st.get("states", 0),
                                transitions=st.get("transitions", 0), wall_s=round(time.time() - t, 1)))
        return out

    def model_refuses(self, module, cfg, what="", **kw):
        """A wrong design: some invariant must be violated (so that the
        invariants of the right one are known to say something)."""
        t = time.time()
        rc, out, st = self.tlc(module, cfg, **kw)
        if rc != 12 and rc != 13:
            raise ToolError("model %s of a wrong design was not refused (rc=%d):\n%s" % (module, rc, out[-3000:]))
        m = re.search(r"(Invariant|property) (\w+)|Temporal", out)
        self.models.append(dict(module=module, what="wrong design, refused: " + what, by=m.group(0) if m else "?",
                                wall_s=round(time.time() - t, 1)))

    def refuses(self, module, cfg, wrong):
        """wrong designs: the configuration of the right one with constants
        changed, each of them [(text, replacement), ...]; all are refused"""
        text = open(os.path.join(SPEC, cfg)).read()

        def one(w):
            t = text
            for a, b in w:
                if a not in t:
                    raise ToolError("no %s in %s" % (a, cfg))
                t = t.replace(a, b)
            self.model_refuses(module, t.replace("SYMMETRY Sym\n", ""), ", ".join(b for a, b in w), workers=1, mem="2g")
        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            list(ex.map(one, wrong))

    def validate(self, module, traces, env=None, consts="", timeout=600, mem="6g", cfg=None, workers=4, extra=None):
        """Checks traces (list of lists of events) against spec/<module>.tla,
        which must define TraceSpec and print <<"ACCEPTED", tid>> for every
        trace consumed to its end and <<"MISMATCH", tid, line, kind, ...>> for
        steps it refuses.  Returns {tid: [(line, kind)]} of refused traces."""
        if not traces:
            return {}
        f = self.fresh_ts(".trace.json")
        doc = dict(traces=traces)
        doc.update(extra or {})
        json.dump(doc, open(f, "w"))
        e = {"TRACE": f}
        e.update(env or {})
        rc, out, st = self.tlc(module, cfg or ("SPECIFICATION TraceSpec\nVIEW TraceView\n" + consts), env=e,
                               deadlock=False, timeout=timeout, mem=mem, workers=workers)
        if rc != 0:
            raise ToolError("trace validation with %s failed (rc=%d):\n%s" % (module, rc, out[-5000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out))
        mm = {}
        for t, l, k in re.findall(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*("(?:[^"\\]|\\.)*")', out):
            mm.setdefault(int(t), []).append((int(l), json.loads(k)))
        bad = {}
        for i in range(1, len(traces) + 1):
            if i not in acc:
                bad[i - 1] = mm.get(i, [(0, "no step of the specification explains the trace")])
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)
        self.cov["traces_validated_against_impl"] += len(traces)
        os.unlink(f)
        return bad

    # -- verdicts --------------------------------------------------------
    def violation(self, what, data):
        self.violations.append((what, data))

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.notes.get(k), int):
                self.notes[k] += v
            else:
                self.notes[k] = v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def known_findings(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        self.cov["models"] = self.models
        self.cov.update(self.notes)
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1, ensure_ascii=False, default=str)
        for k, w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if not self.violations:
            print("%s ok (%s, seed %d): %d states, %d traces, %.1fs" % (
                self.pid, self.tier, self.seed, self.cov["states"], self.cov["traces_validated_against_impl"],
                time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, "out")
        os.makedirs(rd, exist_ok=True)
        for n, (what, data) in enumerate(self.violations[:5]):
            rp = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, what=what, data=data,
                           rerun="VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (self.seed, self.tier, self.pid)),
                      open(rp, "w"), indent=1, ensure_ascii=False, default=str)
            print("# " + what.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


def run_check(pid, fn, level="model_checking"):
    c = Check(pid, level)

    def onterm(*_):
        sys.exit(4)
    signal.signal(signal.SIGTERM, onterm)

    def late():
        print("# out of time after %ds" % (time.time() - c.t0))
        rc = 2
        if c.violations:
            rc = c.finish()
        else:
            print("ERROR property=%s out of time" % pid)
        sys.stdout.flush()
        c.cleanup()
        subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())])
        os._exit(rc)
    if c.tier == "quick":
        t = threading.Timer(840, late)
        t.daemon = True
        t.start()
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        if c.violations:
            # what was found on the real code stands
            rc = c.finish()
        else:
            print("ERROR property=%s %s" % (pid, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            rc = c.finish()
        else:
            rc = 2
    sys.stdout.flush()
    c.cleanup()
    os._exit(rc)
