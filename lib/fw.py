"""Shared machinery of the checks: running TLC, replaying behaviours of the
specification into the real code, validating recorded executions, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib, signal
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hbuild
from hbuild import VERIF, REPO

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = None
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 8


class ToolError(Exception):
    pass


def tlc_classpath():
    global CM
    if CM is None:
        txt = open(shutil.which("tlc")).read()
        m = re.findall(r"(/[^\s:\"']+\.jar)", txt)
        CM = ":".join(dict.fromkeys(m)) or JAR
    return CM


def scratch(prefix):
    base = os.path.join(hbuild.BUILD, "scratch")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "-", dir=base)


class TlcResult(dict):
    pass


def _tlc_once(module, cfg, mode, seed, num, depth, timeout, workers, extra_files, heap, dfs_queue):
    d = scratch(module)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        if getattr(cfg, "defs", None):
            with open(os.path.join(d, "MC.tla"), "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(cfg.defs)))
            module = "MC"
        cmd = ["java", "-Xmx%s" % heap, "-XX:+UseParallelGC"]
        if dfs_queue:
            cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
        cmd += ["-cp", tlc_classpath(), "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "st"),
                "-workers", str(workers), "-deadlock", "-noGenerateSpecTE"]
        if mode == "sim":
            cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        cmd += [module + ".tla"]
        out_path = os.path.join(d, "out.txt")
        with open(out_path, "w") as out:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        lines, msgs = [], []
        with open(out_path, errors="replace") as f:
            for ln in f:
                if ln.startswith('"{') or ln.startswith('"['):
                    lines.append(json.loads(json.loads(ln)))
                elif ln.startswith('{"') or ln.startswith('[{'):
                    lines.append(json.loads(ln))
                else:
                    msgs.append(ln)
        return rc, lines, "".join(msgs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc(module, cfg, mode="bfs", seed=1, num=100, depth=30, timeout=600, workers=None,
        extra_files=None, heap="6g", allow_violation=False, dfs_queue=False):
    """Run TLC.  A model failure (anything but success) is a tool error."""
    workers = workers or (1 if mode == "sim" else NCPU)
    last = None
    for attempt in range(2):
        rc, lines, msgs = _tlc_once(module, cfg, mode, seed, num, depth, timeout, workers, extra_files, heap, dfs_queue)
        r = TlcResult(rc=rc, lines=lines, msgs=msgs, generated=0, distinct=0, diameter=0)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", msgs)
        if m:
            r["generated"], r["distinct"] = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", msgs)
        if m:
            r["generated"] = int(m[-1].replace(",", ""))
        m = re.findall(r"The depth of the complete state graph search is (\d+)", msgs)
        if m:
            r["diameter"] = int(m[-1])
        r["actions"] = {a: (int(x), int(y)) for a, x, y in
                        re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", msgs, re.M)}
        if rc == 0:
            return r
        if allow_violation and rc in (10, 11, 12, 13, 75, 76):
            return r
        last = "TLC rc=%s on %s\n%s" % (rc, module, "".join(l for l in msgs.splitlines(True) if re.search("(?i)error|attempted|overflow|violated|line \\d+, col", l))[:2500] or msgs[-2500:])
    raise ToolError(last)


def tlc_sim_parallel(module, cfg, seed, procs, num, depth, timeout=600, extra_files=None, heap="2g"):
    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: tlc(module, cfg, "sim", seed * 1000 + i, num, depth, timeout, 1, extra_files, heap),
                         range(procs)))
    out = TlcResult(lines=[l for r in rs for l in r["lines"]], generated=sum(r["generated"] for r in rs),
                    distinct=0, diameter=0, actions={}, msgs="")
    return out


class Cfg(str):
    """A configuration, with the constants TLC's configuration files cannot express."""
    defs = ()


def parallel(*fns):
    with cf.ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(g) for g in fns]]


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(),
        view=None, postcondition=None, extra="", init=None, next=None):
    defs = []
    s = ("INIT %s\nNEXT %s\n" % (init, next)) if init else "SPECIFICATION %s\n" % spec
    if constants:
        for k, v in constants.items():
            v = str(v)
            if "<<" in v or "[" in v or ".." in v or "|->" in v or v.startswith("("):
                defs.append("def_%s == %s" % (k, v))
                s += "CONSTANT %s <- def_%s\n" % (k, k)
            else:
                s += "CONSTANT %s = %s\n" % (k, v)
    for k, l in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                 ("ACTION_CONSTRAINT", action_constraints)):
        for x in l:
            s += "%s %s\n" % (k, x)
    if view:
        s += "VIEW %s\n" % view
    if postcondition:
        s += "POSTCONDITION %s\n" % postcondition
    r = Cfg(s + extra)
    r.defs = tuple(defs)
    return r


# ------------------------------------------------------------- replay -----
def _run_chunk(args):
    binary, tests, timeout = args
    res = {}
    i = 0
    env = hbuild.env()
    env["OMP_NUM_THREADS"] = "1"
    crashes = 0
    while i < len(tests):
        inp = "".join(json.dumps(t, separators=(",", ":")) + "\n" for t in tests[i:])
        try:
            p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 text=True, env=env, errors="replace", cwd="/tmp")
            try:
                out, err = p.communicate(inp, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                rc = "hang"
        except OSError as e:
            raise ToolError(str(e))
        if rc == 97:
            raise ToolError("harness: " + (err or "")[-300:])
        done = 0
        for ln in out.splitlines():
            if not ln.startswith("{"):
                continue
            try:
                o = json.loads(ln)
            except ValueError:
                break
            if o.get("id") != tests[i + done]["id"]:
                raise ToolError("driver answered out of order: %s" % ln[:200])
            res[o["id"]] = o
            done += 1
        i += done
        if i < len(tests):
            # test i did not answer: that is a crash, an assertion or a hang of the code under test
            res[tests[i]["id"]] = {"id": tests[i]["id"], "crash": "rc=%s %s" % (rc, (err or "").strip()[-600:]), "obs": []}
            i += 1
            crashes += 1
            if crashes > 5:
                for t in tests[i:]:
                    res[t["id"]] = {"id": t["id"], "skipped": True, "obs": []}
                break
    return res


def drive(binary, tests, timeout=300, nproc=None):
    nproc = nproc or NCPU
    n = max(1, min(nproc, (len(tests) + 49) // 50))
    chunks = [tests[k::n] for k in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(_run_chunk, [(binary, c, timeout) for c in chunks]):
            res.update(r)
    return res


TOL = 1e-6


def same(e, o, tol=TOL):
    """Expected (model, exact) against observed (code, floating point)."""
    if e == "any":
        return True
    if isinstance(e, dict) and len(e) == 2 and "n" in e and "d" in e:
        e = e["n"] / e["d"]
    if isinstance(e, bool) or isinstance(o, bool):
        return isinstance(e, bool) and isinstance(o, bool) and e == o
    if isinstance(e, (int, float)):
        return isinstance(o, (int, float)) and abs(e - o) <= tol * max(1.0, abs(e))
    if isinstance(e, str):
        return e == o
    if isinstance(e, list):
        return isinstance(o, list) and len(e) == len(o) and all(same(a, b, tol) for a, b in zip(e, o))
    if isinstance(e, dict):
        return isinstance(o, dict) and all(k in o and same(v, o[k], tol) for k, v in e.items())
    return e == o


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = self.fields = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.violations = []
        self.exhaustive_parts = []
        self.known_hit = []
        self.known = self._load_known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", ln.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def build(self, *drivers):
        try:
            self.bins = hbuild.build(list(drivers))
        except hbuild.BuildError as e:
            raise ToolError("build failed: %s" % e)
        return self.bins

    def model(self, name, r, exhaustive=None):
        self.states += r["distinct"] or r["generated"]
        self.transitions += r["generated"]
        ops = {}
        for l in r["lines"]:
            for o in (l if isinstance(l, list) else [l]):
                ops[o.get("op")] = ops.get(o.get("op"), 0) + 1
        m = dict(model=name, generated=r["generated"], distinct=r["distinct"], depth=r["diameter"],
                 behaviours=len(r["lines"]), steps_by_action=ops)
        self.models.append(m)
        if exhaustive:
            self.exhaustive_parts.append(exhaustive)

    def violation(self, what, replay):
        for key, desc in self.known:
            if key in what.split(" ")[0]:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, desc))
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **replay), f, indent=1)
        self.violations.append((what, path))

    def replay(self, driver, tests, fields=None, label="", ignore_ops=(), timeout=300, max_report=5, tol=TOL,
               compare=None):
        """Replay behaviours {init, ops:[{op, .., exp:{..}}]} into the driver.

        `fields`: set of exp keys this property judges (None: all)."""
        if not tests:
            raise ToolError("no behaviour to replay for %s" % label)
        if fields is not None:
            keep = lambda op: any(f in fields or (op.get("op") + "." + f) in fields for f in (op.get("exp") or ()))
            tests = [t for t in tests if any(keep(op) for op in t["ops"])]
            if not tests:
                raise ToolError("no behaviour observes anything for %s" % label)
        for i, t in enumerate(tests):
            t["id"] = i
        binary = self.bins[driver]
        res = drive(binary, tests, timeout)
        bad = []
        seen = set()
        for t in tests:
            r = res.get(t["id"])
            if r is None or r.get("skipped"):
                continue
            self.traces += 1
            m = self._compare(t, r, fields, tol, compare)
            h = hashlib.md5(json.dumps(t["ops"], sort_keys=True).encode()).digest()
            seen.add(h)
            if m:
                bad.append((t, r, m))
        if len(self.samples) < 3:
            t = tests[len(tests) // 2]
            self.samples.append(dict(model=label or driver, behaviour={k: v for k, v in t.items() if k != "id"}))
        self.models.append(dict(replayed=label or driver, behaviours=len(tests), distinct=len(seen),
                                steps=sum(len(t["ops"]) for t in tests), mismatches=len(bad)))
        if bad:
            # shortest first, confirmed by a second run of the behaviour alone
            bad.sort(key=lambda b: len(json.dumps(b[0])))
            n = 0
            for t, r, m in bad[:20]:
                r2 = drive(binary, [t], timeout)[t["id"]]
                m2 = self._compare(t, r2, fields, tol, compare, count=False)
                if m2:
                    self.violation("%s/%s" % (label or driver, m2), dict(driver=driver, test=t, observed=r2))
                    n += 1
                    if n >= max_report:
                        break
            if n == 0:
                # not reproducible alone: repeat the whole set
                res = drive(binary, tests, timeout)
                for t in tests:
                    r = res.get(t["id"])
                    m2 = r and not r.get("skipped") and self._compare(t, r, fields, tol, compare, count=False)
                    if m2:
                        self.violation("%s/%s (in sequence)" % (label or driver, m2), dict(driver=driver, test=t, observed=r))
                        break
        return res

    def _compare(self, t, r, fields, tol, compare, count=True):
        if "crash" in r:
            return "crash: %s" % r["crash"][-300:]
        obs = r["obs"]
        for k, op in enumerate(t["ops"]):
            e = op.get("exp")
            if e is None:
                continue
            if k >= len(obs):
                return "missing observation at step %d" % k
            o = obs[k]
            if "exc" in o and "exc" not in e:
                return "step %d %s: unexpected exception %s" % (k, op.get("op"), o["exc"])
            for f, v in e.items():
                if fields is not None and f not in fields and (op.get("op") + "." + f) not in fields and f != "exc":
                    continue
                if count:
                    self.fields += 1
                c = compare.get(f) if compare else None
                ok = c(v, o.get(f), op, t) if c else (f in o and same(v, o[f], tol))
                if not ok:
                    return "%s:%s step %d expected %s got %s" % (op.get("op"), f, k, json.dumps(v)[:200],
                                                                json.dumps(o.get(f))[:200])
            if count:
                self.steps += 1
        return None

    def validate(self, module, driver, tests, op="run", label="", timeout=300, heap="4g", max_report=5, constants=None):
        """Check executions of the real code against a trace specification.

        The driver executes the behaviours; each observation of a step `op` carries the record of one
        execution.  The trace specification prints the identifier of every record it accepts; the record
        of an execution that is not a behaviour of the specification is a violation, confirmed by a second
        execution of its behaviour alone."""
        for i, t in enumerate(tests):
            t["id"] = i
        binary = self.bins[driver]

        def records(res, ts):
            out, crashed = [], []
            for t in ts:
                r = res.get(t["id"])
                if r is None or r.get("skipped"):
                    continue
                if "crash" in r:
                    crashed.append((t, r))
                    continue
                for k, (o, b) in enumerate(zip(t["ops"], r["obs"])):
                    if o["op"] == op:
                        if "trace" not in b:
                            crashed.append((t, dict(crash="no record: %s" % json.dumps(b)[:300], obs=r["obs"])))
                            break
                        out.append((t, k, b["trace"]))
            return out, crashed

        def rejected(recs):
            if not recs:
                return []
            txt = "\n".join(json.dumps(dict(x, id=i)) for i, (_, _, x) in enumerate(recs)) + "\n"
            cf_ = cfg(spec="TSpec", constants=dict(dict(File='"traces.json"'), **(constants or {})), invariants=["Report"])
            r = tlc(module, cf_, extra_files={"traces.json": txt}, timeout=timeout, heap=heap)
            ok = {l["accepted"] for l in r["lines"]}
            self.transitions += r["generated"]
            self.states += r["distinct"]
            return [x for i, x in enumerate(recs) if i not in ok]

        recs, crashed = records(drive(binary, tests, timeout), tests)
        if not recs and not crashed:
            raise ToolError("no execution recorded for %s" % label)
        bad = rejected(recs)
        self.traces += len(recs)
        self.steps += sum(len(x.get("steps", x.get("tr", ()))) for _, _, x in recs)
        kinds = {}
        for _, _, x in recs:
            key = "%s/%s" % (x.get("kind"), x.get("st"))
            kinds[key] = kinds.get(key, 0) + 1
        self.models.append(dict(validated=label or module, executions=len(recs), rejected=len(bad), kinds=kinds))
        if recs and len(self.samples) < 4:
            self.samples.append(dict(model=module, execution=recs[len(recs) // 2][2]))
        n = 0
        for t, r in sorted(crashed, key=lambda b: len(json.dumps(b[0])))[:20]:
            r2 = drive(binary, [t], timeout)[t["id"]]
            if records({t["id"]: r2}, [t])[1]:
                self.violation("%s/%s" % (label, r2.get("crash", "no record")[-300:]), dict(driver=driver, test=t, observed=r2))
                n += 1
                if n >= max_report:
                    break
        for t, k, x in sorted(bad, key=lambda b: len(json.dumps(b[0])))[:20]:
            r2 = drive(binary, [t], timeout)[t["id"]]
            again = rejected(records({t["id"]: r2}, [t])[0])
            if again:
                self.violation("%s/execution is not a behaviour of %s: step %d %s" % (label, module, k, json.dumps(x)[:300]),
                               dict(driver=driver, test=t, observed=r2, execution=x))
                n += 1
                if n >= max_report:
                    break

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   steps_compared=self.steps, values_compared=self.fields, models=self.models,
                   samples=self.samples or [dict(note="none")])
        if self.exhaustive_parts:
            cov["exhaustive_parts"] = self.exhaustive_parts
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations:
            print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d behaviours, %d steps, %d values compared, %d model states, %d violations, %.1fs" % (
            self.pid, self.tier, self.traces, self.steps, self.fields, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print("ERROR %s: %s" % (pid, e))
        rc = 2
    sys.stdout.flush()
    return rc
