"""Shared machinery of the checks: build, implementation harness, TLC, verdicts, evidence."""
import fcntl, json, math, os, queue, random, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
WORK = os.path.join(V, "work")
CONFORM = os.path.join(BUILD, "conform")
FIND_HITS = os.path.join(BUILD, "bliss", "bliss_find_hits")
PYTHON = "/opt/veriftools/pyvenv/bin/python3"
HITS_TO_DAT = os.path.join(BUILD, "bliss", "bliss_hits_to_dat")
BADNUM = 2000000001  # how a NaN, an infinity or an unexpected fraction reaches the specification
NWORK = 8

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=16777216:malloc_fill_byte=190:detect_odr_violation=0"
ENV["HDF5_USE_FILE_LOCKING"] = "FALSE"


class MachineryError(Exception):
    pass


def build(python=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run([os.path.join(V, "build.sh")] + (["", "pybliss"] if python else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise MachineryError("the harness did not build")


# ---- numbers ------------------------------------------------------------------------------
def enc(v, scale=1):
    """A number the implementation returned, as the integer scale*v; BADNUM if it is not one."""
    if isinstance(v, str) or v is None:
        return BADNUM
    if isinstance(v, bool):
        return int(v)
    x = v * scale
    if x != x or abs(x) >= 2000000000:
        return BADNUM
    r = round(x)
    return r if r == x else BADNUM


def rnd(v, scale=1):
    """As enc, but rounded to the nearest integer (the specification allows for the rounding)."""
    if isinstance(v, str) or v is None:
        return BADNUM
    x = v * scale
    if x != x or abs(x) >= 2000000000:
        return BADNUM
    return int(round(x))


# ---- the harness --------------------------------------------------------------------------
class Conform:
    args, env = [CONFORM], ENV

    def __init__(self, scratch):
        self.scratch = scratch
        self.start()

    def start(self):
        self.err = open(os.path.join(self.scratch, "err.%d" % id(self)), "w+")
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True,
                                  env=self.env, cwd=self.scratch)
        self.q = queue.Queue()
        p, q = self.p, self.q

        def rd():
            for line in p.stdout:
                q.put(line)
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        self.err.close()

    def errtail(self):
        self.err.flush()
        self.err.seek(0)
        t = self.err.read()
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|Assertion[^\n]*|terminate called[^\n]*(\n[^\n]*)?)", t)
        return (m.group(0) if m else t[-300:]).strip()

    def case(self, cmds, timeout):
        """Runs the commands from a clean state; a dead or stuck process ends the list with a crash record."""
        out = []
        try:
            self.p.stdin.write("reset\n" + "\n".join(cmds) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        for i in range(len(cmds) + 1):
            try:
                line = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty:
                line = None
                self.stop_reason = "no answer within %d s" % timeout
            else:
                self.stop_reason = None
            if line is None:
                try:
                    self.p.wait(timeout=0.2 if self.stop_reason else 5)
                except Exception:
                    pass
                why = self.stop_reason or self.errtail() or "exit status %s" % self.p.returncode
                self.stop()
                self.start()
                out.append({"ok": False, "exc": "crash", "msg": why, "crash": True})
                break
            r = json.loads(line)
            if i > 0:
                if "bad" in r and r["bad"].startswith("unknown name"):
                    r = {"ok": False, "exc": "missing", "msg": r["bad"]}
                if "bad" in r:
                    raise MachineryError("harness rejected a command: %s: %r" % (r["bad"], cmds[i - 1]))
                out.append(r)
        return out


class Python(Conform):
    """The same commands, answered by the Python modules (harness/pyworker.py)."""

    def __init__(self, scratch):
        # the sanitizer must come first, and the C++ library with it for its interception of exceptions
        pre = [subprocess.run(["gcc", "-print-file-name=" + x], stdout=subprocess.PIPE, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so.6")]
        self.args = [PYTHON, os.path.join(V, "harness", "pyworker.py"), os.path.join(BUILD, "bliss", "python"), CONFORM, scratch]
        self.env = dict(ENV, LD_PRELOAD=" ".join(pre), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        super().__init__(scratch)


def run_cases(cmdlists, scratch, timeout=20, n=NWORK, worker=Conform):
    """Runs every command list in the real code, in parallel; returns the responses in order."""
    res = [None] * len(cmdlists)
    todo = queue.Queue()
    for i in range(len(cmdlists)):
        todo.put(i)
    errs = []

    def work():
        c = worker(scratch)
        try:
            while not errs:
                try:
                    i = todo.get_nowait()
                except queue.Empty:
                    break
                res[i] = c.case(cmdlists[i], timeout)
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            c.stop()
    ts = [threading.Thread(target=work) for _ in range(min(n, max(1, len(cmdlists))))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def crashed(resp):
    return next((r for r in resp if r.get("crash")), None)


# ---- TLC ----------------------------------------------------------------------------------
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg=None, env=None, workers=NWORK, timeout=600, extra=(), scratch=None, heap="6g", consts=None):
    """Runs TLC on spec/<module>.tla; returns output and the measured numbers of states."""
    meta = os.path.join(scratch or WORK, "tlc-%s-%d-%d" % (module, os.getpid(), random.randrange(1 << 30)))
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
    if consts:
        text = open(cfgpath).read()
        for name, value in consts.items():
            text, n = re.subn(r"\b%s\s*=\s*.*" % name, "%s = %s" % (name, value), text)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (name, cfgpath))
        cfgpath = os.path.join(meta, "run.cfg")
        with open(cfgpath, "w") as fh:
            fh.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-config", cfgpath] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=SPEC, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or ""), -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m2 = re.findall(r"The number of states generated: (\d+)", out)
    if m2:
        gen = int(m2[-1])
    return {"out": out, "rc": rc, "generated": gen, "distinct": dist, "wall": time.time() - t0}


def tuples(out, tag):
    """The values TLC printed as <<"tag", k, ...>> (first integer and the text of the rest)."""
    res = []
    for m in re.finditer(r'^<<"%s", (\d+)(?:, (.*?))?>>\s*$' % tag, out, re.M | re.S):
        res.append((int(m.group(1)), (m.group(2) or "").strip()))
    return res


# ---- verdicts -----------------------------------------------------------------------------
class Run:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.t0 = time.time()
        self.scratch = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []  # (family, case, why)
        self.known = []
        self.parts = []
        self.controls = 0
        self.rules = []
        self.assumptions = []
        kf = os.path.join(V, "known_findings.json")
        self.findings = [f for f in (json.load(open(kf)).get("findings", []) if os.path.exists(kf) else []) if f["property"] == pid]

    quick = property(lambda s: s.tier == "quick")

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 12)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- design level
    def design(self, module, cfg=None, timeout=600, extra=(), must_fail=False, workers=NWORK, consts=None):
        """Exhaustive model check of the specification itself; it must hold, or the specification is wrong."""
        r = tlc(module, cfg, timeout=timeout, extra=extra, scratch=self.scratch, workers=workers, consts=consts)
        if must_fail:
            if r["rc"] != 12 and r["rc"] != 13:
                print(r["out"][-3000:])
                raise MachineryError("%s: TLC did not find the violation it must find" % module)
            self.controls += 1
        elif r["rc"] != 0:
            print(r["out"][-5000:])
            raise MachineryError("%s/%s: TLC rc=%d" % (module, cfg, r["rc"]))
        else:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.parts.append({"design": cfg or module, "distinct_states": r["distinct"], "generated": r["generated"], "wall_s": round(r["wall"], 1)})
        self.log("design", cfg or module, "distinct", r["distinct"], "generated", r["generated"], "%.1fs" % r["wall"])
        return r

    def behaviours(self, module, cfg=None, num=100, depth=10, timeout=300, tag="HIST", consts=None):
        """Behaviours TLC generates by random simulation of the specification, as JSON."""
        r = tlc(module, cfg, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(self.seed * 1000003 + len(self.parts))],
                timeout=timeout, scratch=self.scratch, workers=4, consts=consts)
        if r["rc"] != 0:
            print(r["out"][-4000:])
            raise MachineryError("%s: simulation failed rc=%d" % (module, r["rc"]))
        hs, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('<<"%s", "' % tag):
                t = line[len('<<"%s", ' % tag):-2]
                if t not in seen:
                    seen.add(t)
                    hs.append(json.loads(json.loads(t)))
        # TLC prints every successor of the last state but one: keep one behaviour of each such bundle
        bundles = {}
        for h in sorted(hs, key=lambda h: json.dumps(h)):
            bundles.setdefault(json.dumps(h[:-1]), []).append(h)
        hs = [self.rng.choice(b) for _, b in sorted(bundles.items())]
        self.transitions += r["generated"]
        self.parts.append({"simulated": cfg or module, "behaviours": len(hs), "generated": r["generated"], "wall_s": round(r["wall"], 1)})
        self.log("simulated", cfg or module, len(hs), "behaviours, %d states" % r["generated"], "%.1fs" % r["wall"])
        if not hs:
            print(r["out"][-3000:])
            raise MachineryError("%s: no behaviours generated" % module)
        return hs

    # -- conformance
    def judge(self, module, records, cfg=None, timeout=600, quiet=False, progress=False):
        """Checks recorded cases with TLC. Returns {index: reason} of the rejected ones (0-based)."""
        bad = {}
        idx = list(range(len(records)))
        stats = {"distinct": 0, "generated": 0}
        for attempt in range(12):
            if not idx:
                break
            f = os.path.join(self.scratch, "cases-%d.ndjson" % random.randrange(1 << 40))
            with open(f, "w") as fh:
                for j in idx:
                    fh.write(json.dumps(records[j]) + "\n")
            r = tlc(module, cfg, env={"CASES": f, "PROGRESS": "1" if progress else "0"}, timeout=timeout, scratch=self.scratch)
            os.unlink(f)
            done = {k for k, _ in tuples(r["out"], "DONE")}
            for k, why in tuples(r["out"], "BAD"):
                bad[idx[k - 1]] = why
            if r["rc"] == 0:
                stats = {"distinct": stats["distinct"] + r["distinct"], "generated": stats["generated"] + r["generated"]}
                for k in range(1, len(idx) + 1):
                    if k not in done and idx[k - 1] not in bad:
                        at = max([int(i) for j, i in tuples(r["out"], "AT") if j == k] or [-1])
                        bad[idx[k - 1]] = "the specification does not allow the recorded behaviour" + (
                            ", step %d: %s" % (at + 1, json.dumps(clip(records[idx[k - 1]]["steps"][at]))[:1500]) if 0 <= at < len(records[idx[k - 1]]["steps"]) else "")
                break
            # an observation outside the domain of the specification makes TLC stop with an error
            m = re.findall(r"/\\ k = (\d+)", r["out"]) or re.findall(r"^k = (\d+)", r["out"], re.M)
            err = re.search(r"Error: .*?(?=\nError: The|\Z)", r["out"], re.S)
            if r["rc"] == -9:
                print(r["out"][-6000:])
                raise MachineryError("%s: TLC failed (rc %d)" % (module, r["rc"]))
            # TLC names no state for an error in an initial state: the record is the first one not yet judged that fails alone
            k = int(m[-1]) if m else self.failing_alone(module, cfg, [records[j] for j in idx], done | {idx.index(j) + 1 for j in bad if j in idx})
            if k is None:
                print(r["out"][-6000:])
                raise MachineryError("%s: TLC failed (rc %d)" % (module, r["rc"]))
            if not quiet:
                print(r["out"][-2500:])
            bad[idx[k - 1]] = "observation outside the domain of the specification: " + (err.group(0)[:300] if err else "")
            idx = [j for j in idx if j not in bad]
        else:
            if not bad:
                raise MachineryError("%s: too many evaluation errors" % module)
            print("%s: many observations outside the domain of the specification; %d records left unjudged" % (module, len(idx)))
        return bad, stats

    def failing_alone(self, module, cfg, records, judged):
        for k in [k for k in range(1, len(records) + 1) if k not in judged][:24]:
            f = os.path.join(self.scratch, "alone-%d.ndjson" % random.randrange(1 << 40))
            with open(f, "w") as fh:
                fh.write(json.dumps(records[k - 1]) + "\n")
            r = tlc(module, cfg, env={"CASES": f, "PROGRESS": "0"}, timeout=120, scratch=self.scratch)
            os.unlink(f)
            if r["rc"] not in (0, -9) and re.search(r"evaluat|Attempted|overflow", r["out"], re.I):
                return k
        return None

    def conform(self, family, module, cases, observe, cfg=None, corrupt=None, timeout=600, case_timeout=20, rule="", maxbad=8, worker=Conform):
        """cases: list of dicts with "cmds"; observe(case, responses) -> the record TLC judges.
        corrupt(record) -> a wrong record (or None): the check must reject it (negative control)."""
        t0 = time.time()
        resp = run_cases([c["cmds"] for c in cases], self.scratch, timeout=case_timeout, worker=worker)
        recs, crash = [], {}
        for i, (c, r) in enumerate(zip(cases, resp)):
            cr = crashed(r)
            if cr:
                crash[i] = "the program crashed: " + cr["msg"][:300]
            else:
                o, why = self.observed(observe, c, r)
                if why:
                    crash[i] = why
                else:
                    recs.append((i, o))
        t1 = time.time()
        ctl = []
        if corrupt:
            pick = list(range(len(recs)))
            self.rng.shuffle(pick)
            for j in pick[:400]:
                w = corrupt(json.loads(json.dumps(recs[j][1])))
                if w is not None:
                    ctl.append(w)
                if len(ctl) >= 12:
                    break
        bad, st = self.judge(module, [r for _, r in recs] + ctl, cfg, timeout)
        nctl = sum(1 for j in bad if j >= len(recs))
        badc = {recs[j][0]: why for j, why in bad.items() if j < len(recs)}
        badc.update(crash)
        if ctl and nctl < len(ctl):
            missed = [ctl[j] for j in range(len(ctl)) if j + len(recs) not in bad]
            # a corruption may by chance be another right answer (a value within tolerance, a different right choice); most may not
            if not badc and 2 * nctl < len(ctl):
                print(json.dumps(missed[0])[:3000])
                raise MachineryError("%s: %d of %d corrupted records were accepted" % (family, len(ctl) - nctl, len(ctl)))
        self.controls += nctl
        # confirm what was rejected by running it again, alone
        order = sorted(badc)
        confirmed = {}
        if order:
            todo = order[:40]
            r2 = run_cases([cases[i]["cmds"] for i in todo], self.scratch, timeout=case_timeout, worker=worker)
            again, ag_i = [], []
            for i, r in zip(todo, r2):
                cr = crashed(r)
                if cr:
                    confirmed[i] = "the program crashed: " + cr["msg"][:300]
                else:
                    o, why = self.observed(observe, cases[i], r)
                    if why:
                        confirmed[i] = why
                    else:
                        again.append(o)
                        ag_i.append(i)
            if again:
                b2, _ = self.judge(module, again, cfg, timeout, quiet=True, progress=True)
                for j, why in b2.items():
                    confirmed[ag_i[j]] = why
                recs_by = dict(zip(ag_i, again))
            else:
                recs_by = {}
            for i in todo:
                if i in confirmed:
                    self.report(family, module, cases[i], recs_by.get(i), confirmed[i], worker)
            flaky = [i for i in todo if i not in confirmed]
            if flaky:
                self.log("NOT CONFIRMED on a second run (not reported):", family, flaky[:5], badc[flaky[0]][:300])
        self.traces += len(cases)
        self.evals += len(cases)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        for c in cases:
            self.distinct.add(hash("\n".join(c["cmds"])))
        if recs:
            i, r = recs[len(recs) // 2]
            self.samples.append({"family": family, "cmds": cases[i]["cmds"][:12], "record": clip(r)})
        if rule:
            self.rules.append(family + ": " + rule)
        self.parts.append({"family": family, "cases": len(cases), "rejected": len(badc), "confirmed": len(confirmed),
                           "trace_states": st["distinct"], "controls_rejected": nctl, "wall_s": round(time.time() - t0, 1)})
        self.log("%s: %d cases (%.1fs run, %.1fs TLC), %d rejected, %d confirmed, controls %d/%d" % (
            family, len(cases), t1 - t0, time.time() - t1, len(badc), len(confirmed), nctl, len(ctl)))
        return badc

    @staticmethod
    def observed(observe, case, resp):
        """The record of one run; a response without the expected results is itself a rejection."""
        try:
            return observe(case, resp), None
        except (KeyError, IndexError, TypeError, ValueError) as e:
            fail = next((r for r in resp if not r.get("ok")), None)
            return None, "unexpected response (%s %s): %s" % (type(e).__name__, e, json.dumps(fail)[:300])

    def report(self, family, module, case, record, why, worker=Conform):
        for f in self.findings:
            if f.get("family") == family and finding_matches(f, case, record):
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, f["what"])
                if line not in self.known:
                    self.known.append(line)
                return
        self.violations.append({"property": self.pid, "family": family, "module": module, "why": why,
                                "cmds": case["cmds"], "worker": worker.__name__, "case": {k: v for k, v in case.items() if k != "cmds"}, "record": record})

    def finish(self):
        for line in self.known:
            print(line)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": "; ".join(self.rules) or "distinct command sequences run in the implementation",
               "negative_controls_rejected": self.controls, "samples": self.samples[:8], "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations), "assumptions": self.assumptions}
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            seen = {}
            for n, v in enumerate(self.violations):
                seen.setdefault(v["family"], 0)
                seen[v["family"]] += 1
                if seen[v["family"]] > 5:
                    continue
                p = os.path.join(d, "%s-%d.json" % (self.pid, n))
                with open(p, "w") as fh:
                    json.dump(v, fh, indent=1, default=str)
                print("  %s: %s" % (v["family"], " ".join(str(v["why"]).split())[:400]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        self.log("ok: %d states, %d implementation traces" % (self.states, self.traces))
        return 0


def finding_matches(f, case, record):
    m = f.get("match", {})
    return all(case.get(k) == v for k, v in m.items()) and bool(m)


def clip(x, n=24):
    if isinstance(x, list):
        return [clip(y, n) for y in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    return x


def vec(v):
    return "%d %s" % (len(v), " ".join(fmt(x) for x in v))


def fmt(x):
    if isinstance(x, float):
        return repr(x) if x != int(x) or abs(x) > 1e15 else str(int(x))
    return str(x)


def exc_of(r):
    """The class of outcome of one command: "" or the exception type."""
    return "" if r["ok"] else r["exc"].replace("std::", "").replace("fmt::v9::", "").replace("fmt::v10::", "")
