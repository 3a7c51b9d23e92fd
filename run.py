"""Runs harness programs over a range of cases on all cores, turns what their monitors and the
sanitizers saw into violations, and collects the counts for the evidence."""
import array, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
import build

WORKERS = os.cpu_count() or 4
# a single case that uses this much CPU time on its own is a hang
HANG_CPU = 60
# a quick check stops making new cases after this long, or sooner once something is wrong
SOFT = 600
SOFT_FOUND = 240
# no progress for this long makes the driver look closer
STALL = 90

class HarnessError(Exception):
    pass

ASAN = "abort_on_error=0:exitcode=77:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=1:" \
       "strict_string_checks=1:check_initialization_order=1:hard_rss_limit_mb=3500:max_allocation_size_mb=2500:malloc_context_size=12:" \
       "quarantine_size_mb=32"

def environment(extra=None, leaks=True):
    e = {k: v for k, v in os.environ.items() if not k.startswith("LC_") and k not in ("LANG", "LANGUAGE")}
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = ASAN % (1 if leaks else 0)
    e["LSAN_OPTIONS"] = "exitcode=76"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=75"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=74:second_deadlock_stack=1"
    if extra:
        e.update(extra)
    return e

def _limits(cpu):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f

def summary(text):
    """A stable name for a sanitizer report or an abort, and the report itself."""
    report = text[-6000:]
    for pat in (r"SUMMARY: (\w+Sanitizer): ([^\n]*)", r"runtime error: ([^\n]*)", r"(terminate called[^\n]*)",
                r"([^\n]*[Aa]ssertion [^\n]*failed[^\n]*)", r"(==\d+==ERROR[^\n]*)"):
        m = re.search(pat, text)
        if m:
            s = " ".join(m.groups())
            s = re.sub(r"0x[0-9a-f]+|\(BuildId[^)]*\)|\(/[^)]*\)", "", s)
            # name functions, not line numbers
            s = re.sub(r"/\S*/([\w.]+):\d+(:\d+)?", r"\1", s)
            i = text.find("ERROR:")
            j = text.find("runtime error:")
            at = min([x for x in (i, j) if x >= 0] or [max(0, len(text) - 6000)])
            return s.strip()[:200], text[max(0, at - 200):at + 6000]
    return "", report

class Session:
    """One invocation of a check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []
        self.evaluations = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.parts = []
        self.notes = []
        self.leaks = True
        self.t0 = time.time()

    def time_up(self):
        if self.tier != "quick":
            return False
        t = time.time() - self.t0
        return t > SOFT or (t > SOFT_FOUND and bool(self.violations))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def violation(self, part, key, detail, case=None, input=None, **more):
        self.violations.append(dict(property=self.prop, part=part, key=key, detail=detail, case=case, input=input, seed=self.seed, **more))

    def add_count(self, name, n):
        if name.startswith("worst"):
            self.counts[name] = max(self.counts.get(name, 0), n)
        else:
            self.counts[name] = self.counts.get(name, 0) + n

    # ------------------------------------------------------------
    def _start(self, prog, mode, first, to, step, d, tag, args, env, cpu=None, replay=False):
        files = {k: os.path.join(d, "%s.%s" % (tag, k)) for k in ("out", "cur", "hashes", "err")}
        for f in files.values():
            if os.path.exists(f):
                os.unlink(f)
        scratch = os.path.join(d, tag + ".scratch")
        os.makedirs(scratch, exist_ok=True)
        cmd = [prog, "--mode", mode, "--seed", str(self.seed), "--from", str(first), "--to", str(to), "--step", str(step),
               "--out", files["out"], "--cur", files["cur"], "--hashes", files["hashes"], "--scratch", scratch] + list(args)
        if replay:
            cmd += ["--replay", "1"]
        err = open(files["err"], "wb")
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, cwd=scratch, preexec_fn=_limits(cpu))
        err.close()
        return dict(p=p, files=files, scratch=scratch, first=first, to=to, step=step, tag=tag, started=time.time(), last=None, last_change=time.time())

    def _cur(self, w):
        try:
            with open(w["files"]["cur"], "rb") as f:
                b = f.read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else w["first"]
        except OSError:
            return w["first"]

    def _kill(self, w):
        try:
            os.killpg(w["p"].pid, 9)
        except OSError:
            pass
        w["p"].wait()

    def _err(self, w):
        with open(w["files"]["err"], "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400000))
            return f.read().decode(errors="replace")

    def _collect(self, w, part, complete):
        try:
            with open(w["files"]["out"], "r", errors="replace") as f:
                lines = f.read().split("\n")
        except OSError:
            lines = []
        done = False
        for l in lines:
            if not l.strip():
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "v":
                self.violation(part, d["key"], d["detail"], d["case"], d.get("input", ""))
            elif d["t"] == "s":
                done = True
                self.evaluations += d["evaluations"]
                for k, v in d["counts"].items():
                    self.add_count(k, v)
                if len(self.samples) < 3:
                    self.samples += d["samples"][:1]
        try:
            a = array.array("Q")
            with open(w["files"]["hashes"], "rb") as f:
                a.frombytes(f.read())
            self.distinct.update(a)
        except OSError:
            pass
        shutil.rmtree(w["scratch"], ignore_errors=True)
        if complete and not done:
            raise HarnessError("%s: worker ended without a summary" % part)

    def run_single(self, prog, mode, case, args=(), env=None, replay=True, cpu=None, timeout=600):
        """Run one case alone; returns (rc, out records, stderr)."""
        d = os.path.join(self.scratch, "single")
        os.makedirs(d, exist_ok=True)
        w = self._start(prog, mode, case, case + 1, 1, d, "x", args, environment(env, self.leaks), cpu=cpu, replay=replay)
        try:
            w["p"].wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self._kill(w)
        rc = w["p"].returncode
        recs = []
        try:
            for l in open(w["files"]["out"], errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        err = self._err(w)
        shutil.rmtree(w["scratch"], ignore_errors=True)
        return rc, recs, err

    def _bisect_leak(self, prog, mode, first, to, step, args, env, d):
        cases = list(range(first, to, step))
        for _ in range(40):
            if len(cases) <= 1:
                break
            half = cases[:len(cases) // 2]
            w = self._start(prog, mode, half[0], half[-1] + 1, step, d, "leak", args, environment(env))
            try:
                w["p"].wait(timeout=300)
            except subprocess.TimeoutExpired:
                self._kill(w)
                return None
            cases = half if w["p"].returncode == 76 else cases[len(cases) // 2:]
        return cases[0] if cases else None

    def run(self, name, variant, harness, mode, cases, args=(), env=None, workers=None, extra_sources=(), prog=None, max_crashes=12):
        """Run cases 0..cases-1, spread over the cores."""
        if prog is None:
            prog = build.build(variant, harness, extra_sources)
        n = min(workers or WORKERS, max(1, cases))
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        t0 = time.time()
        before = (self.evaluations, len(self.violations))
        active = [self._start(prog, mode, i, cases, n, d, "w%d" % i, args, environment(env, self.leaks)) for i in range(n)]
        crashes = 0
        serial = 0
        asked = None
        while active:
            time.sleep(0.05)
            if asked is None and self.time_up():
                # those that can, sum up what they have done
                asked = time.time()
                self.notes.append("%s: stopped early" % name)
                for w in active:
                    try:
                        os.kill(w["p"].pid, signal.SIGUSR1)
                    except OSError:
                        pass
            elif asked is not None and time.time() - asked > 20:
                for w in active:
                    self._kill(w)
                    self._collect(w, name, False)
                break
            for w in list(active):
                rc = w["p"].poll()
                if rc is None:
                    c = self._cur(w)
                    now = time.time()
                    if c != w["last"]:
                        w["last"], w["last_change"] = c, now
                    elif now - w["last_change"] > STALL and asked is None:
                        # no verdict from wall-clock time: run the case alone against a limit of CPU time
                        self._kill(w)
                        active.remove(w)
                        self._collect(w, name, False)
                        rc1, recs, err = self.run_single(prog, mode, c, args, env, replay=False, cpu=HANG_CPU, timeout=400)
                        if rc1 in (-24, -9) or (rc1 is not None and rc1 == 152):
                            self.violation(name, "hang", "case %d alone used more than %d s of CPU time" % (c, HANG_CPU), c, "", mode=mode, variant=variant, harness=harness)
                            crashes += 1
                        elif any(x.get("t") == "v" for x in recs):
                            for x in recs:
                                if x.get("t") == "v":
                                    self.violation(name, x["key"], x["detail"], x["case"], x.get("input", ""))
                            crashes += 1
                        else:
                            self.notes.append("%s: case %d stalled once but ended when run again" % (name, c))
                            c -= w["step"]
                        if crashes < max_crashes and c + w["step"] < cases and not self.time_up():
                            serial += 1
                            active.append(self._start(prog, mode, c + w["step"], cases, w["step"], d, "r%d" % serial, args, environment(env, self.leaks)))
                    continue
                active.remove(w)
                if rc == 0:
                    self._collect(w, name, True)
                    continue
                err = self._err(w)
                c = self._cur(w)
                if "LeakSanitizer has encountered a fatal error" in err or "LeakSanitizer does not work under ptrace" in err:
                    # not a finding: this sandbox does not let LeakSanitizer work
                    self.leaks = False
                    self.notes.append("LeakSanitizer could not run here")
                    self._collect(w, name, True)
                    continue
                if rc == 78:
                    # it has said what is wrong, and could not go on
                    self._collect(w, name, False)
                    crashes += 1
                    if crashes < max_crashes and c + w["step"] < cases and asked is None:
                        serial += 1
                        active.append(self._start(prog, mode, c + w["step"], cases, w["step"], d, "r%d" % serial, args, environment(env, self.leaks)))
                    continue
                if rc == 3:
                    raise HarnessError("%s: %s" % (name, err[-2000:]))
                self._collect(w, name, False)
                key, report = summary(err)
                if rc == 76 or (rc != 0 and "LeakSanitizer: detected memory leaks" in err):
                    case = self._bisect_leak(prog, mode, w["first"], cases, w["step"], args, env, d)
                    self.violation(name, "leak " + key, report, case, "", mode=mode, variant=variant, harness=harness)
                    continue
                if rc == -9:
                    # somebody else's kill, or memory ran out: only a second time is it the case's own doing
                    rc1, recs, err1 = self.run_single(prog, mode, c, args, env, replay=False, cpu=HANG_CPU)
                    if rc1 == 0:
                        self.notes.append("%s: a worker was killed at case %d but the case ended when run again" % (name, c))
                        serial += 1
                        active.append(self._start(prog, mode, c + w["step"], cases, w["step"], d, "r%d" % serial, args, environment(env, self.leaks)))
                        continue
                self.violation(name, "crash " + (key or "signal/exit %d" % rc), report, c, "", mode=mode, variant=variant, harness=harness)
                crashes += 1
                if crashes < max_crashes and c + w["step"] < cases and asked is None:
                    serial += 1
                    active.append(self._start(prog, mode, c + w["step"], cases, w["step"], d, "r%d" % serial, args, environment(env, self.leaks)))
        for v in self.violations[before[1]:]:
            v.setdefault("mode", mode)
            v.setdefault("variant", variant)
            v.setdefault("harness", harness)
            v.setdefault("args", list(args))
            v.setdefault("env", dict(env or {}))
        self.parts.append(dict(part=name, build=variant, mode=mode, cases=self.evaluations - before[0], wall_s=round(time.time() - t0, 1)))
        shutil.rmtree(d, ignore_errors=True)
        return prog

    def fuzz(self, name, harness, runs, max_len=4000):
        """Coverage guided: a libFuzzer process for each core, each with a corpus and a seed of its own."""
        prog = build.build("fuzz", harness)
        d = os.path.join(self.scratch, name)
        t0 = time.time()
        before = self.evaluations
        ws = []
        for i in range(WORKERS):
            w = os.path.join(d, "w%d" % i)
            for x in ("corpus", "found", "scratch"):
                os.makedirs(os.path.join(w, x))
            e = environment({"VERIF_SCRATCH": os.path.join(w, "scratch"), "VERIF_CORPUS": os.path.join(w, "corpus"),
                             "VERIF_FUZZ_SEED": str(self.seed * 1000 + i)}, self.leaks)
            log = open(os.path.join(w, "log"), "wb")
            p = subprocess.Popen([prog, "-runs=%d" % runs, "-seed=%d" % (self.seed * 1000 + i + 1), "-max_len=%d" % max_len, "-timeout=%d" % 200,
                                  "-rss_limit_mb=3300", "-print_final_stats=1", "-verbosity=1", "-reload=0", "-artifact_prefix=" + os.path.join(w, "found") + "/",
                                  os.path.join(w, "corpus")], stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=e, cwd=w, preexec_fn=_limits(None))
            log.close()
            ws.append((i, w, p))
        for i, w, p in ws:
            p.wait()
            text = open(os.path.join(w, "log"), "rb").read().decode(errors="replace")
            m = re.search(r"number_of_executed_units: (\d+)", text)
            n = int(m.group(1)) if m else len(re.findall(r"^#\d+", text, re.M))
            self.evaluations += n
            self.add_count("fuzz-executions", n)
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
            if cov:
                for k, v in zip(("worst-of fuzz edges", "worst-of fuzz features", "fuzz-corpus"), cov[-1]):
                    self.add_count(k.replace("worst-of", "worst"), int(v))
            for f in glob.glob(os.path.join(w, "corpus", "*")):
                self.distinct.add(hash(open(f, "rb").read()) & (2 ** 64 - 1))
            if p.returncode == 0:
                continue
            found = sorted(glob.glob(os.path.join(w, "found", "*")))
            if "LeakSanitizer has encountered a fatal error" in text:
                self.notes.append("LeakSanitizer could not run here")
                continue
            if not found:
                raise HarnessError("%s: the fuzzer ended with %d: %s" % (name, p.returncode, text[-2000:]))
            data = open(found[0], "rb").read()
            if os.path.basename(found[0]).startswith("slow-unit") and len(found) > 1:
                data = open(found[1], "rb").read()
            if os.path.basename(found[0]).startswith("timeout"):
                rc, err = self.fuzz_single(prog, data)
                if rc == 0:
                    self.notes.append("%s: an input stalled once but ended when run again" % name)
                    continue
            key, report = summary(text)
            self.violation(name, "crash " + (key or os.path.basename(found[0]).split("-")[0]), report, None, data[:2000].decode("latin-1"), mode="fuzz", variant="fuzz", harness=harness, data=data.hex())
        self.parts.append(dict(part=name, build="fuzz", mode="libFuzzer", cases=self.evaluations - before, wall_s=round(time.time() - t0, 1)))
        shutil.rmtree(d, ignore_errors=True)

    def fuzz_single(self, prog, data):
        path = os.path.join(self.scratch, "input")
        with open(path, "wb") as f:
            f.write(data)
        p = subprocess.run([prog, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=environment({"VERIF_SCRATCH": self.scratch}, self.leaks), cwd=self.scratch, preexec_fn=_limits(HANG_CPU))
        return p.returncode, p.stdout.decode(errors="replace")
