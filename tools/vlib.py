"""Shared machinery of the checks: build drivers from /repo, run them, validate traces with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SDK = REPO + "/sdk"
SPEC = VERIF + "/spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """the check itself failed (not a verdict)"""


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# --------------------------------------------------------------------------------------------- build
def _tree_hash():
    h = hashlib.sha256()
    roots = [SDK + "/include", SDK + "/src", VERIF + "/rt", VERIF + "/drivers"]
    for r in roots:
        for d, _, fs in sorted(os.walk(r)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


CTRL_FLAGS = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-Wno-tsan", "-fno-omit-frame-pointer"]
PLAIN_FLAGS = ["-std=c++20", "-O1", "-g1"]
SEQ_FLAGS = PLAIN_FLAGS + ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def build(name, repo_sources, controlled=True, extra_flags=(), extra_inc=()):
    """compile drivers/<name>.cpp with the given sources of /repo (relative to sdk/src); returns the binary"""
    flags = (SEQ_FLAGS if controlled == "seq" else CTRL_FLAGS if controlled else PLAIN_FLAGS) + list(extra_flags)
    h = _tree_hash()
    h.update(repr((name, repo_sources, flags)).encode())
    key = h.hexdigest()[:20]
    out = f"{VERIF}/build/{name}-{key}"
    exe = out + "/" + name
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="b-", dir=_mk(VERIF + "/build"))
    inc = ["-I" + SDK + "/include", "-I" + VERIF + "/rt", "-I" + SDK + "/src"] + ["-I" + i for i in extra_inc]
    jobs = []
    srcs = [(VERIF + "/drivers/" + name + ".cpp", flags)]
    srcs += [(SDK + "/src/" + s, flags) for s in repo_sources]
    if controlled is True:
        srcs.append((VERIF + "/rt/vsched.cpp", ["-std=c++20", "-O2", "-g1", "-fexceptions", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]))
    objs = []

    def comp(i_s):
        i, (s, fl) = i_s
        o = f"{tmp}/{i}.o"
        r = sh(["g++", *fl, *inc, "-c", s, "-o", o])
        if r.returncode:
            raise CheckError(f"compilation of {s} failed:\n{r.stderr[-3000:]}")
        return o

    san = [f for f in flags if f.startswith("-fsanitize") and "thread" not in f]
    link = ["g++", "-rdynamic", *san]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(comp, enumerate(srcs)))
    r = sh(link + [*objs, "-o", f"{tmp}/{name}", "-lpthread", "-ldl"])
    if r.returncode:
        # the sources may have been split or moved: link everything the library consists of
        have = {os.path.realpath(s) for s, _ in srcs}
        rest = [os.path.join(d, f) for d, _, fs in sorted(os.walk(SDK + "/src")) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx"))]
        rest = [p for p in rest if os.path.realpath(p) not in have]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs += list(ex.map(comp, [(100 + i, (p, flags)) for i, p in enumerate(rest)]))
        r = sh(link + [*objs, "-o", f"{tmp}/{name}", "-lpthread", "-ldl"])
    if r.returncode:
        raise CheckError("link failed:\n" + r.stderr[-3000:])
    # keep only the latest few builds of a driver
    for d in sorted((p for p in os.listdir(VERIF + "/build") if p.startswith(name + "-")), key=lambda p: os.path.getmtime(VERIF + "/build/" + p))[:-4]:
        shutil.rmtree(VERIF + "/build/" + d, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(exe):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------------------------------- running
def workdir(prop):
    return tempfile.mkdtemp(prefix=f"{prop}-", dir=_mk(VERIF + "/out"))


def run_driver(exe, jobs, wd, timeout=800):
    """jobs: list of argument lists (without --out).  Runs them in parallel, returns (traces, stats)"""
    stats = {"execs": 0, "distinct": 0, "steps": 0, "overflow": 0, "exhausted": 0}
    traces, seen = [], set()

    def one(i_args):
        i, args = i_args
        out = f"{wd}/d{os.path.basename(exe)}-{i}.ndjson"
        r = sh([exe, *map(str, args), "--out", out], timeout=timeout)
        if r.returncode:
            raise CheckError(f"driver {exe} {args} failed ({r.returncode}):\n{r.stderr[-2000:]}")
        st = {}
        for ln in r.stderr.splitlines():
            if ln.startswith("{"):
                st = json.loads(ln)
        return args, out, st

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for args, out, st in ex.map(one, list(enumerate(jobs))):
            for k in stats:
                stats[k] += st.get(k, 0)
            with open(out, errors="replace") as f:
                for ln in f:
                    try:
                        t = json.loads(ln)
                    except json.JSONDecodeError as e:
                        raise CheckError(f"bad trace line from {exe} {args}: {e}: {ln[:300]}")
                    key = hashlib.md5(json.dumps([t["p"], t["ev"]]).encode()).digest()
                    if key in seen:
                        continue
                    seen.add(key)
                    t["args"] = args
                    t["exe"] = os.path.basename(exe)
                    traces.append(t)
            os.unlink(out)
    stats["distinct"] = len(traces)
    return traces, stats


# ----------------------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
        self.generated = int(gen[-1][0]) if gen else 0
        self.distinct = int(gen[-1][1]) if gen else 0
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    def violated(self):
        return re.search(r"(Invariant \S+ is violated|Temporal propert\w+ \S* ?w\w+ violated|Temporal properties were violated|Deadlock reached|Action property .*?is violated|Postcondition \S+ is violated)", self.out)


def tlc(module, cfg_text, wd, workers=2, env=None, heap="3g", timeout=800, extra=(), depth_first=False):
    """run TLC on spec/<module>.tla with the given configuration"""
    cfg = tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=wd, delete=False)
    cfg.write(cfg_text)
    cfg.close()
    meta = tempfile.mkdtemp(prefix="meta", dir=wd)
    e = dict(os.environ)
    e.update(env or {})
    jopts = ["-Djava.io.tmpdir=" + wd, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4"]
    if depth_first:
        jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java", *jopts, "-cp", JARS, "tlc2.TLC", "-config", cfg.name, "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-nowarning", *extra, f"{SPEC}/{module}.tla"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired as ex:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        os.unlink(cfg.name)
    return TlcResult(r.stdout, r.returncode)


def write_traces(traces, path):
    with open(path, "w") as f:
        json.dump([{"p": t["p"], "ev": t["ev"]} for t in traces], f)


TRACE_CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nINVARIANT Accept1\n"


def validate(module, traces, wd, env=None, batch=400, cfg=TRACE_CFG, timeout=800, constants=""):
    """TLC-validate traces; returns (list of rejected traces, states, transitions)"""
    env = dict(env or {})
    # longer traces first so that batches balance
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
    nb = max(1, min(NCPU, (len(traces) + 49) // 50), (len(traces) + batch - 1) // batch)
    batches = [order[i::nb] for i in range(nb)]
    rejected, states, trans = [], 0, 0

    def one(bi):
        b, idx = bi
        if not idx:
            return [], 0, 0
        p = f"{wd}/tr-{module}-{b}.json"
        write_traces([traces[i] for i in idx], p)
        r = tlc(module, cfg + constants, wd, workers=1 if nb >= NCPU else 2, env={**env, "TRACES": p}, timeout=timeout)
        os.unlink(p)
        if r.violated():
            return ("INV", r, idx), 0, 0
        if not r.ok:
            raise CheckError(f"TLC failed on {module}:\n{r.out[-3000:]}")
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        return [idx[k] for k in range(len(idx)) if k + 1 not in acc], r.distinct, r.generated

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rej, s, t in ex.map(one, list(enumerate(batches))):
            if isinstance(rej, tuple):
                # an invariant of the specification failed on some trace of the batch: find which one
                _, r, idx = rej
                m = re.findall(r"\btid = (\d+)", r.out)
                if not m:
                    raise CheckError(f"invariant violated in {module}:\n{r.out[-3000:]}")
                rejected.append(idx[int(m[-1]) - 1])
                continue
            rejected += rej
            states += s
            trans += t
    return [traces[i] for i in sorted(set(rejected))], states, trans


def diagnose(module, trace, wd, env=None, cfg=TRACE_CFG, constants=""):
    """re-validate one trace alone; returns (accepted, index of the first event nothing explains, tlc output tail)"""
    p = f"{wd}/diag-{module}.json"
    write_traces([trace], p)
    r = tlc(module, cfg + constants + "INVARIANT Diag\n", wd, workers=1, env={**(env or {}), "TRACES": p})
    at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', r.out)]
    accepted = '<<"ACC", 1>>' in r.out
    if not r.ok and not r.violated():
        raise CheckError(f"TLC failed while diagnosing with {module}:\n{r.out[-3000:]}")
    if r.violated():
        return False, max(at, default=1) - 1, r.violated().group(0)
    return accepted, max(at, default=1) - 1, ""


# ----------------------------------------------------------------------------------------- reporting
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.wd = workdir(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.findings = load_known(prop)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    @staticmethod
    def _short(x, n=60):
        """samples are to be read: long lists and texts are cut"""
        if isinstance(x, dict):
            return {k: Check._short(v, n) for k, v in x.items()}
        if isinstance(x, list):
            return [Check._short(v, n) for v in x[:n]] + (["..."] if len(x) > n else [])
        return x[:2000] if isinstance(x, str) else x

    def sample(self, x):
        x = self._short(x)
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, what, replay):
        """what: short description; replay: dict written to the replay file"""
        kf = match_known(self.findings, what, replay)
        if kf:
            if kf["id"] not in [k["id"] for k in self.known]:
                self.known.append(kf)
            return
        d = _mk(f"{VERIF}/out/replays")
        h = hashlib.md5(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
        path = f"{d}/{self.prop}-{h}.json"
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **replay}, f, indent=1)
        self.violations.append((what, path))

    # generic trace conformance step -------------------------------------------------------------
    def conform(self, module, exe, jobs, env=None, blame=None, label="", max_report=3, timeout=800, describe=None, constants="", traces=None, prep=None):
        own = prep

        def prep(ts):
            if self.prop != "C32":  # which objects exist is judged by C32 alone
                for t in ts:
                    t["ev"] = [e for e in t["ev"] if not isinstance(e, dict) or e.get("e") != "live"]
            if own:
                own(ts)

        self.prep = prep
        if traces is None:
            traces, st = run_driver(exe, jobs, self.wd)
            self.add(executions=st["execs"], scheduling_steps=st["steps"], dfs_exhausted_programs=st["exhausted"])
            if st["overflow"]:
                self.add(overflowed_traces=st["overflow"])
            if st["overflow"] * 2 > max(20, st["execs"]):
                # an execution may go on for ever under an unfair schedule, but not under most of them
                self.violation(f"{st['overflow']} of {st['execs']} executions do not end", {"spec": module, "driver": os.path.basename(exe), "args": jobs, "endless": True})
                log(f"  {module}: {st['overflow']} of {st['execs']} executions of finite programs do not end")
                if not traces:
                    return
        if not traces:
            raise CheckError("no traces recorded")
        prep(traces)
        t1 = time.time()
        rej, s, t = validate(module, traces, self.wd, env, timeout=timeout, constants=constants)
        self.add(states=s, transitions=t, traces_validated_against_impl=len(traces), events_validated=sum(len(x["ev"]) for x in traces))
        self.sample({"spec": module, "trace": short_trace(traces[len(traces) // 2])})
        log(f"[{self.prop}] {label or module}: {len(traces)} traces, {sum(len(x['ev']) for x in traces)} events, {len(rej)} rejected, {s} states, TLC {time.time()-t1:.1f}s, total {self.elapsed():.1f}s")
        n = 0
        ignored = 0
        for tr in sorted(rej, key=lambda x: len(x["ev"])):
            if n >= max_report or ignored > 40:
                break
            acc, at, why = diagnose(module, tr, self.wd, env, constants=constants)
            if acc:
                raise CheckError("a rejected trace was accepted when validated alone")
            ev = tr["ev"][at] if at < len(tr["ev"]) else {}
            if blame and not blame(ev, tr, at):
                ignored += 1
                continue
            # a rejection counts only if re-executing the same program and schedule is rejected again
            if exe and not self.reexec(exe, tr, module, env, constants):
                log(f"[{self.prop}] note: rejection not reproduced on re-execution, not reported: {ev}")
                self.add(unreproduced=1)
                continue
            what = (describe(ev, tr, at) if describe else f"{module}: no behaviour of the specification explains event {at+1} {json.dumps(ev)} {why}")
            self.violation(what, {"spec": module, "driver": tr.get("exe"), "args": tr.get("args"), "scen": tr.get("scen"), "sched": tr.get("sched"), "strat": tr.get("strat"),
                                  "params": tr["p"], "rejected_event_index": at + 1, "rejected_event": ev, "trace": tr["ev"]})
            n += 1
        if ignored:
            self.add(rejections_of_other_properties=ignored)
        return rej

    def reexec(self, exe, tr, module, env, constants):
        if tr.get("strat") in ("dfs", "real", "seq") or tr.get("scen") is None:
            return True  # validated twice; the schedule is a recorded choice list
        sc = tr["args"][tr["args"].index("--scenario") + 1]
        r = sh([exe, "--scenario", sc, "--mode", tr["strat"], "--one", str(tr["scen"]), str(tr["sched"]), *(["--race"] if "--race" in tr["args"] else []), "--out", self.wd + "/one.ndjson"])
        if r.returncode:
            raise CheckError("re-execution failed")
        with open(self.wd + "/one.ndjson") as f:
            t2 = json.loads(f.readline())
        if self.prep:
            self.prep([t2])
        if t2["ev"] == tr["ev"]:
            return True
        acc, _, _ = diagnose(module, t2, self.wd, env, constants=constants)
        return not acc

    def design(self, module, cfg, label, workers=4, timeout=600, expect_violation=None):
        """exhaustive TLC run on a design model; expect_violation: name of a property this (mutated) model must violate"""
        t1 = time.time()
        r = tlc(module, cfg, self.wd, workers=workers, timeout=timeout)
        v = r.violated()
        if expect_violation:
            if not v:
                raise CheckError(f"sensitivity run {label} of {module} found no violation:\n{r.out[-1500:]}")
            self.add(sensitivity_models_rejected=1)
            log(f"[{self.prop}] design {label}: rejected as expected ({v.group(0)}), {time.time()-t1:.1f}s")
            return r
        if v or not r.ok:
            raise CheckError(f"design model {module} ({label}) does not satisfy its properties:\n{r.out[-4000:]}")
        self.add(states=r.distinct, transitions=r.generated, design_states=r.distinct)
        log(f"[{self.prop}] design {label}: {r.distinct} states, {r.generated} transitions, depth {r.depth}, {time.time()-t1:.1f}s")
        return r

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        _mk(VERIF + "/evidence")
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.wd, ignore_errors=True)
        for k in self.known:
            log(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            for what, path in self.violations:
                log(f"  {what}")
                log(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        log(f"[{self.prop}] OK {self.elapsed():.1f}s")
        sys.exit(0)


def short_trace(t, n=14):
    return {"p": t["p"], "strat": t.get("strat"), "events": len(t["ev"]), "head": t["ev"][:n]}


# ------------------------------------------------------------------------------------ known findings
def load_known(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(findings, what, replay):
    for k in findings:
        m = k.get("match")
        if m and all(str(replay.get(a)) == str(b) for a, b in m.items()):
            return k
    return None
