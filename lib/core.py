"""Shared machinery: building drivers from /repo, running TLC, validating traces, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NPROC = max(2, min(8, os.cpu_count() or 4))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Internal(Exception):
    """A failure of the machinery itself (exit 2), never a verdict."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


class Ctx:
    """One check run: scratch dir, counters, evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vrseq-%s-" % prop)
        Ctx.tmp = os.path.join(self.dir, "jtmp")      # TLC leaves directories in java.io.tmpdir
        os.mkdir(Ctx.tmp)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assume = [], {}, []
        self.mc = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, what, n=3):
        if len(self.samples) < n:
            self.samples.append(what)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.events,
               "samples": self.samples or ["(no trace was recorded)"],
               "model_runs": self.mc}
        cov.update(self.notes)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
                       "level": self.level, "coverage": cov, "assumptions": self.assume,
                       "wall_s": round(time.time() - self.t0, 2), "violations": violations}, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def save_replay(self, name, obj):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, name))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p


def run(cmd, timeout=None, env=None, cwd=None, input=None, check=False):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                           input=input)
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode(errors="replace"), (ex.stderr or b"").decode(errors="replace")
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    if check and p.returncode:
        raise Internal("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd), out[-3000:], err[:3000]))
    return p.returncode, out, err


# ---------------------------------------------------------------- builds
def repo_srcs():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".c"))


CFLAGS = ["-O2", "-U_FORTIFY_SOURCE", "-g", "-pthread", "-DHAVE_LIBNUMA=1", "-D_GNU_SOURCE", "-w"]


def cc(ctx, out, srcs, flags=(), cc="gcc", libs=("-lnuma", "-ldl", "-lm"), std=None):
    """Compile and link sources (each .c compiled separately, in parallel)."""
    out = os.path.join(ctx.dir, out)
    base = [cc] + CFLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN] + list(flags)
    objs = []

    def one(i_s):
        i, s = i_s
        o = "%s.%d.o" % (out, i)
        run(base + ["-c", s, "-o", o], check=True, timeout=300)
        return o
    comp = [f for f in flags if not f.startswith("-Wl,") and f != "-shared"]
    base = [cc] + CFLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN] + comp
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, enumerate(srcs)))
    run([cc, "-g", "-pthread", "-o", out] + objs + [f for f in flags if f.startswith("-Wl,") or f == "-shared" or f.startswith("-static")] + list(libs),
        check=True, timeout=300)
    return out


# ---------------------------------------------------------------- TLC
def _java(heap):
    return ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + Ctx.tmp, "-Xmx%dm" % heap, "-Xss16m", "-cp", CP]


def spec_copy(ctx, tag):
    """TLC writes next to the spec: work on a private copy of spec/."""
    d = os.path.join(ctx.dir, "tlc-" + tag)
    shutil.copytree(SPEC, d)
    return d


_gen = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def mc(ctx, module, cfg, workers=None, heap=4000, timeout=600, expect_violation=None, extra=()):
    """Exhaustive model checking of a design spec.  Any error here is a defect of the spec, not of librseq."""
    d = spec_copy(ctx, "mc-%s-%s" % (module, cfg))
    t = time.time()
    rc, out, err = run(_java(heap) + ["tlc2.TLC", "-workers", str(workers or NPROC), "-noGenerateSpecTE", "-metadir",
                                      os.path.join(d, "states"), "-config", cfg + ".cfg", *extra, module + ".tla"],
                       cwd=d, timeout=timeout)
    m = _gen.findall(out)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if expect_violation:
        if ("Invariant %s is violated" % expect_violation) not in out and ("%s is violated" % expect_violation) not in out:
            raise Internal("model %s/%s: expected violation of %s not found\n%s" % (module, cfg, expect_violation, out[-3000:]))
    elif rc != 0 or "No error has been found" not in out:
        raise Internal("model %s/%s failed (rc %d):\n%s\n%s" % (module, cfg, rc, out[-5000:], err[-1000:]))
    ctx.states += dist
    ctx.transitions += gen
    ctx.mc.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen,
                   "seconds": round(time.time() - t, 1),
                   **({"expected_violation_found": expect_violation} if expect_violation else {})})
    ctx.log("model %s/%s: %d distinct states, %d generated, %.1fs" % (module, cfg, dist, gen, time.time() - t))
    return out


def tlc_simulate(ctx, module, cfg, num, depth, seed, timeout=300, heap=2000, env=None):
    """Let TLC generate behaviours; the spec prints one JSON line per finished behaviour (prefix SCRIPT)."""
    d = spec_copy(ctx, "sim-%s-%s-%d" % (module, cfg, seed))
    rc, out, err = run(_java(heap) + ["tlc2.TLC", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed),
                                      "-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
                                      "-config", cfg + ".cfg", module + ".tla"], cwd=d, timeout=timeout, env=env)
    shutil.rmtree(d, ignore_errors=True)
    res = []
    for ln in out.splitlines():
        i = ln.find("SCRIPT ")
        if i >= 0:
            s = ln[i + 7:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"')
            res.append(json.loads(s))
    if not res:
        raise Internal("simulation %s/%s produced nothing:\n%s\n%s" % (module, cfg, out[-3000:], err[-1000:]))
    return res


def _validate_shard(ctx, module, cfg, tag, traces, timeout, heap, env, dfs):
    """traces: list of event lists.  Returns (ok, index_of_rejected_trace, event_index, info, states)"""
    d = spec_copy(ctx, "tr-%s-%s" % (module, tag))
    path = os.path.join(d, "trace.ndjson")
    where = []
    with open(path, "w") as f:
        for ti, t in enumerate(traces):
            for ei, ev in enumerate(t):
                f.write(json.dumps(ev, separators=(",", ":")) + "\n")
                where.append((ti, ei))
    e = {"TRACE_FILE": path}
    e.update(env or {})
    jv = _java(heap)
    if dfs:
        jv = jv[:1] + ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] + jv[1:]
    rc, out, err = run(jv + ["tlc2.TLC", "-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
                             "-config", cfg + ".cfg", module + ".tla"], cwd=d, timeout=timeout, env=e)
    m = _gen.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    mm = re.search(r"REACHED\D+(\d+)\D+(\d+)", out)
    if rc == 0 and "No error has been found" in out and mm and int(mm.group(1)) == len(where) + 1:
        return True, None, None, "", dist, gen
    if mm and int(mm.group(1)) <= len(where) and ("REJECTED" in out or "is violated" in out):
        l = int(mm.group(1))
        ti, ei = where[l - 1]
        reason = re.findall(r"REASON (.*)", out)
        return False, ti, ei, "; ".join(reason[-3:]), dist, gen
    if "The error occurred when TLC was evaluating" in out and "Computing initial states" in out:
        # the log has a shape the specification cannot even evaluate: the event after the last state reached is the culprit
        ll = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if ll and 1 <= int(ll[-1]) <= len(where):
            ti, ei = where[int(ll[-1]) - 1]
            return False, ti, ei, "not evaluable: " + " ".join(out[out.find("Error:"):][:600].split()), dist, gen
    raise Internal("trace validation %s/%s broke (rc %d):\n%s\n%s" % (module, cfg, rc, out[-5000:], err[-2000:]))


def validate(ctx, module, cfg, cases, rerun, shards=None, timeout=800, heap=3000, env=None, dfs=False, title="case"):
    """cases: list of (descriptor, events).  Deduplicates identical event logs, validates them all, and on a rejection
    re-executes the case with rerun(descriptor)->events to confirm, then raises Violation."""
    seen, uniq = {}, []
    for desc, evs in cases:
        ctx.events += len(evs)
        h = hashlib.sha1(json.dumps(evs, sort_keys=True).encode()).digest()
        if h not in seen:
            seen[h] = len(uniq)
            uniq.append((desc, evs))
    n = len(uniq)
    if n == 0:
        raise Internal("no traces recorded for " + module)
    shards = min(shards or NPROC, n)
    # balance by number of events
    buckets = [[] for _ in range(shards)]
    load = [0] * shards
    for i in sorted(range(n), key=lambda i: -len(uniq[i][1])):
        k = load.index(min(load))
        buckets[k].append(i)
        load[k] += len(uniq[i][1]) + 3
    for b in buckets:
        b.sort()
    t = time.time()
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda kb: _validate_shard(ctx, module, cfg, "%d" % kb[0], [uniq[i][1] for i in kb[1]], timeout, heap,
                                                     env, dfs), list(enumerate(buckets))))
    sdist = sum(r[4] for r in res)
    sgen = sum(r[5] for r in res)
    ctx.states += sdist
    ctx.transitions += sgen
    ctx.traces += len(cases)
    ctx.notes["distinct_traces"] = ctx.notes.get("distinct_traces", 0) + n
    ctx.log("%s: %d traces (%d distinct, %d events) validated, %.1fs" % (module, len(cases), n, sum(len(u[1]) for u in uniq), time.time() - t))
    ctx.sample({"spec": module, "case": uniq[0][0], "trace": uniq[0][1][:40]})
    if n > 1:
        ctx.sample({"spec": module, "case": uniq[-1][0], "trace": uniq[-1][1][:40]})
    for k, r in enumerate(res):
        if r[0]:
            continue
        desc, evs = uniq[buckets[k][r[1]]]
        confirm = None
        for _ in range(3):
            ev2 = rerun(desc)
            ok2, _, ei2, info2, _, _ = _validate_shard(ctx, module, cfg, "confirm", [ev2], timeout, heap, env, dfs)
            if not ok2:
                confirm = (ev2, ei2, info2)
                break
        if confirm is None:
            raise Internal("rejection of %s not reproduced: %s event %d %s" % (module, json.dumps(desc)[:500], r[2], r[3]))
        ev2, ei2, info2 = confirm
        rp = ctx.save_replay("%s" % module, {"spec": module, "config": cfg, "case": desc, "rejected_event_index": ei2,
                                             "rejected_event": ev2[ei2], "reason": info2, "trace": ev2})
        raise Violation("%s rejects %s %s at event %d: %s  %s" % (module, title, json.dumps(desc)[:300], ei2,
                                                                  json.dumps(ev2[ei2])[:300], info2), rp)


def findings(prop):
    """Known findings (never written at run time)."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
    except Violation as v:
        ctx.log("violation:", v)
        ctx.evidence(1)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        ctx.cleanup()
        return 1
    except Internal as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True)
        ctx.cleanup()
        return 2
    except Exception:       # our own machinery: no verdict
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s: exception" % prop, flush=True)
        ctx.cleanup()
        return 2
    except BaseException:
        ctx.cleanup()
        raise
    for fid, what in findings(prop):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, what), flush=True)
    ctx.evidence(0)
    ctx.log("held: %d traces, %d states" % (ctx.traces, ctx.states))
    ctx.cleanup()
    return 0
