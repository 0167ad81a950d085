"""C04: per-CPU structures built from the helpers, interleaved instruction by instruction (harness/pc.c); histories must be linearizable
with respect to Percpu.tla."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *

BUILDS = {
    "gcc-O2": ("gcc", ["-O2"]), "clang-O2": ("clang", ["-O2"]), "gcc-O0": ("gcc", ["-O0"]), "g++-O2": ("g++", ["-O2"]), "gcc-O2-twice": ("gcc", ["-O2", "-DTWICE"]),
    "clang-Os": ("clang", ["-Os"]), "gcc-O3-pic": ("gcc", ["-O3", "-fPIC"]),
}


def build(ctx, name):
    comp, fl = BUILDS[name]
    out = os.path.join(ctx.dir, "pc-" + name)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-g", "-w", "-D_GNU_SOURCE", "-pthread"]
    lang = ["-x", "c++"] if "++" in comp else []
    run([comp] + inc + fl + ["-mgeneral-regs-only"] + lang + ["-c", os.path.join(HARN, "pcw.c"), "-o", out + ".w.o"], check=True, timeout=300)
    o = [out + ".w.o"]
    for i, s in enumerate([os.path.join(HARN, "pc.c")] + repo_srcs()):
        run(["gcc", "-O2", "-DHAVE_LIBNUMA=1"] + inc + ["-c", s, "-o", "%s.%d.o" % (out, i)], check=True, timeout=300)
        o.append("%s.%d.o" % (out, i))
    run(["g++" if "++" in comp else "gcc", "-g", "-pthread", "-o", out] + o + ["-lnuma", "-ldl"], check=True, timeout=300)
    return out


def prep(evs):
    """give each call the result of its return"""
    res = {(e["t"], e["i"]): e for e in evs if e["e"] == "ret"}
    out = []
    for e in evs:
        if e["e"] == "call":
            r = res.get((e["t"], e["i"]))
            e = dict(e, cpu=r["cpu"] if r else -1, val=r["val"] if r else 0)
        out.append({k: v for k, v in e.items() if k not in ("i",)})
    return out


# setup;thread;thread...
SCRIPTS = [
    ";inc:1;inc:1", ";inc:1,inc:1;inc:10,inc:10", ";cinc:1;cinc:10,cinc:10", ";cinc:1,inc:100;inc:10,cinc:1000", ";pinc:1,pinc:1;pinc:10,pinc:10", ";inc:-1;pinc:5,cinc:3",
    ";lock,crit,unlock;lock,crit,unlock", ";lock,crit,unlock,lock,crit,unlock;lock,crit,unlock",
    "lpush:1;lpop;lpop", "lpush:1,lpush:2;lpop;lpop,lpop,lback:0", "lpush:1,lpush:2,lpush:3;lpop;lpop,lpop,lback:0", "lpush:1;lpush:2;lpush:3,lpop", "lpush:1;lpush:2,lpop;lpop,lback:0",
    ";lpush:1,lpop;lpush:2,lpop", "lpush:1;lpop,lpop;lpush:5",
    "bpush:1;bpop;bpop", "bpush:1,bpush:2;bpop;bpop,bpush:3", "bpush:1,bpush:2;bpushr:7;bpop,bpush:8", ";bpush:1,bpop;bpushr:2,bpop", "bpush:1,bpush:2;bpush:3;bpush:4", "bpush:1;bpop;bpop,bpush:2",
    "bpush:1;bpop;bpop,bpushr:1", "bpush:1,bpush:2,bpush:3;bpop,bpush:5;bpushr:6,bpop",
    "mpush:1;mpop;mpop", "mpush:1,mpush:2;mpop;mpop,mpush:3", "mpush:1;mpush:2;mpushr:3", ";mpush:1,mpop;mpushr:2", "mpush:1;mpop;mpop,mpushr:9", "mpush:1,mpush:2;mpush:4;mpop,mpush:5",
]
THREE = [";inc:1,cinc:1;cinc:10,pinc:10;inc:100", ";lock,crit,unlock;lock,crit,unlock;lock,crit,unlock", "lpush:1,lpush:2;lpop,lpush:3;lpop,lpush:4;lpush:5,lpop", "bpush:1,bpush:2;bpop,bpush:3;bpushr:4,bpop;bpop",
         "mpush:1,mpush:2;mpop;mpushr:4,mpop;mpush:5", "lpush:1,lpush:2,lpush:3;lpop,lpop,lback:0;lpop,lback:0,lpop;lpush:8,lpop,lpop,lback:0,lback:1"]


def cmds(name, rng):
    r = []
    full = THOROUGH or name == "gcc-O2"
    big = THOROUGH
    for i, s in enumerate(SCRIPTS + THREE):
        mems = s.count("mp")
        for mode in (0, 1) if full or i % 2 == 0 else (i // 2 % 2,):
            c = []
            for a, b in ((0, 1), (1, 0)):
                c.append("SWEEP 0 %d %d 0 0" % (a, b))
                c.append("SWEEP 0 %d %d 0 1" % (a, b))
            if full:
                c.append("SWEEP 0 0 1 1 1")
            lock = "lock" in s
            if full and not lock:
                c.append("PAIR 0 0 1 %d %d" % ((3 if big else 40) * (1 + 2 * mems), rng.randrange(1000)))
            c.append("RAND 0 %d %d" % ((3000 if big else 120 if full else 30), rng.randrange(1 << 30)))
            for x in c:
                r.append((mode, s, x))
            # the same numbers represented otherwise
            for enc in (1, 2, 3):
                if THOROUGH:
                    r += [(mode + 10 * enc, s, x) for x in c]
                elif name == "gcc-O2" or (i + enc) % 3 == 0:
                    r += [(mode + 10 * enc, s, x) for x in c[:1] + c[2:3] + ["RAND 0 20 %d" % rng.randrange(1 << 30)]]
    return r


def execute(ctx, binary, cm, tag):
    n = min(NPROC, len(cm))
    chunks = [cm[i::n] for i in range(n)]

    def one(ch):
        inp = "".join("SCRIPT %d %s\n%s\n" % (m, s, c.replace(" 0", " %d" % i, 1)) for i, (m, s, c) in enumerate(ch))
        rc, out, err = run([binary], input=inp.encode(), timeout=840, env={"GLIBC_TUNABLES": ""})
        if rc:
            raise Internal("scheduler died (rc %d): %s" % (rc, err[-500:]))
        res, seen = [], set()
        for ln in out.splitlines():
            k, segs, evs = ln.split("\t")
            m, s, c = ch[int(k)]
            h = (m, s, evs)
            ctx.notes["schedules"] = ctx.notes.get("schedules", 0) + 1
            if h in seen:
                continue
            seen.add(h)
            res.append((dict(build=tag, mode=m, script=s, plan=segs), prep(json.loads(evs))))
        return res
    with ThreadPoolExecutor(n) as ex:
        return sum(ex.map(one, chunks), [])


def c04(ctx):
    mc(ctx, "PercpuMC", "PercpuMC" + ("Deep" if THOROUGH else ""), timeout=1500, heap=8000)
    for v in ("NoAbort", "NoCpuCheck"):
        mc(ctx, "PercpuMC", "PercpuMC" + v, expect_violation="Refines")
    rng = random.Random(SEED)
    names = list(BUILDS) if THOROUGH else ["gcc-O2", "clang-O2", "gcc-O0", "g++-O2"]
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(names, ex.map(lambda n: build(ctx, n), names)))
    cases = []
    for nme in names:
        cases += execute(ctx, bins[nme], cmds(nme, rng), nme)
        ctx.log("%s: %d schedules so far" % (nme, ctx.notes["schedules"]))

    def rerun(d):
        return execute(ctx, bins[d["build"]], [(d["mode"], d["script"], "RUN 0 " + d["plan"])], d["build"])[0][1]
    validate(ctx, "PercpuTrace", "PercpuTrace", cases, rerun, title="schedule")


CHECKS = {"C04": c04}
