"""C12: pools and sets used by several threads, the library's code interleaved instruction by instruction (harness/mpc.c); histories must be
linearizable with respect to Mempool.tla (MempoolLin.tla)."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *

WRAPS = ["pthread_mutex_" + x for x in ("lock", "trylock", "unlock", "init", "destroy")]
BUILDS = {"gcc-O2": ("gcc", ["-O2"]), "clang-O1": ("clang", ["-O1"]), "gcc-O0": ("gcc", ["-O0"])}


def build(ctx, name):
    comp, fl = BUILDS[name]
    out = os.path.join(ctx.dir, "mpc-" + name)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-g", "-w", "-D_GNU_SOURCE", "-pthread", "-DHAVE_LIBNUMA=1", "-U_FORTIFY_SOURCE", "-fno-stack-protector"]
    objs = []
    for i, s in enumerate(repo_srcs()):
        o = "%s.%d.o" % (out, i)
        run([comp] + inc + fl + ["-fno-reorder-functions"] * (comp == "gcc") + ["-c", s, "-o", o], check=True, timeout=300)
        run(["objcopy", "--rename-section", ".text=libtext", o], check=True, timeout=60)
        objs.append(o)
    run(["gcc", "-O2"] + inc + [os.path.join(HARN, "mpc.c")] + objs + ["-o", out, "-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lnuma", "-ldl"], check=True, timeout=300)
    return out


def prep(evs):
    """give each call the result of its return"""
    out, open_ = [], {}
    for e in evs:
        e = dict(e)
        if e["e"] == "call":
            open_[e["t"]] = e
            e["res"] = {"ok": -1, "r": -1, "off": 0, "err": "", "c": []}
        elif e["e"] == "ret" and e["t"] in open_:
            open_.pop(e["t"])["res"] = {k: e[k] for k in ("ok", "r", "off", "err", "c")}
            e = {"e": "ret", "t": e["t"]}
        out.append(e)
    return out


POOLS = ["c/2048/2", "cr/512/1", "z/2048/2", "zr/512/1", "g/2048/2", "gr/512/1", "c/4096/3", "cr/256/1", "c/1024/0"]
SCRIPTS = [
    ";m:0;m:0", "m:0;m:0;m:0", "m:0,f:0;m:0,w:0,r:0;z:0,w:0,r:0", "m:0,m:0;F:0;F:1", "m:0,m:0;F:0,m:0;F:1,m:0", "m:0,m:0,f:0;m:0,m:0;F:1,m:0", "m:0,m:0,m:0;F:0,z:0;m:0,F:1",
    "m:0,m:0,f:0,f:1;m:0,f:0,m:0;m:0,f:0,m:0", ";m:0,w:0,f:0;i:0,r:0,f:0", "m:0,m:0,m:0,f:1;z:0,r:0;F:0,i:0,r:1", "m:0,m:0,m:0,m:0;m:0,F:0;F:1,m:0", "m:0,f:0;z:0,w:0,f:0,z:0;z:0,w:0,f:0,i:0", ";o;m:0,w:0,f:0", "m:0;o;o", "x:1;m:0;z:0", "x:0;F:0,m:0;F:1,m:0", "x:0;F:0;m:0,m:0", "x:2,f:0;m:0,m:0;z:0,F:1", "x:1;m:0,f:0;i:0,f:0",
]
SETS = [
    ("c/1024/1,c/2048/1", "a:0,a:1;M:1024;M:1000"), ("c/2048/1,c/4096/1", "a:0,a:1;M:2048,M:2000;M:1024,f:0"), ("c/2048/1,c/4096/1", "a:0,m:0,m:0;a:1;M:1000,M:1000"), ("c/2048/1,c/4096/2", "a:0,a:1,M:2048,M:2048;F:0;M:2048"),
    ("c/2048/1,c/2048/1", ";a:0;a:1"), ("c/2048/1,c/4096/1,c/1024/1", "a:0;a:1,M:1024;a:2,M:512"), ("cr/512/1,cr/1024/1", "a:0,a:1,x:1,M:512,M:512,M:1024;F:8,F:7;Z:500,I:400"), ("c/2048/1,c/4096/1", "a:1,m:1;F:0,a:0;M:2048,M:4096"),
    ("z/2048/1,z/4096/1", "a:0,a:1;Z:8,w:0,r:0;I:16,w:0,r:0"),
]
THREE = [("c/2048/2", "m:0,m:0;m:0,f:0;F:0,m:0;z:0"), ("cr/512/2", "m:0,m:0,m:0,f:2;F:0,m:0;F:1,z:0;m:0,w:0,f:0"), ("c/2048/1,c/4096/1", "a:0;a:1,M:512;M:2048;m:0,f:0")]


def cmds(name, rng):
    r = []
    big = THOROUGH
    base = [(p, s) for p in POOLS for s in SCRIPTS if "x" not in s or not p.endswith("/0")] + SETS + THREE
    if name != "gcc-O2" and not big:
        base = base[::9] if name == "gcc-O0" else base[::4]
    for i, (p, s) in enumerate(base):
        robust = "r/" in p
        full = big or (p, s) in SETS or (p, s) in THREE or (i * 7 % 3 == 0 and name == "gcc-O2")
        if full:
            st = 1 if big else 9 if "o" in s else 4 if robust else 1
            r.append((p, s, "SWEEP 0 0 1 %d" % st))
            r.append((p, s, "SWEEP 0 1 0 %d" % st))
            r.append((p, s, "PAIR 0 0 1 %d %d" % (600 if big else 25 if robust else 60, rng.randrange(1 << 30))))
        r.append((p, s, "RAND 0 %d %d" % (600 if big else 15 if robust else 40, rng.randrange(1 << 30))))
    return r


def execute(ctx, binary, cm, tag):
    n = min(NPROC, len(cm))
    chunks = [cm[i::n] for i in range(n)]

    def one(ch):
        inp = "".join("SCRIPT %s %s\n%s\n" % (p, s, c.replace(" 0", " %d" % i, 1)) for i, (p, s, c) in enumerate(ch))
        rc, out, err = run([binary], input=inp.encode(), timeout=5000 if THOROUGH else 840)
        lines = out.splitlines()
        res, seen = [], set()
        for ln in lines:
            if ln.count("\t") != 2:
                continue
            k, segs, evs = ln.split("\t")
            p, s, c = ch[int(k)]
            ctx.notes["schedules"] = ctx.notes.get("schedules", 0) + 1
            h = (p, s, evs)
            if h in seen:
                continue
            seen.add(h)
            res.append((dict(build=tag, pools=p, script=s, plan=segs), prep(json.loads(evs))))
        if rc and not any("crash" in json.dumps(e[-1]) or "hang" in json.dumps(e[-1]) for _, e in res):
            raise Internal("scheduler died (rc %d): %s" % (rc, err[-500:]))
        return res
    with ThreadPoolExecutor(n) as ex:
        return sum(ex.map(one, chunks), [])


def c12(ctx):
    mc(ctx, "MempoolConcMC", "MempoolConcMC" + ("Deep" if THOROUGH else ""), timeout=1800, heap=8000)
    for v in ("NoLockMalloc", "NoLockFree"):
        mc(ctx, "MempoolConcMC", "MempoolConcMC" + v, expect_violation="Conc")
    rng = random.Random(SEED)
    names = list(BUILDS)
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(names, ex.map(lambda n: build(ctx, n), names)))
    cases = []
    for nme in names:
        cases += execute(ctx, bins[nme], cmds(nme, rng), nme)
        ctx.log("%s: %d schedules so far" % (nme, ctx.notes["schedules"]))

    def rerun(d):
        return execute(ctx, bins[d["build"]], [(d["pools"], d["script"], "RUN 0 " + d["plan"])], d["build"])[0][1]
    validate(ctx, "MempoolLin", "MempoolLin", cases, rerun, title="schedule")


CHECKS = {"C12": c12}
