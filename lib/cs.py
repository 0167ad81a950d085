"""C01, C02, C03, C05: per-CPU helpers stepped instruction by instruction under a virtual kernel (harness/cs.c),
logs validated against RseqCs.tla."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *
import xarch

A = 0x20000000
V, V2, LOAD, PTR, TGT, N1, N2 = A + 0x1100, A + 0x1140, A + 0x1180, A + 0x11c0, A + 0x1200, A + 0x1240, A + 0x1280
DST, SRC = A + 0x1400, A + 0x1805
M64 = (1 << 64) - 1
RSRC = lambda: [s for s in repo_srcs()]

BUILDS = {
    "gcc-O2": dict(cc="gcc", flags=["-O2"]),
    "gcc-O0": dict(cc="gcc", flags=["-O0"]),
    "clang-O2": dict(cc="clang", flags=["-O2"]),
    "g++-O2": dict(cc="g++", flags=["-O2"]),
    "gcc-O2-twice": dict(cc="gcc", flags=["-O2", "-DTWICE"]),
    "gcc-O3-pic": dict(cc="gcc", flags=["-O3", "-fPIC", "-pie"]),
    "clang++-O1": dict(cc="clang++", flags=["-O1"]),
    "clang-Os-twice": dict(cc="clang", flags=["-Os", "-DTWICE"]),
    "gcc-O1-nopie": dict(cc="gcc", flags=["-O1", "-no-pie"]),
}
QUICK_BUILDS = ["gcc-O2", "gcc-O0", "clang-O2", "g++-O2", "gcc-O2-twice"]


def build(ctx, name):
    b = BUILDS[name]
    out = os.path.join(ctx.dir, "cs-" + name)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN]
    o = []
    lang = ["-x", "c++"] if "++" in b["cc"] else []
    jobs = [([b["cc"], "-g", "-w", "-D_GNU_SOURCE", "-pthread"] + inc + b["flags"] + lang + ["-c", os.path.join(HARN, "csw.c"), "-o", out + ".w.o"]),
            (["gcc", "-O1", "-g", "-w", "-D_GNU_SOURCE", "-pthread"] + inc + ["-c", os.path.join(HARN, "cs.c"), "-o", out + ".d.o"])]
    o = [out + ".w.o", out + ".d.o"]
    for i, s in enumerate(repo_srcs()):
        jobs.append(["gcc", "-O2", "-g", "-w", "-D_GNU_SOURCE", "-DHAVE_LIBNUMA=1", "-pthread"] + inc + ["-c", s, "-o", "%s.%d.o" % (out, i)])
        o.append("%s.%d.o" % (out, i))
    for j in jobs:
        run(j, check=True, timeout=300)
    link = [f for f in b["flags"] if f in ("-pie", "-no-pie")]
    run(["g++" if "++" in b["cc"] else "gcc", "-g", "-pthread", "-o", out] + link + o + ["-lnuma", "-ldl"], check=True, timeout=300)
    return out


# ------------------------------------------------------------------ cases
def case(wrap, mode, cpu, a, mem, mo=0, reg=1, cpu_id=3, cid=1, stale=0, dst=0, src=0, ln=0, variants=()):
    a = [x & M64 for x in list(a) + [0] * 6][:6]
    return dict(wrap=wrap, mo=mo, mode=mode, cpu=cpu, reg=reg, cpu_id=cpu_id, cid=cid, stale=stale, a=a, dst=dst, src=src, len=ln,
                mem=sorted((k, v & M64) for k, v in mem.items()), variants=list(variants))


def line(c):
    v = " ".join("%d:%d%s" % (x[0], x[1], "".join(":%#x=%#x" % (p, q & M64) for p, q in x[2])) for x in c["variants"])
    return "CASE %s %d %d %d %d %d %d %d %s %#x %#x %d %s V %s" % (
        c["wrap"], c["mo"], c["mode"], c["cpu"], c["reg"], c["cpu_id"], c["cid"], c["stale"], " ".join("%#x" % x for x in c["a"]),
        c["dst"], c["src"], c["len"], " ".join("%#x=%#x" % kv for kv in c["mem"]), v)


def opcase(op, match=True, x=5, y=9, z=0x1122334455667788, off=8, ln=5, seed=0):
    """operands and memory of one helper: returns (a, mem, extra, value making the comparison succeed, value making it fail)"""
    if op == "cbne":
        return [V, x, z], {V: x if match else x + 1}, {}, x, x + 1
    if op == "cbeq":
        # v points to a node; expectnot must differ
        return [V, x, off, LOAD], {V: N1 if match else x, N1 + off if (N1 + off) & 7 == 0 else N1: z, N2 + off: y, LOAD: 0x77}, {}, N2, x
    if op == "add":
        return [V, z], {V: y}, {}, y + 1, y + 2
    if op == "llla":
        return [PTR, off, z], {PTR: N1, N1 + off: TGT, TGT: y, N2 + off: V2, V2: 3}, {}, N2, N1
    if op == "cbne2":
        return [V, x, V2, y, z], {V: x if match else x + 1, V2: y}, {}, x, x + 1
    if op == "ss":
        return [V, x, V2, y, z], {V: x if match else x + 1, V2: 0x55}, {}, x, x + 1
    if op == "mcs":
        return [V, x, DST, SRC, ln, z], {V: x if match else x + 1}, dict(dst=DST, src=SRC, ln=ln), x, x + 1


OPS = ["cbne", "cbeq", "add", "llla", "cbne2", "ss", "mcs"]
WR = {op: ["r0_0", "r0_12", "r1_0", "r1_12", "rt_0"] + (["l0_0", "l1_12"] if op in ("ss", "mcs") else []) for op in OPS}
for op in OPS:
    WR[op].insert(1, "r0_5")
    if op in ("ss", "mcs"):
        WR[op] += ["l0_12", "l1_0"]


def wmode(w):
    return 1 if w[1] == "1" else 0


def variants(op, mode, mv, nv, cpu_ok=True):
    """what may happen while the thread is off the CPU (cpu 3 / cid 1 is the place the call asks for)"""
    t = PTR if op == "llla" else V
    vs = [(3, 1, []), (3, 1, [(t, mv)]), (3, 1, [(t, nv)]), (4, 2, []), (4, 2, [(t, nv)]), (3, 1, [(V2, 9)] if op in ("cbne2", "ss") else [])]
    if op == "cbne2":
        vs.append((3, 1, [(V2, 0x1234)]))
    return vs


def sweep_cases(wraps=None, lens=(0, 1, 5), stales=(0, 1, 2)):
    """every wrapper, comparison succeeding or failing, thread on the right or the wrong CPU"""
    r = []
    for op in OPS:
        for w in WR[op]:
            if wraps and w not in wraps:
                continue
            modes = [0, 1] if w[:2] == "rt" else [wmode(w)]
            for mode in modes:
                for match in (True, False) if op not in ("add", "llla") else (True,):
                    for place in ("right", "wrong"):
                        for ln in (lens if op == "mcs" and match and place == "right" else lens[:1] if op == "mcs" else (0,)):
                            a, mem, ex, mv, nv = opcase(op, match, ln=ln)
                            req = 3 if mode == 0 else 1
                            cpu_id, cid = (3, 1) if place == "right" else ((1, 3) if w.endswith("12") else (4, 2))
                            mos = [0, 3] if (w[:2] == "rt" and op in ("ss", "mcs")) else [3 if w[0] == "l" else 0]
                            for mo in mos:
                                st = stales[(len(r)) % len(stales)]
                                r.append(case("%s_%s" % (op, w), mode, req, a, mem, mo=mo, cpu_id=cpu_id, cid=cid, stale=st,
                                              variants=variants(op, mode, mv, nv), **ex))
    return r


BITS = [1 << i for i in range(64)]
VALS = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 32) + 1, 0x7fffffffffffffff, 1 << 63,
        M64, M64 - 1, 0x123456789abcdef0]


def operand_cases(rng, n, wr=("r0_0", "r0_12", "r1_0", "rt_0")):
    """operand values: executed without stepping"""
    r = []

    def add(op, w, a, mem, mo=0, **ex):
        mode = wmode(w) if w[:2] != "rt" else rng.randrange(2)
        r.append(case("%s_%s" % (op, w), mode, 3 if mode == 0 else 1, a, mem, mo=3 if w[0] == "l" else mo, **ex))
    for w in wr:
        ops = OPS
        for b in BITS:      # comparisons must look at every bit
            x = rng.choice(VALS)
            add("cbne", w, [V, x, rng.getrandbits(64)], {V: x ^ b})
            add("cbne2", w, [V, x, V2, 7, rng.getrandbits(64)], {V: x ^ b, V2: 7})
            add("cbne2", w, [V, 7, V2, x, rng.getrandbits(64)], {V: 7, V2: x ^ b})
            add("ss", w, [V, x, V2, rng.getrandbits(64), rng.getrandbits(64)], {V: x ^ b, V2: 1})
            add("mcs", w, [V, x, DST, SRC, 3, rng.getrandbits(64)], {V: x ^ b}, dst=DST, src=SRC, ln=3)
            if b >= 8:      # v must stay a valid pointer: expectnot differs in one bit
                add("cbeq", w, [V, N1 ^ b, 8, LOAD], {V: N1, N1 + 8: rng.getrandbits(64), LOAD: 1})
        for x in VALS:
            y = rng.choice(VALS)
            add("cbne", w, [V, x, y], {V: x})
            add("cbne2", w, [V, x, V2, y, rng.choice(VALS)], {V: x, V2: y})
            add("ss", w, [V, x, V2, y, rng.choice(VALS)], {V: x, V2: 0x55})
            add("mcs", w, [V, x, DST, SRC, 9, y], {V: x}, dst=DST, src=SRC, ln=9)
            for z in VALS:
                add("add", w, [V, x], {V: z})
            add("llla", w, [PTR, 16, x], {PTR: N1, N1 + 16: TGT, TGT: y})
            add("cbeq", w, [V, x, 16, LOAD], {V: N1, N1 + 16: x, LOAD: y})
            add("cbeq", w, [V, x, 16, LOAD], {V: x, LOAD: y})
        for off in (-4096, -2048, -72, -8, 0, 8, 64, 2048, 4080 - 0x240 - 8):
            add("cbeq", w, [V, 0, off, LOAD], {V: N1, N1 + off: 0xabc, LOAD: 1}) if off else add("cbeq", w, [V, 0, 0, LOAD], {V: N1, N1: 0xabc, LOAD: 1})
            add("llla", w, [PTR, off, 5], {PTR: N1, N1 + off: TGT, TGT: 3})
        # base far away, offset bringing it back: 64-bit address arithmetic
        for base in (1 << 40, (1 << 47) + 8, M64 - 7, 1 << 63):
            add("cbeq", w, [V, 0, (N1 - base) & M64, LOAD], {V: base, N1: 0xabc, LOAD: 1})
            add("llla", w, [PTR, (N1 - base) & M64, 5], {PTR: base, N1: TGT, TGT: 3})
        for i in range(n):
            x, y, z = rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64)
            add("cbne", w, [V, x, y], {V: rng.choice([x, x, z, x ^ (1 << rng.randrange(64))])})
            add("add", w, [V, x], {V: y})
            add("cbne2", w, [V, x, V2, y, z], {V: x, V2: rng.choice([y, y ^ (1 << rng.randrange(64))])})
            add("ss", w, [V, x, V2, y, z], {V: rng.choice([x, z]), V2: rng.getrandbits(64)})
    for w in ("r0_0", "r0_12", "l0_0", "l1_12", "r1_0", "rt_0"):
        for ln in list(range(0, 34)) + [63, 64, 65, 127, 128, 255, 256, 257, 300]:
            for da, sa in ((0, 0), (1, 0), (0, 1), (3, 5)):
                if (da or sa) and ln > 20 and w != "r0_0":
                    continue
                add("mcs", w, [V, 4, DST + da, SRC + sa, ln, 6], {V: 4}, dst=DST + da, src=SRC + sa, ln=ln)
        for ln in (1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000):
            add("mcs", w, [V, 4, 0x30000100, 0x30080000, ln, 6], {V: 4}, dst=0x30000100, src=0x30080000, ln=ln)
        # longer than the memory there is (and than 32 bits): can only fault before the final store
        for ln in (1 << 31, (1 << 31) + 3, 1 << 32, (1 << 32) + 1, (1 << 32) + 64, 3 << 32, (1 << 40) + 5, 1 << 63):
            add("mcs", w, [V, 4, 0x30100000 - 64, 0x30080000, ln, 6], {V: 4}, dst=0x30100000 - 64, src=0x30080000, ln=64)
        for b in BITS:
            add("ss", w, [V, 5, V2, b, ~b], {V: 5, V2: 0x55})
    # compile-time constants (must equal those of csw.c)
    for k, cst in (("k0", 1), ("k1", -1), ("k2", 0x7fffffff), ("k3", 0x80000000), ("k4", 0x123456789abcdef0)):
        for y in VALS:
            r.append(case("add_" + k, 0, 3, [V, cst], {V: y}))
    for k, off in (("k0", 8), ("k1", -8)):
        r.append(case("cbeq_" + k, 0, 3, [V, 0, off, LOAD], {V: N1, N1 + off: 0xabc, LOAD: 1}))
        r.append(case("llla_" + k, 0, 3, [PTR, off, 5], {PTR: N1, N1 + off: TGT, TGT: 3}))
    r.append(case("cbeq_k2", 0, 3, [V, 0, 0x80000000, LOAD], {V: (N1 - 0x80000000) & M64, N1: 0xabc, LOAD: 1}))
    for y in VALS:
        r.append(case("llla_k2", 0, 3, [PTR, 8, 0x123456789abcdef0], {PTR: N1, N1 + 8: TGT, TGT: y}))
        r.append(case("llla_k3", 0, 3, [PTR, 8, -1], {PTR: N1, N1 + 8: TGT, TGT: y}))
        r.append(case("cbne_k0", 0, 3, [V, 0, 5], {V: y}))
        r.append(case("cbne_k2", 0, 3, [V, -1, 5], {V: y}))
        r.append(case("cbne_k1", 0, 3, [V, 7, 0x123456789abcdef0], {V: rng.choice([7, y])}))
    return r


def cpu_cases(full=False):
    """where the thread is against where the call wants to be; unregistered threads; unsupported orders and modes"""
    r = []
    places = [(0, 0), (0, 1), (1, 0), (3, 1), (1, 3), (259, 1), (65539, 1), (3, 257), (3, 65537), (2, 1), (3, 0), (0x7fffffff, 0x7ffffffe), (7, 7), (4095, 63)]
    for op in OPS:
        for w in WR[op]:
            if not full and w[3:] not in ("0",):
                continue
            modes = [0, 1] if w[:2] == "rt" else [wmode(w)]
            for mode in modes:
                for match in (True, False) if op not in ("add", "llla") else (True,):
                    a, mem, ex, mv, nv = opcase(op, match, ln=3)
                    for req in (0, 1, 3, 259, 0x7fffffff):
                        for cpu_id, cid in places:
                            r.append(case("%s_%s" % (op, w), mode, req, a, mem, mo=3 if w[0] == "l" else 0, cpu_id=cpu_id, cid=cid, **ex))
                        for un in (-1, -2):     # never registered, registration failed
                            r.append(case("%s_%s" % (op, w), mode, req, a, mem, mo=3 if w[0] == "l" else 0, reg=0, cpu_id=un, cid=0, **ex))
        # runtime order and mode, supported or not
        for mo in (0, 1, 2, 3, 4, 5, 6, 100, -1):
            for mode in (0, 1, 2, 3, -1, 1000):
                for match in (True, False):
                    a, mem, ex, mv, nv = opcase(op, match, ln=3)
                    r.append(case("%s_rt_0" % op, mode, 1 if mode == 1 else 3, a, mem, mo=mo, **ex))
                    r.append(case("%s_rt_0" % op, mode, 5, a, mem, mo=mo, **ex))
    return r


# ------------------------------------------------------------------ execution
def execute(ctx, binary, cmds, tag):
    """cmds: list of (case index, case, command).  Returns [(descriptor, events)]"""
    n = max(1, min(NPROC, len(cmds) // 20 + 1))
    chunks = [cmds[i::n] for i in range(n)]

    def one(ch):
        inp, lines = [], []
        for i, c, cmd in ch:
            inp.append(line(c))
            inp.append(cmd.replace("@", str(i)))
        rc, out, err = run([binary], input=("\n".join(inp) + "\n").encode(), timeout=600, env={"GLIBC_TUNABLES": ""})
        return rc, out, err
    res = []
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, chunks))
    byi = {i: c for i, c, _ in cmds}
    for rc, out, err in outs:
        last = None
        for ln in out.splitlines():
            p = ln.split("\t")
            if len(p) != 3:
                continue
            k, plan, evs = p
            if plan == "missing":
                continue
            res.append(({"build": tag, "case": byi.get(int(k)), "plan": plan}, json.loads(evs)))
            last = res[-1][0]
        if rc != 0:
            raise Internal("stepping driver died (rc %d) after %s: %s" % (rc, json.dumps(last)[:500], err[-500:]))
    return res


def rerun_with(ctx, bins):
    def f(desc):
        b = bins[desc["build"]]
        if desc["plan"] == "scan":
            return [e for d, e in execute(ctx, b, [], desc["build"]) if d["plan"] == "scan"][0] if False else _scan(b)
        cmd = {"native": "NATIVE @", "real": "REAL @", "realn": "REALN @"}.get(desc["plan"], "RUN @ " + desc["plan"])
        return [e for d, e in execute(ctx, b, [(0, desc["case"], cmd)], desc["build"]) if d["plan"] == desc["plan"]][0]
    return f


def _scan(b):
    rc, out, err = run([b], input=b"", timeout=60)
    return json.loads(out.splitlines()[0].split("\t")[2])


def go(ctx, builds, cmds_for, known=()):
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(builds, ex.map(lambda n: build(ctx, n), builds)))
    ctx.log("built", ", ".join(builds))
    cases = []
    for n in builds:
        cm = [(i, c, cmd) for i, (c, cmd) in enumerate(cmds_for(n))]
        cases += execute(ctx, bins[n], cm, n)
    # the same behaviour from several builds is one trace
    ctx.notes["builds"] = list(builds)
    validate(ctx, "RseqCsTrace", "RseqCsTrace", cases, rerun_with(ctx, bins), env={"KNOWN_K1": "1" if known else "0", "PROP": ctx.prop, "WORD": "64"}, title="helper call")


def others(ctx, builds, cmds_for, known=()):
    """the same on the architectures this machine is not (simulated, see xarch.py)"""
    res, again = xarch.simulate(ctx, builds, cmds_for)
    for w in (64, 32):
        if res[w]:
            ctx.log("simulated %d calls of %d-bit architectures" % (len(res[w]), w))
            validate(ctx, "RseqCsTrace", "RseqCsTrace", res[w], again, env={"KNOWN_K1": "1" if known else "0", "PROP": ctx.prop, "WORD": str(w)},
                     title="helper call (%d-bit architectures)" % w)


MAIN = ["gcc-O2", "clang-O2"]


def sweeps(ctx, extra_pairs=20):
    full = sweep_cases()
    light = sweep_cases(wraps=("r0_12", "r1_0", "l0_12", "l1_0", "rt_0"), lens=(0, 3))

    def f(n):
        cs = full if n in MAIN or THOROUGH else light
        r = [(c, "SWEEP @") for c in cs]
        for i, c in enumerate(cs):
            r.append((c, "PAIRS @ %d %d" % (extra_pairs * (10 if THOROUGH else 1), SEED * 1000 + i)))
        return r
    return f


def models(ctx):
    mc(ctx, "RseqCsMC", "RseqCsMC")
    quick = {"C01": ["LateEnd", "NoAbort"], "C02": ["PrepAfter"], "C03": ["NoCpu"], "C05": ["LateStart"]}
    for bad in ("LateStart", "LateEnd", "NoAbort", "PrepAfter", "NoCpu") if THOROUGH else quick[ctx.prop]:
        mc(ctx, "RseqCsMC", "RseqCsMC" + bad, expect_violation="Allowed")


XLIGHT = ("r0_12", "r1_0", "l0_12", "l1_0", "rt_0")


def xbuilds():
    if THOROUGH:
        return [(n, o, t) for n in xarch.TARGETS for o, t in (("-O2", False), ("-O0", False), ("-O1", False), ("-Os", False), ("-O3", False), ("-O2", True), ("-O1", True))]
    return [(n, "-O2", False) for n in xarch.TARGETS] + [(n, "-O1", True) for n in xarch.TARGETS]


def xsweeps(pairs):
    cs = sweep_cases(lens=(0, 1, 5)) if THOROUGH else sweep_cases(wraps=XLIGHT, lens=(0, 3))
    few = [c for c in cs if c["wrap"].endswith(("r0_12", "l0_12", "rt_0"))]

    def f(x):
        main = x[1:] == ("-O2", False)
        r = [(c, "SWEEP" if main or i % 4 == 0 else "RUN -") for i, c in enumerate(cs if main or THOROUGH else few)]
        return r + [(c, "PAIRS %d %d" % (pairs * (10 if THOROUGH else 1), SEED * 1000 + i)) for i, c in enumerate(cs)]
    return f


def c01(ctx):
    models(ctx)
    go(ctx, list(BUILDS) if THOROUGH else QUICK_BUILDS, sweeps(ctx))
    others(ctx, xbuilds(), xsweeps(8))


def c02(ctx):
    rng = random.Random(SEED)
    models(ctx)
    ops = operand_cases(rng, 400 if THOROUGH else 40, ("r0_0", "r0_5", "r0_12", "r1_0", "r1_12", "rt_0") if THOROUGH else ("r0_0", "r1_12", "rt_0"))
    sub = [c for i, c in enumerate(ops) if i % 4 == 0]
    swp = sweep_cases(wraps=("r0_5", "r0_12", "r1_12", "l0_12", "l1_12"), lens=(0, 2, 7))

    def f(n):
        r = [(c, "NATIVE @") for c in (ops if n in MAIN or THOROUGH else sub)]
        r += [(c, "SWEEP @" if n in ("gcc-O2", "clang-O2") or THOROUGH else "RUN @ -") for c in swp]
        r += [(c, "RUN @ -") for c in (ops if THOROUGH else ops[::7]) if c["len"] <= 64 and not (c["wrap"].startswith("mcs") and c["a"][4] > 300)]
        return r
    go(ctx, list(BUILDS) if THOROUGH else QUICK_BUILDS, f)
    xs = [c for c in ops if c["wrap"].split("_", 1)[1] in ("r0_0", "r1_12", "rt_0", "l0_0", "l1_12") or "_k" in c["wrap"]] + more_constants()
    xw = sweep_cases(wraps=("r0_12", "r1_12", "l0_12", "l1_12"), lens=(0, 7))
    others(ctx, xbuilds(), lambda x: [(c, "RUN -") for c in (xs if THOROUGH or x[1:] == ("-O2", False) else xs[::6])] +
           [(c, "SWEEP" if THOROUGH and x[1] == "-O2" else "RUN -") for c in xw])


def more_constants():
    """constants the other architectures may encode as immediates (harness/xw.c)"""
    return [case("add_" + k, 0, 3, [V, c], {V: y}) for k, c in (("k5", 2047), ("k6", 32767), ("k7", -32768), ("k8", 4096)) for y in VALS]


def c03(ctx):
    models(ctx)
    cs = cpu_cases(THOROUGH)
    mig = [c for c in sweep_cases(wraps=("r0_0", "r1_0", "l0_0", "l1_0", "rt_0"), lens=(2,))]

    def f(n):
        r = [(c, "NATIVE @") for c in (cs if n in MAIN or THOROUGH else cs[::3])]
        r += [(c, "RUN @ -") for c in (cs if THOROUGH else cs[::5])]
        r += [(c, "SWEEP @") for c in mig]
        return r
    go(ctx, list(BUILDS) if THOROUGH else ["gcc-O2", "clang-O2", "g++-O2"], f, known=findings("C03"))
    some = [c for i, c in enumerate(cs) if i % 4 == 0 or c["reg"] == 0 or c["wrap"].endswith("rt_0")]
    others(ctx, xbuilds(), lambda x: [(c, "RUN -") for c in (cs if THOROUGH else some if x[1:] == ("-O2", False) else some[::7])] +
           [(c, "SWEEP") for c in (mig if THOROUGH else mig[::5] if x[1:] == ("-O2", False) else [])], known=findings("C03"))


def c05(ctx):
    models(ctx)
    sw = sweeps(ctx, 5)

    def f(n):
        cs = sweep_cases(wraps=None if n in MAIN or THOROUGH else ("r0_0", "r1_0", "l0_0", "l1_0", "rt_0"), lens=(0, 3))
        r = [(c, "SWEEP @") for c in cs]
        r += [(c, "REAL @") for c in cs if c["reg"] and c["cpu_id"] == 3] * 2
        r += [(c, "REALN @") for c in cs if c["cpu_id"] == 3]
        return r
    go(ctx, list(BUILDS) if THOROUGH else QUICK_BUILDS, f)
    others(ctx, xbuilds(), xsweeps(1))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C05": c05}
