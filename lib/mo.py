"""C06: ordering primitives.  Litmus threads are generated, compiled from the library's headers, and single-stepped (harness/mo.c) to record
the accesses and fences their code makes; TLC runs x86-TSO on the recordings and compares with what Mo.tla allows."""
import itertools, json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *
import xarch

BUILDS = {
    "gcc-O2-long": ("gcc", ["-O2"], "long"), "clang-O2-long": ("clang", ["-O2"], "long"), "g++-O2-int": ("g++", ["-O2"], "int"), "clang-O3-ptr": ("clang", ["-O3"], "char *"),
    "gcc-O0-long": ("gcc", ["-O0"], "long"), "gcc-O3-ushort": ("gcc", ["-O3"], "unsigned short"), "clang++-O2-uchar": ("clang++", ["-O2"], "unsigned char"), "gcc-Os-int": ("gcc", ["-Os"], "int"),
    "gcc-O1-ptr": ("gcc", ["-O1"], "struct movar *"), "clang-O1-schar": ("clang", ["-O1"], "signed char"), "g++-O3-ulonglong": ("g++", ["-O3"], "unsigned long long"),
}
QUICK = ["gcc-O2-long", "clang-O2-long", "g++-O2-int", "clang-O3-ptr", "gcc-O3-ushort", "clang++-O2-uchar"]
TYPES = [("char", 1, 1), ("signed char", 1, 1), ("unsigned char", 1, 0), ("short", 2, 1), ("unsigned short", 2, 0), ("int", 4, 1), ("unsigned int", 4, 0), ("long", 8, 1), ("unsigned long", 8, 0),
         ("long long", 8, 1), ("unsigned long long", 8, 0), ("void *", 8, 0), ("const char *", 8, 0), ("bool", 1, 0), ("float", 4, 0), ("double", 8, 0), ("enum en", 4, 0), ("volatile int", 4, 1),
         ("volatile unsigned char", 1, 0), ("volatile long", 8, 1), ("struct movar *", 8, 0), ("intptr_t", 8, 1), ("int8_t", 1, 1), ("uint16_t", 2, 0), ("volatile short", 2, 1), ("void *volatile", 8, 0)]


def o(n, v="", k=0):
    return {"o": n, "v": v, "k": k}


def ops_of(prog):
    """the source-level operations of a thread, helpers expanded"""
    r = []
    for x in prog:
        if x["o"] in ("HSS", "HMC"):     # release helpers: store to u, then release store of k to v
            r += [o("W", "u", x["k"]), o("REL", "v", x["k"])]
        elif x["o"] in ("HSSX", "HMCX"):   # relaxed
            r += [o("W", "u", x["k"]), o("WO", "v", x["k"])]
        elif x["o"] == "HS":
            r += [o("WO", "v", x["k"])]
        else:
            r.append(x)
    return r


def word_types(w):
    """the types a machine of this word size moves in one piece; no floating point (not simulated)"""
    r = []
    for t, sz, sg in TYPES:
        if w == 32 and (t in ("long", "unsigned long", "intptr_t", "volatile long") or "*" in t):
            sz = 4
        if sz * 8 <= w and t not in ("float", "double"):
            r.append((t, sz, sg))
    return r


def gen_vals(w):
    src = gen_c([], word_types(w))
    a = src.index("static void vl_0_")
    b = src.index("struct movent mo_vals")
    fns = re.findall(r"static void (v[lxs]_\d+_\w+)\(", src[a:b])
    ents = re.findall(r'\{ "([^"]+)", "([^"]+)", (\d+), (\d+), (\w+) \}', src[b:])
    assert [e[4] for e in ents] == fns
    code = ('#include <stdbool.h>\n#include <rseq/rseq.h>\n#define memcpy __builtin_memcpy\nenum en { EN_A, EN_B = 0x7fffffff, EN_C = 0xffffffff };\nstruct movar { int x; };\n' + src[a:b]
            + "".join("void xv_%d(unsigned char *c) { c = (unsigned char *)__builtin_assume_aligned(c, 64); %s(c, c + 64, (uint64_t *)(c + 32)); }\n" % (i, f) for i, f in enumerate(fns))
            + "void (*const x_vals[])(unsigned char *) = { %s };\n" % ", ".join("xv_%d" % i for i in range(len(fns))) + xarch.MOEXTRA)
    return code, [(op, t, int(sz), int(sg)) for op, t, sz, sg, _ in ents]


def gen_c(progs, types=None):
    c = ['#include <stdbool.h>', '#include <string.h>', '#include <rseq/rseq.h>', '#include "mo.h"', 'struct pgt { T w; } PAGE; struct pgi { intptr_t w; } PAGE; static struct pgt g_x, g_y, g_z; static struct pgi g_u, g_v;',
         '#define K(T_, k) ((T_)REP(k))', 'enum en { EN_A, EN_B = 0x7fffffff, EN_C = 0xffffffff };', '#ifdef __cplusplus', 'extern "C" {', '#endif',
         'struct movar mo_vars[] = { { "x", (void *)&g_x, sizeof g_x.w }, { "y", (void *)&g_y, sizeof g_y.w }, { "z", (void *)&g_z, sizeof g_z.w }, { "u", (void *)&g_u, sizeof g_u.w }, { "v", (void *)&g_v, sizeof g_v.w }, { 0, 0, 0 } };',
         'int mo_tsize = sizeof(T);',
         '#define WID(T_, w) ((uint64_t)(w) & (~0ULL >> (64 - 8 * sizeof(T_))))']
    for i, p in enumerate(progs):
        b, idx, regs = [], 0, []

        def dump():
            return " ".join("r[%d] = WID(%s, (uintptr_t)a%d);" % (k, ty, k) for k, ty in regs)
        for x in p:
            n, vv = x["o"], x["v"]
            ty = "intptr_t" if vv in ("u", "v") else "T"
            k = "K(%s, %d)" % (ty, x["k"])
            vv = "g_%s.w" % vv
            if n == "W": b.append("%s = %s;" % (vv, k))
            elif n == "WO": b.append("RSEQ_WRITE_ONCE(%s, %s);" % (vv, k))
            elif n == "REL": b.append("rseq_smp_store_release(&%s, %s);" % (vv, k))
            elif n in ("R", "RO", "ACQ", "CACQ"):
                e = {"R": "%s", "RO": "RSEQ_READ_ONCE(%s)", "ACQ": "rseq_smp_load_acquire(&%s)", "CACQ": "RSEQ_READ_ONCE(%s)"}[n] % vv
                b.append("%s a%d = %s;" % (ty, idx, e))
                regs.append((idx, ty))
                if n == "CACQ":
                    b.append("if (a%d) { rseq_smp_acquire__after_ctrl_dep();" % idx)
            elif n in ("MB", "RMB", "WMB"): b.append("rseq_smp_%s();" % n.lower())
            elif n.startswith("HSS"):
                b.append("rseq_load_cbne_store_store__ptr(%s, RSEQ_PERCPU_CPU_ID, &g_v.w, 0, &g_u.w, (intptr_t)REP(%d), (intptr_t)REP(%d), 0);" % ("RSEQ_MO_RELAXED" if n == "HSSX" else "RSEQ_MO_RELEASE", x["k"], x["k"]))
                idx += 1
            elif n.startswith("HMC"):
                b.append("{ intptr_t src = (intptr_t)REP(%d); rseq_load_cbne_memcpy_store__ptr(%s, RSEQ_PERCPU_CPU_ID, &g_v.w, 0, &g_u.w, &src, sizeof src, (intptr_t)REP(%d), 0); }" % (x["k"], "RSEQ_MO_RELAXED" if n == "HMCX" else "RSEQ_MO_RELEASE", x["k"]))
                idx += 1
            elif n == "HS":
                b.append("rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, &g_v.w, 0, (intptr_t)REP(%d), 0);" % x["k"])
            idx += 1
        s, nest = [], 0
        # results are written at the end of the innermost block that has them
        body, closes, regs2 = [], [], []
        j = 0
        for ln in b:
            body.append(ln)
            if ln.startswith("if ("):
                nest += 1
        tail = dump()
        # inside nested blocks every register is visible; the early-out paths write those read so far
        for q in range(nest, 0, -1):
            # registers read up to the q-th control load
            cnt, seen = 0, []
            for ln in b:
                for k, ty in regs:
                    if ln.startswith("%s a%d = " % (ty, k)):
                        seen.append((k, ty))
                if ln.startswith("if ("):
                    cnt += 1
                    if cnt == q:
                        break
            tail += " } else { %s }" % " ".join("r[%d] = WID(%s, (uintptr_t)a%d);" % (k, ty, k) for k, ty in seen)
        c.append("static void __attribute__((noinline)) th_%d(uint64_t *__restrict r) { %s %s }" % (i, " ".join(body), tail))
    c.append("struct moent mo_threads[] = { %s, { 0, 0 } };" % ", ".join("{ th_%d, %d }" % (i, any(x["o"][0] == "H" for x in p)) for i, p in enumerate(progs)))
    ve = []
    for i, (t, sz, sg) in enumerate(types or TYPES):
        b = t.replace("volatile ", "").replace(" *volatile", " *")
        # the value travels: in -> (plain store) at -> primitive load -> out ; in -> primitive store -> at -> out
        wid = {"float": "uint32_t w_; memcpy(&w_, &w, 4); *o_ = w_;", "double": "memcpy(o_, &w, 8);"}.get(b, "*o_ = (uint64_t)(int64_t)w;" if sg else "*o_ = (uint64_t)(uintptr_t)w;" if "*" in b else "*o_ = (uint64_t)(uint%d_t)w;" % (sz * 8))
        if b == "bool": wid = "*o_ = (uint64_t)w;"
        if b in ("int8_t",): pass
        for op, ex in (("load_acquire", "rseq_smp_load_acquire(p)"), ("read_once", "RSEQ_READ_ONCE(*p)")):
            c.append("static void vl_%d_%s(const void *in, void *at, uint64_t *o_) { memcpy(at, in, %d); %s *p = (%s *)at; __typeof__(%s) w0 = %s; %s w = w0; %s }" % (i, op, sz, t, t, ex, ex, b, wid))
            ve.append('{ "%s", "%s", %d, %d, vl_%d_%s }' % (op, t, sz, sg, i, op))
            if sg or sz < 8 and b not in ("float", "double", "bool") :
                # without an intermediate variable: the type of the expression itself
                c.append("static void vx_%d_%s(const void *in, void *at, uint64_t *o_) { memcpy(at, in, %d); %s *p = (%s *)at; *o_ = (uint64_t)(long long)%s; }" % (i, op, sz, t, t, ex))
                ve.append('{ "%s-expr", "%s", %d, %d, vx_%d_%s }' % (op, t, sz, sg, i, op))
        for op, st in (("store_release", "rseq_smp_store_release(p, s)"), ("write_once", "RSEQ_WRITE_ONCE(*p, s)")):
            c.append("static void vs_%d_%s(const void *in, void *at, uint64_t *o_) { %s s; memcpy(&s, in, %d); %s *p = (%s *)at; %s; %s w; memcpy(&w, at, %d); %s }" % (i, op, b, sz, t, t, st, b, sz, wid))
            ve.append('{ "%s", "%s", %d, %d, vs_%d_%s }' % (op, t, sz, sg, i, op))
    c.append("struct movent mo_vals[] = { %s, { 0, 0, 0, 0, 0 } };" % ", ".join(ve))
    c += ['#ifdef __cplusplus', '}', '#endif']
    return "\n".join(c) + "\n"


def build(ctx, name, src):
    comp, fl, ty = BUILDS[name]
    out = os.path.join(ctx.dir, "mo-" + name)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-g", "-w", "-D_GNU_SOURCE", "-pthread"]
    lang = ["-x", "c++", "-std=gnu++17"] if "++" in comp else ["-std=gnu11"]
    run([comp] + inc + fl + ["-DT=" + ty] + lang + ["-c", src, "-o", out + ".w.o"], check=True, timeout=300)
    objs = [out + ".w.o"]
    for i, s in enumerate([os.path.join(HARN, "mo.c")] + repo_srcs()):
        run(["gcc", "-O2", "-DHAVE_LIBNUMA=1"] + inc + ["-c", s, "-o", "%s.%d.o" % (out, i)], check=True, timeout=300)
        objs.append("%s.%d.o" % (out, i))
    run(["g++" if "++" in comp else "gcc", "-g", "-pthread", "-o", out] + objs + ["-lnuma", "-ldl"], check=True, timeout=300)
    return out


VARS = ["x", "y", "z"]


def classic():
    """threads of the well-known tests; W1 stores to x then y, and so on"""
    P, tests = [], []

    def th(*ops):
        p = list(ops)
        if p not in P:
            P.append(p)
        return P.index(p)
    W = lambda v, k: o("W", v, k)
    WO = lambda v, k: o("WO", v, k)
    R, RO, ACQ, CACQ = (lambda v: o("R", v)), (lambda v: o("RO", v)), (lambda v: o("ACQ", v)), (lambda v: o("CACQ", v))
    REL = lambda v, k: o("REL", v, k)
    MB, RMB, WMB = o("MB"), o("RMB"), o("WMB")
    wr = [th(W("x", 1), REL("y", 2)), th(W("x", 1), WMB, WO("y", 2)), th(W("x", 1), MB, WO("y", 2)), th(W("x", 1), REL("y", 2), W("x", 3)), th(W("x", 1), W("z", 1), REL("y", 2)), th(W("x", 1), WMB, W("y", 2), WMB, W("x", 3)),
          th(W("x", 1), MB, W("y", 2), MB, W("x", 3)), th(W("x", 1), REL("y", 2), REL("z", 2))]
    rd = [th(ACQ("y"), R("x")), th(RO("y"), RMB, R("x")), th(RO("y"), MB, R("x")), th(CACQ("y"), R("x")), th(R("x"), ACQ("y"), R("x")), th(R("x"), RO("y"), RMB, R("x")), th(R("x"), CACQ("y"), R("x")),
          th(R("x"), MB, RO("y"), MB, R("x")), th(ACQ("y"), R("z"), R("x")), th(ACQ("z"), RO("y"), R("x")), th(R("x"), ACQ("y"), W("x", 4))]
    tests += [[a, b] for a in wr for b in rd]                                   # message passing
    sb = [th(WO(a, 1), MB, RO(b)) for a in "xy" for b in "xy" if a != b] + [th(W(a, 1), MB, R(b)) for a in "xy" for b in "xy" if a != b] + [th(W("x", 1), R("y"), MB, R("y")), th(W("y", 1), R("x"), MB, R("x")), th(REL("x", 1), MB, ACQ("y")), th(REL("y", 1), MB, ACQ("x"))]
    tests += [[a, b] for a in sb for b in sb]                                    # store buffering
    lb = [th(ACQ("x"), WO("y", 1)), th(ACQ("y"), WO("x", 1)), th(RO("x"), REL("y", 1)), th(RO("y"), REL("x", 1)), th(R("x"), MB, W("y", 1)), th(R("y"), MB, W("x", 1)), th(R("x"), REL("y", 1)), th(CACQ("x"), W("y", 1))]
    tests += [[a, b] for a in lb for b in lb]                                    # load buffering
    s = [th(W("x", 2), REL("y", 1)), th(W("x", 2), WMB, W("y", 1)), th(W("x", 2), MB, W("y", 1))]
    s2 = [th(ACQ("y"), W("x", 1)), th(CACQ("y"), W("x", 1)), th(R("y"), MB, W("x", 1)), th(W("y", 2), WMB, W("x", 1)), th(W("y", 2), REL("x", 1)), th(W("y", 2), MB, R("x"))]
    tests += [[a, b] for a in s for b in s2]                                     # S, 2+2W, R
    w1 = [th(WO("x", 1)), th(REL("x", 1))]
    m = [th(ACQ("x"), REL("y", 1)), th(ACQ("x"), WO("y", 1)), th(CACQ("x"), WO("y", 1)), th(R("x"), MB, WO("y", 1))]
    e = [th(ACQ("y"), R("x")), th(RO("y"), RMB, RO("x")), th(RO("y"), MB, RO("x"))]
    tests += [[a, b, c] for a in w1 for b in m for c in e]                       # WRC
    tests += [[th(WO("x", 1)), th(WO("y", 1)), th(*a[0]), th(*a[1])] for a in [((ACQ("x"), ACQ("y")), (ACQ("y"), ACQ("x"))), ((RO("x"), MB, RO("y")), (RO("y"), MB, RO("x"))), ((RO("x"), RMB, RO("y")), (RO("y"), RMB, RO("x")))]] if THOROUGH else []
    o2 = [th(RO("x"), RO("x")), th(WO("x", 1), WO("x", 2)), th(R("x"), RO("x")), th(RO("x"), ACQ("x")), th(WO("x", 1), RO("x")), th(WO("y", 1), REL("y", 2)), th(W("x", 1), WO("x", 2), W("x", 3))]
    tests += [[a, b] for a in o2 for b in o2]                                     # accesses that really happen
    h = [th(W("x", 1), o("HSS", "", 2)), th(W("x", 1), o("HMC", "", 2)), th(W("x", 1), o("HSS", "", 2), W("x", 3)), th(W("x", 1), o("HMC", "", 2), W("x", 3)), th(o("HSS", "", 2)), th(o("HMC", "", 2)), th(W("x", 1), W("y", 1), o("HSS", "", 2)), th(R("x"), o("HSS", "", 2), R("x")),
         th(W("x", 1), o("HSSX", "", 2)), th(o("HMCX", "", 2), W("x", 2)), th(W("x", 1), WMB, o("HS", "", 3)), th(W("x", 1), MB, o("HSSX", "", 3)), th(W("x", 1), REL("y", 1), o("HS", "", 3), W("x", 2))]
    h2 = [th(ACQ("v"), R("x")), th(ACQ("v"), R("u")), th(CACQ("v"), R("u"), R("x")), th(R("u"), ACQ("v"), R("u")), th(ACQ("v"), RO("u"), RO("x")), th(R("x"), ACQ("v"), R("x"), W("x", 7))]
    tests += [[a, b] for a in h for b in h2]                                     # publication by a helper
    return P, tests


def rand_progs(rng, n):
    res = []
    for _ in range(n):
        p, k = [], rng.randrange(1, 4)
        for _ in range(rng.randrange(2, 6)):
            x = rng.choice(["W", "W", "WO", "REL", "REL", "R", "R", "RO", "ACQ", "ACQ", "CACQ", "MB", "RMB", "WMB"])
            if x in ("W", "WO", "REL"):
                k += 3
                p.append(o(x, rng.choice(VARS[:2] if rng.random() < .8 else VARS), k))
            elif x in ("MB", "RMB", "WMB"):
                p.append(o(x))
            elif x == "CACQ" and any(q["o"] == "CACQ" for q in p):
                p.append(o("RO", rng.choice(VARS[:2])))
            else:
                p.append(o(x, rng.choice(VARS[:2] if rng.random() < .8 else VARS)))
        res.append(p)
    return res


def fin(ps):
    return [ops_of(p) for p in ps]


def record(ctx, binary, progs, idx):
    rec = record1(binary, [(i, 0) for i in idx])
    # control dependencies: the other path too
    two = []
    for i in idx:
        c = [j for j, x in enumerate(ops_of(progs[i])) if x["o"] == "CACQ"]
        if c and not rec[i].get("err") and rec[i]["r"][c[0]]["o"] == "L":
            two.append((i, rec[i]["r"][c[0]]["n"]))
    alt = record1(binary, two)
    for i in idx:
        a = alt.get(i, rec[i])
        if a.get("err"):
            rec[i] = a
        rec[i].update(z=a["m"], zr=a["r"])
    return rec


def record1(binary, jobs):
    rc, out, err = run([binary], input="".join("REC %d %d %d\n" % (i, i, z) for i, z in jobs).encode(), timeout=600)
    if rc:
        raise Internal("recorder died (rc %d): %s" % (rc, err[-300:]))
    rec = {}
    for ln in out.splitlines():
        k, er, m, r = ln.split("\t")
        rec[int(k)] = {"m": json.loads(m), "r": json.loads(r)} if not er else {"m": [], "r": [], "err": er}
    return rec


def test_event(progs, rec, t):
    hs = []
    for i in t:
        if rec[i].get("err"):
            return {"e": rec[i]["err"]}
        # a copy may be made in pieces; only when it is complete does the destination have its value
        copy = any(x["o"].startswith("HMC") for x in progs[i])
        keep = lambda m: [x for x in m if not (copy and x["o"] == "W" and x["v"] == "u" and x["k"] == -2)]
        hs.append({"m": keep(rec[i]["m"]), "z": keep(rec[i]["z"]), "zr": rec[i]["zr"][:len(ops_of(progs[i]))], "r": rec[i]["r"][:len(ops_of(progs[i]))]})
    # loads made by helpers are not source loads; they stay in m
    return {"e": "test", "ps": fin([progs[i] for i in t]), "hs": hs}


def hw_events(ctx, binary, progs, t, n, cpu0):
    rc, out, err = run([binary, str(cpu0)], input=("HW 0 %d %s\n" % (n, ",".join(map(str, t)))).encode(), timeout=600)
    if rc:
        raise Internal("hardware run died (rc %d): %s" % (rc, err[-300:]))
    evs = []
    for ln in out.splitlines():
        _, c, vals = ln.split("\t")
        v = list(map(int, vals.split()))
        regs = [v[12 * i: 12 * i + len(ops_of(progs[j]))] for i, j in enumerate(t)]
        mem = dict(zip("xyzuv", v[12 * len(t):]))
        evs.append({"e": "hw", "ps": fin([progs[i] for i in t]), "reg": regs, "mem": mem})
    return evs


XTYPES = {"aarch64": ["long", "int", "unsigned short", "signed char", "char *"]}


def other_arches(ctx, progs, tests, nc):
    """the same litmus threads compiled for the architectures this machine is not, recorded by the simulators of xisa.py"""
    full = gen_c(progs)
    src = os.path.join(ctx.dir, "xmow.c")
    # without the value transfers
    open(src, "w").write(full[:full.index("static void vl_0_")] + ("\n#ifdef __cplusplus\n}\n#endif\n") + xarch.MOEXTRA)
    builds = []
    for n in xarch.TARGETS:
        for i, ty in enumerate(XTYPES.get(n, ["long"]) + (["int", "unsigned char", "short", "char *"] if THOROUGH else [])):
            for opt in ("-O2", "-O1", "-O3", "-Os") if THOROUGH else ("-O2",):
                if (n, opt, ty) not in builds:
                    builds.append((n, opt, ty))
    left, paths = {}, {}

    def b(x):
        try:
            return x, xarch.build_mo(ctx.dir, x[0], x[1], x[2], src)
        except xarch.Skip as e:
            return x, e
    with ThreadPoolExecutor(NPROC) as ex:
        for x, r in ex.map(b, builds):
            if isinstance(r, xarch.Skip):
                left[" ".join(x)] = str(r)[:200]
            else:
                paths[x] = r
    dec = []
    for p in progs:
        c = [j for j, x in enumerate(ops_of(p)) if x["o"] == "CACQ"]
        dec.append(c[0] if c else -1)
    jobs = list(paths)
    with ThreadPoolExecutor(NPROC) as ex:
        recs = dict(zip(jobs, ex.map(xarch.mo_record, [(paths[x], x[0], dec) for x in jobs])))

    def event(x, rec, t):
        e = test_event(progs, rec, t)
        # i386 is the TSO machine of this one
        return dict(e, e="xtest", arch=x[0]) if e["e"] == "test" and x[0] != "i386" else e
    cases = []
    for x in jobs:
        if isinstance(recs[x], str):
            left[" ".join(x)] = recs[x][:200]
            continue
        for t in tests:
            if THOROUGH or max(t) < nc:
                cases.append((dict(build=list(x), kind="xtest", threads=[progs[i] for i in t], idx=t), [event(x, recs[x], t)]))
    ctx.notes["other architectures"] = [" ".join(x) for x in jobs if not isinstance(recs[x], str)]
    if left:
        ctx.notes["architectures left out"] = left

    def again(d):
        x = tuple(d["build"])
        r = xarch.mo_record((paths[x], x[0], dec))
        if isinstance(r, str):
            raise Internal(r)
        return [event(x, r, d["idx"])]
    ctx.log("recorded %d tests of other architectures" % len(cases))
    return cases, again


PRIMS = {"rseq_smp_mb": "rseq_smp_mb();", "rseq_smp_rmb": "rseq_smp_rmb();", "rseq_smp_wmb": "rseq_smp_wmb();", "rseq_smp_load_acquire": "*p = rseq_smp_load_acquire(q);",
         "rseq_smp_store_release": "rseq_smp_store_release(p, 1);", "rseq_smp_acquire__after_ctrl_dep": "if (*p) rseq_smp_acquire__after_ctrl_dep();", "RSEQ_READ_ONCE": "*p = RSEQ_READ_ONCE(*q);",
         "RSEQ_WRITE_ONCE": "RSEQ_WRITE_ONCE(*p, 1);", "rseq_barrier": "rseq_barrier();"}


def other_vals(ctx):
    """values of every type through the primitives, and whether each primitive can be used at all, on the other architectures"""
    left = {}

    def prims(n):
        def ok(i, body):
            return xarch.assembles(ctx.dir, n, "xp-%s-%s" % (n, i), "#include <rseq/rseq.h>\nvoid f(int *p, int *q) { %s }\n" % body)
        if not ok("base", "*p = *q;"):
            left["primitives " + n] = "headers do not compile"
            return []
        return [(dict(kind="prim", arch=n, name=k), [{"e": "prim", "arch": n, "name": k, "ok": ok(k, b)}]) for k, b in PRIMS.items()]

    def vals(x):
        n, opt = x
        code, ents = gen_vals(xarch.TARGETS[n]["w"])
        src = os.path.join(ctx.dir, "xval-%s%s.c" % (n, opt))
        open(src, "w").write(code)
        try:
            r = xarch.val_record(xarch.build_mo(ctx.dir, n, opt, "val", src, ["-fsigned-char"]), n, ents)
        except xarch.Skip as e:
            r = str(e)
        if isinstance(r, str):
            left["values %s %s" % x] = r[:200]
            return []
        return [(dict(kind="xval", build=list(x)), [e]) for e in r]
    with ThreadPoolExecutor(NPROC) as ex:
        r = sum(ex.map(prims, xarch.TARGETS), [])
        r += sum(ex.map(vals, [(n, o) for n in xarch.TARGETS for o in (("-O2", "-O1", "-O3", "-Os") if THOROUGH else ("-O2",))]), [])
    if left:
        ctx.notes.setdefault("architectures left out", {}).update(left)
    ctx.log("%d values and primitives of other architectures" % len(r))
    return r


def c06(ctx):
    mc(ctx, "MoMC", "MoMC" + ("Deep" if THOROUGH else ""), timeout=1800, heap=6000)
    for v in ("NoFence", "Reorder"):
        mc(ctx, "MoMC", "MoMC" + v, expect_violation="Sound")
    mc(ctx, "MoArchMC", "MoArchMC", timeout=1800, heap=4000)
    if THOROUGH:
        mc(ctx, "MoArchMC", "MoArchMCAll", timeout=1800, heap=6000)
        mc(ctx, "MoArchMC", "MoArchMCDeep", timeout=3600, heap=12000)
        for v in ("LightMb", "AcqReads", "RelIsAcq", "CtrlOnly", "WmbReads"):
            mc(ctx, "MoArchMC", "MoArchMC" + v, expect_violation="Sound")
    rng = random.Random(SEED)
    progs, tests = classic()
    nc = len(progs)
    progs += rand_progs(rng, 400 if THOROUGH else 60)
    tests = [list(t) for t in tests]
    for _ in range(4000 if THOROUGH else 250):
        t = [rng.randrange(nc, len(progs)) if rng.random() < .8 else rng.randrange(nc), rng.randrange(nc, len(progs))]
        if THOROUGH and rng.random() < .1:
            t.append(rng.randrange(nc))
        if sum(any(x["o"][0] == "H" for x in progs[i]) for i in t) <= 1 and sum(len(ops_of(progs[i])) for i in t) <= 10:
            tests.append(t)
    xcases, xagain = other_arches(ctx, progs, tests, nc)
    src = os.path.join(ctx.dir, "mow.c")
    open(src, "w").write(gen_c(progs))
    names = list(BUILDS) if THOROUGH else QUICK
    with ThreadPoolExecutor(6) as ex:
        bins = dict(zip(names, ex.map(lambda n: build(ctx, n, src), names)))
    recs = {n: record(ctx, bins[n], progs, range(len(progs))) for n in names}
    cases = []
    for n in names:
        for t in tests:
            cases.append((dict(build=n, kind="test", threads=[progs[i] for i in t], idx=t), [test_event(progs, recs[n], t)]))
    ctx.notes["litmus_tests"] = len(tests)
    ctx.notes["builds"] = names
    # values
    for n in names:
        rc, out, err = run([bins[n]], input=b"VAL 0\n", timeout=120)
        if rc:
            raise Internal("value run died: " + err[-300:])
        for ln in out.splitlines():
            cases.append((dict(build=n, kind="val"), [json.loads(ln.split("\t")[1])]))
    # hardware
    hwt = [t for t in tests if len(t) == 2 and max(t) < nc and not any(x["o"].startswith("HMC") for i in t for x in progs[i])]
    rng.shuffle(hwt)
    hwt = hwt[:len(hwt) if THOROUGH else 40]
    nit = 30000 if THOROUGH else 3000

    def hwrun(j):
        r = []
        for t in hwt[j::4]:
            for e in hw_events(ctx, bins["gcc-O2-long"], progs, t, nit, 2 * j):
                r.append((dict(build="gcc-O2-long", kind="hw", idx=t, ev=e), [e]))
        return r
    with ThreadPoolExecutor(4) as ex:
        hw = sum(ex.map(hwrun, range(4)), [])
    ctx.notes["hardware_runs"] = len(hwt) * nit
    ctx.log("recorded %d tests in %d builds, %d hardware outcomes" % (len(tests), len(names), len(hw)))
    cases += hw + xcases + other_vals(ctx)

    def rerun(d):
        if d["kind"] == "xtest":
            return xagain(d)
        if d["kind"] in ("prim", "xval"):
            return [e for c, ev in other_vals(ctx) for e in ev if c == d]
        if d["kind"] == "test":
            return [test_event(progs, record(ctx, bins[d["build"]], progs, d["idx"]), d["idx"])]
        if d["kind"] == "hw":
            return [d["ev"]]      # what was seen was seen
        rc, out, err = run([bins[d["build"]]], input=b"VAL 0\n", timeout=120)
        return [json.loads(ln.split("\t")[1]) for ln in out.splitlines()]
    validate(ctx, "MoTrace", "MoTrace", cases, rerun, title="litmus test")


CHECKS = {"C06": c06}
