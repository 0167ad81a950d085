"""C22, and the queries of C08 on other architectures: the thread's area as the kernel lays it out; logs validated against Area.tla."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *
import xarch, xisa

XSRC = """
#include "%s/area.h"
%s
int32_t x_os;
int32_t rseq_fallback_current_cpu(void) { return x_os; }
int x_q(struct xq *q) { area_query(q); return 0; }
int x_u(struct xq *q) { area_unload(q); return 0; }
int x_c(struct xq *q) { area_clear(q); return 0; }
"""
FIELDS = ("raw", "start", "cpu", "nav", "cav", "nid", "cid", "after")


def cases(seed, n):
    """(op, size, os cpu, 64 bytes)"""
    rng = random.Random(seed)
    r = []
    sizes = [0, 20, 23, 24, 27, 28, 32, 33, 1024, -1]
    for i in range(n):
        b = [rng.randrange(256) for _ in range(64)]
        k = i % 6
        for off in (0, 4, 20, 24):      # fields: any, small, negative states
            m = rng.randrange(5)
            v = [None, rng.randrange(8), 0xffffffff - rng.randrange(3), 0x80000000 + rng.randrange(2), 0x7fffffff][m]
            if v is not None:
                for e in range(4):
                    b[off + e] = (v >> 8 * e) & 255
        if k == 1:
            b[8:16] = [0] * 8
        if k == 2:
            b[8:12] = [0] * 4
        if k == 3:
            b[12:16] = [0] * 4
        r.append(("quc"[i % 3], sizes[rng.randrange(len(sizes))], rng.choice([0, 1, 77, 300, 4095, 65536]), b))
    return r


def native(binary, cs):
    inp = "\n".join("%s %d %d %s" % (o, s, c, bytes(b).hex()) for o, s, c, b in cs) + "\n"
    rc, out, err = run([binary], input=inp.encode(), timeout=60)
    ev = [json.loads(x) for x in out.splitlines() if x.startswith("{") and x.endswith("}")]
    if rc:
        ev.append({"e": "hang" if rc == 124 else "crash", "rc": rc})
    elif len(ev) != len(cs):
        raise Internal("area driver: %d of %d answers: %s" % (len(ev), len(cs), err[-300:]))
    return ev


def simulated(path, name, cs):
    """the same on another architecture; a string if the simulator does not know something"""
    big = bool(xarch.TARGETS[name].get("big"))
    try:
        img = xarch.load(path, name)
        m = xisa.Mem(img.big)
        w = img.w // 8
        for a, n, d in img.segs:
            m.map(a, n, d)
        for a, n in ((xarch.STACK, 1 << 16), (xarch.TP, 4096), (xarch.ARGP, 4096)):
            m.map(a, n)
        cpu = xarch.TARGETS[name]["cpu"](m, img.code)
        for g in ("__global_pointer$", "_gp"):
            if g in img.sym:
                cpu.gp = img.sym[g]
        m.wr(img.sym["rseq_offset"], w, xarch.AREA - xarch.TP)
        page, A = [x for x in m.seg if x[0] == xarch.TP][0][2], xarch.AREA - xarch.TP
        r = []
        for op, size, os_, b in cs:
            if w == 4:      # the unused half of the address is zero from registration on
                b = b[:8] + [0] * 4 + b[12:] if big else b[:12] + [0] * 4 + b[16:]
            page[:] = b"\x5a" * 4096
            page[A:A + 64] = bytes(b)
            if name == "i386":      # the thread pointer is found at its own address
                page[:4] = xarch.TP.to_bytes(4, "little")
            before = bytes(page)
            for i in range(8):
                m.wr(xarch.ARGP + 4 * i, 4, 0)
            m.wr(img.sym["rseq_size"], 4, size & 0xffffffff)
            m.wr(img.sym["x_os"], 4, os_)
            fn = img.sym["x_" + op]
            if name == "ppc64":
                cpu.toc, fn = m.rd(fn + 8, 8), m.rd(fn, 8)
            cpu.f, cpu.stored = {}, []
            cpu.begin(fn, xarch.ARGP, xarch.STACK + 0xf000, xarch.TP, xarch.STOP)
            n = 0
            while cpu.pc != xarch.STOP and n < 3000:
                cpu.step()
                n += 1
            v = {f: m.rd(xarch.ARGP + 4 * i, 4) for i, f in enumerate(FIELDS)}
            after = list(page[A:A + 64])
            if page[:A] != before[:A] or page[A + 64:] != before[A + 64:]:
                after[0] ^= 0xff    # wrote past the area: shown as a change
            B = lambda x: [(x >> 8 * k) & 255 for k in range(4)]
            e = dict(e="query" if op == "q" else "unload", be=int(big), size=size, b=b, after=after, os=B(os_), nav=v["nav"], cav=v["cav"])
            e.update((f, B(v[f])) for f in ("raw", "start", "cpu", "nid", "cid"))
            r.append(e if n < 3000 and v["after"] == 1 else {"e": "hang"})
        return r
    except (xisa.Unknown, KeyError) as e:
        return "%s: %s" % (type(e).__name__, e)
    except xisa.Fault as e:
        return [{"e": "crash", "why": str(e)}]


def bind(ctx):
    """logs of the headers' area accessors; [(case, events)] and a function that repeats one"""
    n = 1200 if THOROUGH else 240
    cs = cases(SEED, n)
    out, left, bins = [], {}, {}
    h = os.path.join(HARN, "area.c")
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARN]
    nb = [("gcc", "-O2", []), ("clang", "-O2", []), ("gcc", "-O0", []), ("g++", "-O2", ["-x", "c++"])] + ([("clang", "-O3", []), ("clang++", "-O1", ["-x", "c++"]), ("gcc", "-Os", [])] if THOROUGH else [])
    for i, (c, o, x) in enumerate(nb):
        b = os.path.join(ctx.dir, "area-%d" % i)
        run([c, o, "-w", "-D_GNU_SOURCE"] + inc + x + [h, "-o", b], check=True, timeout=120)
        bins["%s %s" % (c, o)] = b
    src = os.path.join(ctx.dir, "xarea.c")
    open(src, "w").write(XSRC % (HARN, xarch.MOEXTRA))
    for nm in xarch.TARGETS:
        for o in ("-O2", "-O1", "-Os") if THOROUGH else ("-O2",):
            try:
                bins["%s %s" % (nm, o)] = xarch.build_mo(ctx.dir, nm, o, "area", src, ["-fno-slp-vectorize", "-fno-vectorize"] + (["-mgeneral-regs-only"] if nm == "aarch64" else []))
            except xarch.Skip as e:
                left["%s %s" % (nm, o)] = str(e)[:200]

    def one(k):
        nm = k.split()[0]
        return native(bins[k], cs) if nm not in xarch.TARGETS else simulated(bins[k], nm, cs)
    for k in bins:
        r = one(k)
        if isinstance(r, str):
            left[k] = r[:200]
            continue
        out += [(dict(build=k, case=i), [e]) for i, e in enumerate(r)]
    ctx.notes["area accessors executed"] = [k for k in bins if k not in left]
    if left:
        ctx.notes.setdefault("architectures left out", {}).update(left)

    def again(d):
        r = one(d["build"])
        return [r[d["case"]]]
    return out, again


def survive(ctx):
    """critical sections of a plug-in run under the running kernel, which is then unloaded"""
    r, skipped = [], 0
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARN]
    b = cc(ctx, "unl", repo_srcs() + [os.path.join(HARN, "unl.c")], ["-Wl,--export-dynamic"])
    so = os.path.join(ctx.dir, "unlp.so")
    run(["gcc", "-O2", "-w", "-fPIC", "-shared"] + inc + [os.path.join(HARN, "unlp.c"), "-o", so], check=True, timeout=120)

    def one(d):
        rc, out, err = run([b, so, str(d["kind"]), str(d["mode"]), "400" if THOROUGH else "60"], env={"GLIBC_TUNABLES": d["tun"]}, timeout=120)
        if rc == 3:
            return None
        ev = [json.loads(x) for x in out.splitlines() if x.startswith("{")]
        if rc == 124:
            ev.append({"e": "hang"})
        elif rc:
            ev.append({"e": "crash", "rc": rc})
        return ev
    ds = [dict(unl=1, kind=k, mode=m, tun=t) for k in range(7) for m in (0, 1) for t in ("", "glibc.pthread.rseq=0")]
    with ThreadPoolExecutor(NPROC) as ex:
        for d, e in zip(ds, ex.map(one, ds)):
            if e:
                r.append((d, e))
            else:
                skipped += 1
    ctx.notes["plug-ins unloaded under the running kernel"] = "%d (%d not possible here)" % (len(r), skipped)
    ctx.notes["of these with a descriptor left behind before preparing"] = sum(1 for d, e in r if e[0].get("used"))
    return r, one


def go(ctx):
    mc(ctx, "AreaMC", "AreaMC")
    for v in ("NoClear", "HalfClear", "OtherThread"):
        mc(ctx, "AreaMC", "AreaMC" + v, expect_violation="Ok")
    cs, again = bind(ctx)
    sv, one = survive(ctx)
    ctx.log("%d area accesses, %d unloads" % (len(cs), len(sv)))

    def rerun(d):
        return one(d) or [] if "unl" in d else again(d)
    validate(ctx, "AreaTrace", "AreaTrace", cs + sv, rerun, env={"PROP": ctx.prop})


CHECKS = {"C22": go}
