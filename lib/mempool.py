"""Memory-pool checks: scripts (generated by TLC from MempoolGen, or systematic), the driver mp, MempoolTrace."""
import itertools, json, os, random
from concurrent.futures import ThreadPoolExecutor
import core
from core import HARN, Internal, NPROC, SEED, THOROUGH

WRAPS = ("mmap mmap64 munmap madvise memfd_create ftruncate ftruncate64 close malloc calloc realloc free strdup strndup "
         "posix_memalign pthread_mutex_lock pthread_mutex_unlock").split()


def build(ctx, name="mp", main="mp.c", flags=(), cc="gcc"):
    return core.cc(ctx, name, [os.path.join(HARN, main), os.path.join(HARN, "interpose.c")] + core.repo_srcs(),
                   flags=list(flags) + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)], cc=cc)


def run_scripts(ctx, exe, scripts, tag="s", timeout=600):
    """Run scripts (lists of lines); returns one event list per script."""
    n = min(NPROC, max(1, len(scripts) // 4))
    chunks = [scripts[i::n] for i in range(n)]

    def one(ic):
        i, ch = ic
        fi, fo = (os.path.join(ctx.dir, "%s%d.%s" % (tag, i, x)) for x in ("in", "out"))
        with open(fi, "w") as f:
            for s in ch:
                f.write("\n".join(s) + "\n---\n")
        rc, out, err = core.run([exe, fi, fo], timeout=timeout)
        if rc != 0:
            raise Internal("pool driver failed (%d): %s %s" % (rc, out[-500:], err[-1500:]))
        res, cur = [], [{"e": "reset"}]
        for ln in open(fo):
            if ln.startswith("---"):
                res.append(cur)
                cur = [{"e": "reset"}]
            else:
                cur.append(json.loads(ln))
        os.unlink(fi)
        os.unlink(fo)
        if len(res) != len(ch):
            raise Internal("pool driver lost scripts: %d of %d" % (len(res), len(ch)))
        return res
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(one, enumerate(chunks)))
    out = [None] * len(scripts)
    for i, p in enumerate(parts):
        for j, e in enumerate(p):
            out[i + j * n] = e
    return out


def check(ctx, exe, scripts, tag="s"):
    evs = run_scripts(ctx, exe, scripts, tag)
    ctx.notes["driver_scripts"] = ctx.notes.get("driver_scripts", 0) + len(scripts)
    core.validate(ctx, "MempoolTrace", "MempoolTrace", list(zip(scripts, evs)),
                  lambda s: run_scripts(ctx, exe, [s], "confirm")[0], title="pool script")
    return evs


def models(ctx, *cfgs):
    for c in cfgs:
        core.mc(ctx, "MempoolMC", c)
    if THOROUGH:
        core.mc(ctx, "MempoolMC", "MempoolMCForkDeep" if "MempoolMCFork" in cfgs else "MempoolMCDeep", timeout=1500, heap=12000)


def design(ctx, good, bad=()):
    """MempoolImpl: the allocator's design refines Mempool; the faulty variants must not."""
    for c in good:
        core.mc(ctx, "MempoolImpl", "MempoolImpl" + c)
    for c, inv in bad:
        core.mc(ctx, "MempoolImpl", "MempoolImpl" + c, expect_violation=inv)
    if THOROUGH:
        for c in ("ZeroPlainDeep", "ZeroRobustDeep", "InitRobustDeep", "InitPlainCap2"):
            core.mc(ctx, "MempoolImpl", "MempoolImpl" + c, timeout=1500, heap=12000)


def generated(ctx, profile, num, seed):
    res = core.tlc_simulate(ctx, "MempoolGen", "MempoolGen_" + profile, num, 60, seed)
    out = []
    for s in res:
        s = list(s)
        if profile == "fork":
            if "fork" not in s:
                s += ["fork"]
            s += ["c freeall -1", "c destroyall", "join"]
        s += ["freeall -1", "destroyall"]
        out.append(s)
    ctx.notes["tlc_generated_scripts"] = ctx.notes.get("tlc_generated_scripts", 0) + len(out)
    return out


def create(p=0, attr=1, typ=0, pol=0, rob=0, pset=0, poison="0", nc=2, stride=4096, ilen=1024, mx=0, cb=0, name=1):
    return "create %d %d %d %d %d %d %s %d %d %d %d %d %d" % (p, attr, typ, pol, rob, pset, poison, nc, stride, ilen, mx, cb, name)


ALLCFG = [dict(pol=pol, rob=rob, typ=typ) for pol in (0, 1) for rob in (0, 1) for typ in (0, 1)]
END = ["freeall -1", "destroyall"]


def matrix():
    """Pool kinds x item sizes x CPU counts x limits, small enough to fill."""
    for c in ALLCFG:
        for (stride, ilen) in ((4096, 4096), (4096, 1024), (4096, 500), (8192, 2048), (16384, 16384), (65536, 40000)):
            for nc in (1, 3):
                for mx in (1, 2, 3):
                    yield dict(c, stride=stride, ilen=ilen, nc=nc, mx=mx)


def ptr_script():
    """rseq_percpu_ptr for every stride and CPU number, far beyond what can be mapped here."""
    out = []
    for cpu in (0, 1, 2, 3, 7, 63, 64, 255, 256, 1023, 4096, 32767, 32768, 65535, 65536, 70000, 2 ** 20, 2 ** 24 + 1, 2 ** 31 - 1):
        for so in range(12, 40):
            if cpu << so < 2 ** 63:
                out += ["ptr %d %d %d" % (cpu, so, how) for how in (0, 1, 2, 3, 5)]
                if so < 32:
                    out.append("ptr %d %d 4" % (cpu, so))
                if so == 16:
                    out.append("ptr %d %d 6" % (cpu, so))
    return out


def default_stride_scripts():
    out = []
    for c in ALLCFG:
        for ilen in (8, 500, 40000, 65536):
            s = [create(stride=65536, ilen=ilen, nc=3, mx=3, **c)]
            s += ["malloc 0 %s %d %d %d" % ("pzi"[h % 3], h, min(ilen, 64), h) for h in range(4)]
            s += ["write %d %d %d" % (h, cpu, 3 * h + cpu) for h in range(3) for cpu in range(3 if c["typ"] == 0 else 1)]
            s += ["free 1", "free 2", "malloc 0 z 5 0 0", "malloc 0 z 7 0 0", "write 7 0 3", "free 7"]
            out.append(s + END)
    return out


def wide_scripts():
    """Many CPUs, many ranges: contents on every CPU, limits beyond a byte."""
    out = []
    for i, c in enumerate(ALLCFG + [dict(pol=p, rob=0, typ=0) for p in (0, 1)]):
        nc = (70, 130, 260, 33)[i % 4]
        if c["typ"]:
            continue
        for pset in (0, 1) if not c["rob"] else (0,):
            s = [create(stride=4096, ilen=1024, nc=nc, mx=2, pset=pset, poison="a5a5a5a5a5a5a5a5" if pset else "0", **c)]
            h = 0
            for last in (nc - 1, nc // 2, 64 if nc > 64 else 17):
                s += ["malloc 0 p %d 0 0" % h, "write %d %d %d" % (h, last, h + 3), "write %d 0 9" % h, "free %d" % h, "malloc 0 z %d 0 0" % (h + 1), "poke %d %d 1000" % (h + 1, last), "free %d" % (h + 1),
                      "malloc 0 i %d 1024 7" % (h + 2), "write %d %d 5" % (h + 2, last), "free %d" % (h + 2), "malloc 0 i %d 1000 8" % (h + 3), "malloc 0 z %d 0 0" % (h + 4), "free %d" % (h + 3)]
                h += 5
            out.append(s + END)
    # the last CPU's area begins 4 GiB after the first one's, or later
    for stride, nc, pol, pset, rob in ((2 ** 31, 3, 1, 0, 0), (2 ** 31, 3, 1, 1, 0), (2 ** 31, 3, 0, 0, 0), (2 ** 30, 6, 1, 0, 1), (2 ** 32, 2, 1, 1, 0)):
        s = ["maxlen 36", create(stride=stride, ilen=1024, nc=nc, mx=1, pol=pol, pset=pset, rob=rob, poison="a5a5a5a5a5a5a5a5" if pset else "0")]
        h = 0
        for last in (nc - 1, 0, nc - 2):
            s += ["malloc 0 p %d 0 0" % h, "write %d %d %d" % (h, last, h + 3), "free %d" % h, "malloc 0 z %d 0 0" % (h + 1), "poke %d %d 1000" % (h + 1, last), "free %d" % (h + 1),
                  "malloc 0 i %d 1024 7" % (h + 2), "write %d %d 5" % (h + 2, last), "malloc 0 i %d 1000 8" % (h + 3), "malloc 0 z %d 0 0" % (h + 4), "free %d" % (h + 2)]
            h += 5
        out.append(s + END)
    for i, c in enumerate(ALLCFG):
        mx = (257, 256, 300)[i % 3]
        s = ["obs 0", create(stride=4096, ilen=4096, nc=1 + (1 - c["typ"]) * (i % 2), mx=mx, **c)]
        s += ["malloc 0 p %d 0 0" % h for h in range(mx + 1)]
        s += ["free %d" % h for h in sorted({0, 128, 255, mx - 1})] + ["malloc 0 p %d 0 0" % (mx + 1 + h) for h in range(5)]
        out.append(s + END)
    return out


# ---------------------------------------------------------------- C10
def fill_scripts(full=False):
    out = []
    rnd = random.Random(SEED)
    # small items: many slots per range, exact capacity, several free orders
    big = [(4096, 8), (4096, 64), (8192, 24), (16384, 128)]
    for c in ALLCFG:
        for (stride, ilen) in big if full else [big[(ALLCFG.index(c) + k) % 4] for k in (0, 1)]:
            isz = 8
            while isz < ilen:
                isz *= 2
            cap = stride // isz
            for mx in (1, 2):
                n = cap * mx
                if n > 1100:
                    continue
                order = list(range(n))
                for how in ("lifo", "fifo", "rand", "alt") if full else (rnd.choice(("lifo", "fifo", "rand", "alt")),):
                    o = {"lifo": order[::-1], "fifo": order, "alt": order[::2] + order[1::2]}.get(how) or rnd.sample(order, n)
                    s = ["obs 0", create(stride=stride, ilen=ilen, nc=2, mx=mx, **c)]
                    s += ["malloc 0 p %d 0 0" % h for h in range(n + 1)]
                    s += ["free %d" % h for h in o]
                    s += ["malloc 0 p %d 0 0" % (n + 1 + h) for h in range(n + 1)]
                    s += END
                    out.append(s)
    # all limits and kinds with few slots: fill to the limit, one more, free one of each position, refill
    for i, m in enumerate(matrix()):
        if not full and i % 3 != SEED % 3:
            continue
        isz = 8
        while isz < m["ilen"]:
            isz *= 2
        n = m["stride"] // isz * m["mx"]
        if n > 16:
            continue
        s = ["place %d %d" % (i % 4, m["stride"]), create(**m)]
        h = 0
        for _ in range(n + 1):
            s.append("malloc 0 %s %d %d %d" % ("pzi"[h % 3], h, isz, h))
            h += 1
        for v in range(n):
            s += ["free %d" % v, "malloc 0 p %d 0 0" % h, "malloc 0 z %d 0 0" % (h + 1)]
            h += 2
        out.append(s + END)
    # items and strides beyond 4 GiB: nothing is touched but the links
    for pol, typ, ilen, stride, nc in ((0, 0, 2 ** 31, 2 ** 33, 1), (1, 0, 2 ** 31 - 7, 2 ** 33, 1), (1, 1, 2 ** 32, 2 ** 33, 1), (0, 0, 2 ** 30, 2 ** 32, 2), (1, 0, 2 ** 30 + 1, 2 ** 32, 1)):
        s = ["obs 0", "maxlen 36", create(pol=pol, typ=typ, ilen=ilen, stride=stride, nc=nc, mx=1)]
        isz = 8
        while isz < ilen:
            isz *= 2
        n = stride // isz
        s += ["malloc 0 p %d 0 0" % h for h in range(n + 1)]
        for k, v in enumerate([n - 1] + list(range(n - 1))):
            s += ["free %d" % v]
        s += ["malloc 0 p %d 0 0" % (n + 1 + h) for h in range(n + 1)]
        out.append(s + END)
    # two pools side by side, unlimited ranges, interleaved growth
    for a, b in itertools.product(ALLCFG[::3], ALLCFG[1::3]):
        s = [create(0, stride=4096, ilen=2048, nc=2, mx=0, **a), create(1, stride=8192, ilen=4096, nc=3, mx=0, **b)]
        for h in range(14):
            s.append("malloc %d %s %d 1000 %d" % (h % 2, "zip"[h % 3], h, h))
            if h % 5 == 4:
                s.append("free %d" % (h - 3))
            s.append("write %d %d %d" % (h, h % 2, h + 3))
        out.append(s + END)
    return out


def c10(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMC", "MempoolMCTwo")
    design(ctx, ("InitPlain", "ZeroPlain"), (("PoisonAfterLink", "FreeList"),))
    sc = fill_scripts(THOROUGH) + wide_scripts() + default_stride_scripts() + [ptr_script()]
    for i, (p, n) in enumerate((("fill", 250), ("mix", 250), ("robust", 100))):
        sc += generated(ctx, p, n * (8 if THOROUGH else 1), SEED * 100 + i)
    check(ctx, exe, sc)



# ---------------------------------------------------------------- C11
def offsets(n):
    return sorted({0, 1, 7, 8 % n, 9 % n, n // 2, max(n - 9, 0), n - 8, n - 1})


def content_scripts(full=False):
    out = []
    for ci, c in enumerate(ALLCFG):
        for pset, poison in ((0, "0"), (1, "0"), (1, "a5a5a5a5a5a5a5a5")):
            for ilen in (8, 16, 64, 2048, 4096, 8192):
                for nc in (1, 3):
                    if not full and (ilen + nc + ci) % 2 and ilen > 64:
                        continue
                    stride = max(4096, ilen)
                    mk = create(stride=stride, ilen=ilen, nc=nc, mx=3, pset=pset, poison=poison, **c)
                    s = [mk]
                    h = 0
                    # one differing byte at any place on any CPU must not survive a zeroed or initialised allocation
                    for o in offsets(ilen):
                        for cpu in range(nc if c["typ"] == 0 else 1):
                            s += ["malloc 0 z %d 0 0" % h, "poke %d %d %d" % (h, cpu, o), "free %d" % h, "malloc 0 z %d 0 0" % (h + 1),
                                  "free %d" % (h + 1)]
                            h += 2
                    out.append(s + END)
                    s = [mk]
                    h = 0
                    for o in offsets(ilen):
                        cpu = o % (nc if c["typ"] == 0 else 1)
                        s += ["malloc 0 i %d %d 9" % (h, ilen), "poke %d %d %d" % (h, cpu, o), "free %d" % h,
                              "malloc 0 i %d %d 9" % (h + 1, ilen), "write %d %d 11" % (h + 1, cpu), "free %d" % (h + 1),
                              "malloc 0 i %d %d 9" % (h + 2, ilen), "free %d" % (h + 2)]
                        h += 3
                    out.append(s + END)
                    # every init length, on a slot that held something else before
                    s = [mk]
                    h = 0
                    for ln in sorted({0, 1, 2, 3, 7, 8, 9, ilen // 2, ilen - 1, ilen, ilen + 1, 2 * ilen, 2 ** 63, 2 ** 64 - 1}):
                        s += ["malloc 0 i %d %d 3" % (h, ilen), "write %d 0 5" % h, "free %d" % h, "malloc 0 i %d %d 7" % (h + 1, ln), "free %d" % (h + 1)]
                        if ln > ilen:
                            s.pop()
                        h += 2
                    out.append(s + END)
        # neighbours on one page: private pages appear in every order relative to initialisation of the neighbours
        for order in itertools.permutations(range(3)):
            s = [create(stride=4096, ilen=1024, nc=3, mx=2, **c)]
            h = 0
            for k in order:
                s += ["malloc 0 %s %d 1024 %d" % ("piz"[k], h, 5 + k)]
                h += 1
                for cpu in ((0,) if c["typ"] else (order[0], order[2])):
                    s.append("write %d %d %d" % (h - 1, cpu, 20 + k))
            for k in order:
                s += ["malloc 0 %s %d %d %d" % ("izi"[k], h, 1024 - k, 7 + k)]
                h += 1
            for k in order:
                s += ["free %d" % k, "malloc 0 %s %d 1024 %d" % ("ziz"[k], h, 9 + k)]
                h += 1
            out.append(s + END)
    return out


def c11(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMC")
    design(ctx, ("InitPlain", "ZeroPlainP0"))
    core.mc(ctx, "MempoolCow", "MempoolCow")
    core.mc(ctx, "MempoolCow", "MempoolCowRobust")
    core.mc(ctx, "MempoolCow", "MempoolCowSplit", expect_violation="ContentInv")   # known finding K2
    sc = content_scripts(THOROUGH) + wide_scripts() + default_stride_scripts() + [ptr_script()]
    for i, (p, n) in enumerate((("content", 300), ("mix", 150))):
        sc += generated(ctx, p, n * (8 if THOROUGH else 1), SEED * 100 + 10 + i)
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C13 / C14
ROB = [dict(pol=p, rob=1, typ=t) for p in (0, 1) for t in (0, 1) if not (p == 0 and t == 1)]


def misuse_scripts(full=False):
    out = []
    for c in ROB:
        # bitmap positions: double free / leak / never-allocated at every interesting slot index, in first and later ranges
        for ilen, cap in ((8, 512), (32, 128), (64, 64), (128, 32), (4096, 1)):
            idx = sorted({i for i in (0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 255, 256, 510, 511) if i < cap})
            if not full and cap == 512:
                idx = [0, 63, 64, 511]
            base = ["obs 0", create(stride=4096, ilen=ilen, nc=2, mx=2, **c)]
            for i in idx:
                for second in ((0, 1) if cap <= 64 else (0,)):
                    n = cap * second + i + 1
                    pre = base + ["malloc 0 p %d 0 0" % h for h in range(n)]
                    out.append(pre + ["free %d" % (n - 1), "free %d" % (n - 1)] + END)
                    fr = ["free %d" % h for h in range(n)]
                    out.append(pre + fr + ["free %d" % (n - 1)] + END)
                    out.append(pre + ["free %d" % h for h in range(n - 1)] + ["destroy 0"])
                    if i + 1 < cap:
                        out.append(pre + ["freeraw %d 1" % (n - 1)] + END)
                    if n > 1:
                        out.append(pre + ["destroy 0"])
        # double free with other activity in between
        for mid in (["malloc 0 p 9 0 0"], ["free 1"], ["free 1", "malloc 0 z 9 0 0"], ["malloc 0 i 9 100 3", "free 9"], ["write 1 0 3", "free 2"]):
            # "free 0" a second time is a misuse only while slot 0 has not been handed out again: keep its handle in the way
            out.append([create(stride=4096, ilen=1024, nc=2, mx=2, **c)] + ["malloc 0 p %d 0 0" % h for h in range(3)] +
                       ["free 0"] + [m for m in mid if not m.startswith("malloc")] + ["free 0"] + END)
        # corruption of any byte of a freed item on any CPU, found when handed out or at destroy, in any free-list position
        for poison in ((0, "0"), (1, "0"), (1, "1"), (1, "ffffffffffffffff"), (1, "00000000000000ff")):
            for ilen in (8, 64, 4096):
                if not full and ilen == 64 and poison[1] == "1":
                    continue
                bs = range(ilen) if ilen <= 64 and (full or poison == (0, "0")) else offsets(ilen)
                nc = 3 if c["typ"] == 0 else 1
                for b in bs:
                    for cpu in (range(nc) if full or b % 8 in (0, 7) else (b % nc,)):
                        mk = create(stride=4096, ilen=ilen, nc=3, mx=4, pset=poison[0], poison=poison[1], **c)
                        pre = [mk, "malloc 0 i 0 %d 3" % ilen, "malloc 0 z 1 0 0", "malloc 0 p 2 0 0", "write 2 0 3", "free 0", "free 1", "free 2"]
                        v = b % 3
                        out.append(pre + ["poke %d %d %d" % (v, cpu, b)] + ["malloc 0 %s %d %d 4" % ("pzi"[b % 3], 10 + k, ilen) for k in range(3)] + END)
                        out.append(pre + ["poke %d %d %d" % (v, cpu, b), "destroy 0"])
        # free-list damage, found at destroy (nothing live)
        for how in ("trunc", "loop", "out", "outlow"):
            for n in (1, 2, 3, 6):
                for v in range(n):
                    out.append([create(stride=4096, ilen=1024, nc=2, mx=3, **c)] + ["malloc 0 p %d 0 0" % h for h in range(n)] +
                               ["free %d" % h for h in range(n)] + ["flcorrupt %d %s" % (v, how), "destroy 0"])
        # misuse followed by set destruction
        out.append(["setcreate", create(stride=4096, ilen=1024, nc=2, mx=3, **c), "setadd 0", "smalloc -1 z 0 100 0", "setdestroy"])
        out.append(["setcreate", create(stride=4096, ilen=1024, nc=2, mx=3, **c), "setadd 0", "smalloc -1 z 0 100 0", "free 0", "free 0"])
        out.append(["setcreate", create(stride=4096, ilen=1024, nc=2, mx=3, **c), "setadd 0", "smalloc -1 z 0 100 0", "free 0", "poke 0 1 1000", "smalloc -1 z 1 100 0"])
        out.append(["setcreate", create(stride=4096, ilen=1024, nc=2, mx=3, **c), "setadd 0", "smalloc -1 z 0 100 0", "free 0", "poke 0 1 1000", "setdestroy"])
    return out


def mutate_misuse(scripts, seed):
    """Cut generated correct histories after a free and add a misuse of the freed item."""
    rnd = random.Random(seed)
    out = []
    for s in scripts:
        fr = [i for i, l in enumerate(s) if l.startswith("free ")]
        if not fr:
            continue
        i = rnd.choice(fr)
        h = s[i].split()[1]
        how = rnd.randrange(3)
        if how == 0:
            out.append(s[:i + 1] + ["free " + h] + END)
        elif how == 1:
            out.append(s[:i + 1] + ["poke %s 0 %d" % (h, rnd.choice((0, 1, 7, 8, 15, 63, -1, -2, -8))), "malloc 0 p 900 0 0", "malloc 0 z 901 0 0"] + END)
        else:
            out.append(s[:i + 1] + ["poke %s 0 %d" % (h, rnd.choice((0, 1, 7, 8, 15, 63, -1, -2, -8)))] + END)
    return out


def c13(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMC", "MempoolMCTwo")
    design(ctx, ("ZeroRobust",), (("NoPopCheck", "Allowed"), ("NoLeakCheck", "Allowed")))
    sc = misuse_scripts(THOROUGH)
    g = generated(ctx, "robust", 300 * (8 if THOROUGH else 1), SEED * 100 + 20)
    sc += g[:60] + mutate_misuse(g, SEED)
    check(ctx, exe, sc)


def poison_scripts(full=False):
    out = []
    pois = ("0", "1", "5555555555555555", "ffffffffffffffff", "8000000000000000", "00000000ffffffff", "ffffffff00000000", "100000000", "0123456789abcdef")
    for rob in (0, 1):
        for c in (dict(pol=0, typ=0), dict(pol=1, typ=0), dict(pol=1, typ=1)):
            for pi, (pset, v) in enumerate([(0, "0")] + [(1, x) for x in pois]):
                if rob == 0 and not pset:
                    continue
                for ilen in (8, 16, 128, 4096, 8192):
                    if not full and ilen > 128 and pi % 3:
                        continue
                    nc = 3
                    word = v if pset else ("5555555555555555" if c["pol"] == 0 else "0")
                    s = [create(stride=max(4096, ilen), ilen=ilen, nc=nc, mx=3, rob=rob, pset=pset, poison=v, **c)]
                    h = 0
                    for o in offsets(ilen):
                        cpu = o % (nc if c["typ"] == 0 else 1)
                        # content equal to the poison except for one byte on one CPU, just before the free
                        s += ["malloc 0 %s %d %d 3" % ("pzi"[o % 3], h, ilen)] + ["fillw %d %d %s" % (h, x, word) for x in range(nc if c["typ"] == 0 else 1)]
                        s += ["poke %d %d %d" % (h, cpu, o), "free %d" % h, "malloc 0 p %d 0 0" % (h + 1), "free %d" % (h + 1)]
                        h += 2
                    out.append(s + END)
                    # several freed items together, then all handed out again
                    s = [create(stride=max(4096, ilen), ilen=ilen, nc=nc, mx=3, rob=rob, pset=pset, poison=v, **c)]
                    s += ["malloc 0 %s %d %d %d" % ("izp"[k % 3], k, max(ilen - k, 1), k) for k in range(3)]
                    s += ["write %d %d %d" % (k, k % (nc if c["typ"] == 0 else 1), k + 3) for k in range(3)]
                    s += ["free %d" % k for k in (1, 0, 2)] + ["malloc 0 %s %d %d 3" % ("pzi"[k], 10 + k, ilen) for k in range(3)]
                    out.append(s + END)
    return out


def c14(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMC")
    design(ctx, ("InitRobust", "ZeroRobustP0"))
    core.mc(ctx, "MempoolCow", "MempoolCow")
    core.mc(ctx, "MempoolCow", "MempoolCowRobust")
    core.mc(ctx, "MempoolCow", "MempoolCowSplitRobust", expect_violation="NoFalseAlarm")   # known finding K2
    sc = poison_scripts(THOROUGH) + wide_scripts()
    for i, (p, n) in enumerate((("robust", 300), ("mix", 100), ("set", 60))):
        sc += generated(ctx, p, n * (8 if THOROUGH else 1), SEED * 100 + 30 + i)
    # long robust histories over several ranges
    rnd = random.Random(SEED)
    for c in ROB:
        for ilen in (8, 1024, 4096):
            s = ["obs 0", create(stride=4096, ilen=ilen, nc=2, mx=0, **c)]
            live, h = [], 0
            for _ in range(1200 if THOROUGH else 400):
                if live and rnd.random() < 0.45:
                    s.append("free %d" % live.pop(rnd.randrange(len(live))))
                else:
                    s.append("malloc 0 %s %d %d %d" % (rnd.choice("pzi"), h, min(ilen, 700), h % 40))
                    if rnd.random() < 0.5:
                        s.append("write %d 0 %d" % (h, h % 30))
                    live.append(h)
                    h += 1
            sc.append(s + END)
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C15
def config_scripts(n, seed):
    rnd = random.Random(seed)
    pw = [2 ** k for k in range(0, 64)]
    strides = [0, 4096, 8192, 65536, 2 ** 20] + [1, 7, 8, 2048, 4095, 4097, 6144, 12288, 65535, 65537, 2 ** 21 + 4096] + pw + [2 ** 64 - 4096, 2 ** 64 - 1, 3 * 2 ** 61]
    ncs = [0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 300, -1, -2, -2 ** 31, 2 ** 31 - 1, 2 ** 30, 2 ** 24, 2 ** 20]
    lens = [0, 1, 7, 8, 9, 15, 16, 17, 100, 1024, 4095, 4096, 4097, 65535, 65536, 65537] + pw + [2 ** 64 - 1, 2 ** 63 + 1, 2 ** 63 - 1, 2 ** 62 + 1]
    base = dict(attr=1, typ=0, pol=1, rob=0, pset=0, poison="0", nc=2, stride=4096, ilen=64, mx=0, cb=0, name=1)
    cfgs = [dict(base, attr=0), dict(base, attr=0, ilen=65536), dict(base, attr=0, ilen=65537), dict(base, attr=0, ilen=0)]
    for pol in (0, 1):
        for typ in (0, 1):
            for rob in (0, 1):
                b = dict(base, pol=pol, typ=typ, rob=rob)
                cfgs += [dict(b, stride=x) for x in strides] + [dict(b, nc=x) for x in ncs] + [dict(b, ilen=x, stride=x2) for x in lens for x2 in (4096, 65536, 0)]
                cfgs += [dict(b, cb=1, nc=x, stride=y, mx=m) for x in (1, 3, 0) for y in (4096, 0, 16384) for m in (0, 1, 2)]
                cfgs += [dict(b, cb=1, nc=x, stride=y, mx=m, ilen=y // 2) for x in (1, 3) for y in (4096, 16384) for m in (0, 2, 3)]
                cfgs += [dict(b, name=x) for x in (0, -1, 1, 2, 200, 248, 249, 280)]
                cfgs += [dict(b, nc=x, stride=y) for x in (2 ** 31 - 1, 2 ** 20, 2 ** 16, 2 ** 10, 255, 16, 2, 1) for y in pw[12:]]
    cfgs += [dict(base, pol=p, typ=t) for p in (-1, 2, 3, 77, 2 ** 31 - 1) for t in (0, 1)]
    for _ in range(n):
        cfgs.append(dict(attr=1, typ=rnd.randrange(2), pol=rnd.choice((0, 0, 1, 1, 2, -1)), rob=rnd.randrange(2), pset=rnd.randrange(2),
                         poison="%x" % rnd.choice((0, 1, 2 ** 64 - 1, 0x1234)), nc=rnd.choice(ncs), stride=rnd.choice(strides[:5] + strides), ilen=rnd.choice(lens),
                         mx=rnd.randrange(4), cb=rnd.randrange(2), name=rnd.choice((0, -1, 1, 30))))
    out = []
    seen = set()
    for i, c in enumerate(cfgs):
        mk = create(**c)
        if mk in seen:
            continue
        seen.add(mk)
        small = 0 < c["ilen"] <= 65536 and c["stride"] <= 2 ** 17 and c["nc"] <= 8
        s = ["place %d 65536" % (i % 3), mk]
        if small:
            s += ["malloc 0 z 0 0 0", "malloc 0 p 1 0 0", "write 0 0 3", "write 1 1 4", "free 0", "malloc 0 p 2 0 0"]
            isz = 8
            while isz < c["ilen"]:
                isz *= 2
            cap = (c["stride"] or 65536) // isz
            if cap <= 16 and (c["mx"] or c["cb"]):
                s += ["malloc 0 p %d 0 0" % (10 + k) for k in range(cap * (c["mx"] or 3))]
        else:
            s += ["obs 0"]
        out.append(s + END)
        if small and c["attr"]:
            k = rnd.randrange(1, 720) + 1000 * rnd.randrange(3)
            if c["cb"] or rnd.random() < 0.5:
                out.append(["aorder %d" % k] + s + END)
    return out


def c15(ctx):
    exe = build(ctx)
    sc = config_scripts(8000 if THOROUGH else 500, SEED)
    sc.append(["attrnull", "destroynull"] + [create(p=k, ilen=100 * (k + 1), nc=k % 3) for k in range(4)] + END)
    sc += generated(ctx, "mix", 1500 if THOROUGH else 150, SEED * 100 + 40) + wide_scripts()
    models(ctx, "MempoolMC")
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C16
def fault_bases():
    """(prefix, target line, suffix): the target call has its resource requests failed one after another."""
    out = []
    for c in ALLCFG:
        for cb in (0, 1):
            for name in (0, 1):
                for nc in (1, 3):
                    mk = create(stride=4096, ilen=2048, nc=nc, mx=3, cb=cb, name=name, **c)
                    out.append(([], mk, [mk, "malloc 0 z 0 0 0", "malloc 0 i 1 100 3", "malloc 0 p 2 0 0"] + END))
                    fill = ["malloc 0 i 0 2048 4", "malloc 0 z 1 0 0", "write 1 0 3"]
                    after = ["free 0", "malloc 0 z 3 0 0", "malloc 0 p 4 0 0", "malloc 0 i 5 2048 7", "malloc 0 p 6 0 0", "malloc 0 p 7 0 0", "malloc 0 p 8 0 0", "write 4 0 9"]
                    if name:
                        out.append(([mk] + fill, "malloc 0 %s 2 2048 5" % "pzi"[nc % 3], after + END))
                        out.append(([mk] + fill + ["malloc 0 p 20 0 0", "malloc 0 p 21 0 0"], "malloc 0 z 2 2048 5", ["malloc 0 z 22 0 0", "free 20", "malloc 0 p 23 0 0"] + END))
    for r in (0, 1):
        p0, p1 = create(0, stride=4096, ilen=4096, nc=2, mx=2, pol=1, rob=r), create(1, stride=16384, ilen=16384, nc=2, mx=2, pol=0, rob=0)
        out.append((["setcreate", p0, p1, "setadd 0", "setadd 1", "smalloc -1 z 0 100 3"], "smalloc -1 i 1 100 3",
                    ["smalloc -1 z 2 3000 3", "smalloc -1 p 3 5000 3", "smalloc -1 p 4 50 3", "smalloc -1 p 5 50 3"] + END))
        out.append((["setcreate", p0, p1, "setadd 0", "setadd 1", "smalloc -1 z 0 100 3", "smalloc -1 z 1 9000 3"], "smalloc -1 z 2 9000 3",
                    ["smalloc -1 z 3 9000 3", "smalloc -1 p 4 5000 3", "smalloc -1 p 5 50 3"] + END))
        out.append(([], "setcreate", ["setcreate", p0, "setadd 0", "smalloc -1 z 0 10 1"] + END))
    return out


def c16(ctx):
    exe = build(ctx)
    bases = fault_bases()
    probe = [["obs 0"] + pre + [t] for pre, t, _ in bases]
    evs = run_scripts(ctx, exe, probe, "probe")
    sc = []
    nf = 0
    for (pre, t, suf), e in zip(bases, evs):
        n = e[-1].get("nreq", 0) if e[-1]["e"] != "crash" else 0
        for k in range(1, n + 1):
            sc.append(pre + ["fault %d" % k, t] + suf)
            nf += 1
            if THOROUGH and not t.startswith(("create", "set")):   # two failures in a row
                for j in range(1, n + 1):
                    sc.append(pre + ["fault %d" % k, t, "fault %d" % j, t.replace(" 2 2048", " 30 2048")] + suf)
        sc.append(pre + [t] + suf[1 if t.startswith(("create", "setcreate")) else 0:])
    ctx.notes["fault_points"] = nf
    sc += generated(ctx, "mix", 50, SEED * 100 + 50)
    # random histories with a failure at a random request of a random call
    rnd = random.Random(SEED)
    for s in generated(ctx, "fill", 1600 if THOROUGH else 200, SEED * 100 + 51):
        s = list(s)
        for _ in range(2):
            k = rnd.randrange(2, len(s) - 2)
            if s[k].startswith("malloc"):
                s.insert(k, "fault %d" % rnd.randrange(1, 6))
        sc.append(s)
    models(ctx, "MempoolMC")
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C17
def fork_scripts():
    out = []
    for c in ALLCFG:
        for ilen, mx in ((1024, 3), (4096, 3)):
            for nlive in (0, 1, 3, 9):
                if nlive > (4096 // ilen) * mx:
                    continue
                mk = create(stride=4096, ilen=ilen, nc=2, mx=mx, **c)
                inacc = c["pol"] == 0 and c["typ"] == 0
                pre = [mk] + ["malloc 0 i %d %d %d" % (h, ilen, h + 1) for h in range(nlive + 1)] + ["free %d" % nlive]
                # child destroys while the parent goes on
                out.append(pre + ["fork"] + ([] if inacc else ["c freeall 0"]) + ["c destroy 0", "malloc 0 z 50 0 0", "write 50 0 3", "join", "malloc 0 i 51 %d 9" % ilen] + END)
                # parent destroys first, child afterwards
                out.append(pre + ["fork", "freeall 0", "destroy 0"] + ([] if inacc else ["c malloc 0 z 60 0 0", "c freeall 0"]) + ["c destroy 0", "join"])
                if not inacc:
                    out.append(pre + ["fork", "c malloc 0 i 40 %d 8" % ilen, "c write 40 0 5", "malloc 0 z 41 0 0"] + (["write 0 0 6", "c write 0 1 7", "c free 0"] if nlive else []) +
                               ["malloc 0 i 42 %d 4" % ilen, "c malloc 0 p 43 0 0", "c freeall 0", "c destroy 0", "join"] + END)
                elif nlive:
                    # the child's address space got reused where the pool was
                    out.append(pre + ["fork", "c hole 0", "c destroy 0", "c holecheck 0", "join"] + END)
                # child creates its own pools and forks nothing into the parent
                out.append(pre + ["fork", "c " + create(5, stride=8192, ilen=4096, nc=2, mx=2, **c), "c malloc 5 i 70 4096 3", "c write 70 0 4", "malloc 0 p 71 0 0",
                                  "c free 70", "c destroy 5"] + ([] if inacc else ["c freeall 0"]) + ["c destroy 0", "join"] + END)
    # a set with pools of both policies across fork
    p0, p1 = create(0, stride=4096, ilen=4096, nc=2, mx=2, pol=1, rob=1), create(1, stride=16384, ilen=16384, nc=2, mx=2, pol=0, rob=1)
    out.append(["setcreate", p0, p1, "setadd 0", "setadd 1", "smalloc -1 i 0 4096 3", "smalloc -1 i 1 9000 3", "fork", "c free 0", "c setdestroy", "smalloc -1 z 2 5000 1", "join"] + END)
    return out


def c17(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMCFork")
    sc = fork_scripts() + generated(ctx, "fork", 2500 if THOROUGH else 300, SEED * 100 + 60)
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C18
def set_scripts(full=False):
    out = []
    rnd = random.Random(SEED + 1)
    for it in range(160 if full else 40):
        # pools whose ranges have distinct sizes (stride x16 apart), item sizes anywhere below the stride
        k = rnd.randrange(1, 5)
        so = [12, 14, 16, 18][:k]
        s = ["setcreate"]
        ords = []
        for p in range(k):
            o = so[p] - rnd.randrange(0, 3)
            ords.append(o)
            pol, rob, typ = rnd.randrange(2), rnd.randrange(2), rnd.choice((0, 0, 1))
            s.append(create(p, stride=2 ** so[p], ilen=2 ** o - rnd.choice((0, 0, 1)), nc=1 if (pol == 0 and rob) else rnd.randrange(1, 3), mx=rnd.choice((1, 1, 2)), pol=pol, rob=rob, typ=typ))
        order = list(range(k))
        rnd.shuffle(order)
        late = order.pop() if rnd.random() < 0.4 else None
        s += ["setadd %d" % p for p in order]
        h = 0
        cand = sorted({0, 1, 7, 8, 9} | {2 ** o + d for o in ords for d in (-1, 0, 1)} | {2 ** o // 2 + 1 for o in ords})
        for step in range(22):
            if step == 10 and late is not None:
                s.append("setadd %d" % late)
            ln = rnd.choice(cand) if rnd.random() < 0.95 else rnd.choice((2 ** 63, 2 ** 64 - 1, 2 ** 40))
            kind = rnd.choice("pzi")
            if ln > 2 ** 20 and kind == "i":
                kind = "p"
            s.append("smalloc -1 %s %d %d %d" % (kind, h, ln, rnd.randrange(1, 30)))
            h += 1
            if rnd.random() < 0.3:
                v = rnd.randrange(h)
                if "free %d" % v not in s:
                    s.append("free %d" % v)
            elif rnd.random() < 0.3:
                s.append("write %d 0 %d" % (rnd.randrange(h), rnd.randrange(30)))
        out.append(s + END)
    # every length boundary against every subset of sizes; one slot per pool: fallback order
    for subset in itertools.product((0, 1), repeat=4):
        s = ["setcreate"]
        for p in range(4):
            if subset[p]:
                s += [create(p, stride=4096 * 4 ** p, ilen=4096 * 4 ** p, nc=2, mx=1, pol=1), "setadd %d" % p]
        h = 0
        for ln in (4096, 1, 4096, 4096, 4096, 4096):
            s.append("smalloc -1 %s %d %d 3" % ("zip"[h % 3], h, ln))
            h += 1
        for v in (3, 1, 0, 2):
            s += ["free %d" % v, "smalloc -1 i %d %d 5" % (h, 4097), "smalloc -1 z %d 10 5" % (h + 1)]
            h += 2
        out.append(s + END)
    # small items: all lengths 0..300 against pools of 8..256 (cap bounded), busy pools refused
    for a in (0, 1):
        s = ["obs 0", "setcreate"]
        for p, o in enumerate((3, 5, 6, 8)):
            s += [create(p, stride=4096 * 4 ** p, ilen=2 ** o, nc=2, mx=1, pol=a), "setadd %d" % p]
        s += [create(4, stride=2 ** 20, ilen=30, nc=2, mx=1, pol=a), "setadd 4", "setadd 4"]
        for ln in range(0, 300 if full else 140):
            s.append("smalloc -1 p %d %d 0" % (ln, ln if full else ln * 2))
        s += ["malloc 4 z 400 0 0", "free 400", "freeall -1", "setdestroy", "destroy 4"]
        out.append(s)
    for typ in (0, 1):
        # the extreme orders of the set's table
        s = ["setcreate", create(0, stride=4096, ilen=8, nc=1, mx=1, pol=1, typ=typ), create(1, stride=2 ** 26, ilen=2 ** 26, nc=1, mx=1, pol=1, typ=typ), "setadd 0", "setadd 1", "obs 0"]
        s += ["smalloc -1 p 0 0 0", "smalloc -1 p 1 8 0", "smalloc -1 p 2 9 0", "smalloc -1 p 3 9 0", "smalloc -1 p 4 %d 0" % (2 ** 26 + 1), "free 2", "smalloc -1 p 5 %d 0" % 2 ** 26]
        out.append(s + END)
    return out


def c18(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMCTwo")
    sc = set_scripts(THOROUGH) + generated(ctx, "set", 2500 if THOROUGH else 350, SEED * 100 + 70)
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C19
def destroy_scripts():
    out = []
    for c in ALLCFG:
        for stride, ilen in ((4096, 4096), (4096, 1024), (16384, 8192)):
            for place in (0, 1, 2, 3, 4):
                for nr in (1, 2, 4):
                    per = stride // (8192 if ilen == 8192 else ilen)
                    mk = create(stride=stride, ilen=ilen, nc=2, mx=0, name=(0, 1, 30, 280, -1)[(place + 2 * c["pol"] + c["rob"]) % 5], cb=place % 2, **c)
                    use = ["malloc 0 %s %d 64 %d" % ("pzi"[h % 3], h, h) for h in range(per * nr)]
                    fr = ["free %d" % h for h in range(per * nr)] if c["rob"] else ["free 0"]
                    out.append(["place %d %d" % (place, stride), mk] + use + fr + ["destroy 0"])
                    if place == 0:
                        for k in range(1, nr + 1):   # each unmap of the destroy fails once, destroy is retried
                            out.append([mk] + use + fr + ["mfault %d" % k, "destroy 0", "destroy 0"])
                        out.append([mk] + use + fr + ["mfault 1", "destroy 0", "mfault 1", "destroy 0", "destroy 0"])
        # a set of pools: each unmap of its destruction fails once or twice, the destruction is repeated
        for nr in (1, 2):
            mk = ["setcreate"] + [create(p, stride=4096 * 4 ** p, ilen=1024 * 4 ** p, nc=2, mx=nr, name=p, **c) for p in range(3)] + ["setadd %d" % p for p in (1, 0, 2)]
            use = ["smalloc -1 %s %d %d 1" % ("pzi"[h % 3], h, 1024 * 4 ** (h % 3)) for h in range(9 * nr)] + ["freeall -1"]
            for k in range(1, 3 * nr + 1):
                out.append(mk + use + ["mfault %d" % k, "setdestroy", "setdestroy", create(5, stride=4096, ilen=512, nc=1), "malloc 5 z 90 0 0", "free 90", "destroy 5"])
            out.append(mk + use + ["mfault %d" % (nr + 1), "setdestroy", "mfault 1", "setdestroy", "mfault 2", "setdestroy", "setdestroy"])
        # repeated cycles
        s = []
        for k in range(6):
            s += [create(stride=4096, ilen=512, nc=3, mx=2, **c), "malloc 0 z %d 0 0" % (2 * k), "malloc 0 p %d 0 0" % (2 * k + 1), "write %d 0 3" % (2 * k), "freeall 0", "destroy 0"]
        out.append(s)
        # other pools are untouched by a destruction
        s = [create(0, stride=4096, ilen=1024, nc=2, mx=2, **c), create(1, stride=4096, ilen=1024, nc=2, mx=2, **c), create(2, stride=8192, ilen=1024, nc=2, mx=2, **c)]
        s += ["malloc %d i %d 1024 %d" % (p, 10 * p + k, k) for p in range(3) for k in range(5)]
        s += ["freeall 1", "destroy 1", "malloc 0 z 40 0 0", "malloc 2 z 41 0 0", "freeall 0", "destroy 0", "malloc 2 p 42 0 0", create(1, stride=4096, ilen=2048, nc=2, **c), "malloc 1 p 43 0 0"]
        out.append(s + END)
    return out


def c19(ctx):
    exe = build(ctx)
    models(ctx, "MempoolMC")
    sc = destroy_scripts()
    for i, (p, n) in enumerate((("mix", 200), ("robust", 60), ("set", 60))):
        sc += generated(ctx, p, n * (8 if THOROUGH else 1), SEED * 100 + 80 + i)
    check(ctx, exe, sc)


# ---------------------------------------------------------------- C21
def page_scripts(full=False):
    out = []
    rnd = random.Random(SEED + 2)
    for c in ALLCFG:
        for pset, poison in ((0, "0"), (1, "0"), (1, "a5a5a5a5a5a5a5a5")):
            for stride, ilen in ((4096, 8), (4096, 1024), (8192, 2048), (8192, 4096), (16384, 8192), (16384, 16384)):
                for nc in (1, 3):
                    mk = create(stride=stride, ilen=ilen, nc=nc, mx=3, pset=pset, poison=poison, **c)
                    cpus = nc if c["typ"] == 0 else 1
                    # allocation alone, in every way that brings no content
                    s = ["pages", mk]
                    n = min(stride // ilen + 1, 6)
                    s += ["malloc 0 %s %d %d 99" % ("pzi"[h % 3], h, ilen) for h in range(n)]
                    s += ["free %d" % h for h in range(n)]
                    s += ["malloc 0 %s %d %d 99" % ("zip"[h % 3], n + h, ilen) for h in range(n)]
                    out.append(s + END)
                    # one CPU stores: the others stay as they are
                    for cpu in range(cpus):
                        s = ["pages", mk, "malloc 0 z 0 0 0", "malloc 0 p 1 0 0", "write 0 %d 3" % cpu, "free 0", "malloc 0 z 2 0 0", "write 1 %d 99" % cpu,
                             "free 1", "malloc 0 i 3 %d 99" % ilen, "poke 2 %d -1" % cpu, "free 2", "malloc 0 z 4 0 0", "malloc 0 z 5 0 0"]
                        out.append(s + END)
                    # initial content, full and partial, on fresh, reused and shared pages
                    s = ["pages", mk, "malloc 0 i 0 %d 4" % ilen, "malloc 0 i 1 %d 4" % max(ilen // 2, 1), "free 0", "malloc 0 i 2 %d 4" % ilen, "malloc 0 z 3 0 0",
                         "write 3 %d 4" % (cpus - 1), "free 1", "malloc 0 i 4 %d 5" % ilen, "free 3", "malloc 0 z 5 0 0"]
                    out.append(s + END)
                    for _ in range(4 if full else 1):
                        s, live, h = ["pages", mk], [], 0
                        for _ in range(60 if full else 25):
                            x = rnd.random()
                            if live and x < 0.35:
                                s.append("free %d" % live.pop(rnd.randrange(len(live))))
                            elif live and x < 0.5:
                                s.append("%s %d %d %d" % (rnd.choice(("write", "poke")), rnd.choice(live), rnd.randrange(cpus), rnd.choice((1, 2, 99))))
                            elif len(live) < 8:
                                s.append("malloc 0 %s %d %d %d" % (rnd.choice("pzzi"), h, rnd.choice((ilen, ilen, ilen // 2)), rnd.choice((99, 99, 7))))
                                live.append(h)
                                h += 1
                        out.append(s + END)
    return out


def c21(ctx):
    exe = build(ctx)
    design(ctx, ("InitRobust", "InitPlain", "ZeroRobust", "ZeroPlain", "ZeroRobustP0", "ZeroPlainP0"), (("AlwaysZero", "Lazy"), ("AlwaysPoison", "Lazy")))
    sc = page_scripts(THOROUGH)
    for i, (p, n) in enumerate((("mix", 150), ("content", 150), ("set", 60), ("robust", 60))):
        sc += [["pages"] + s for s in generated(ctx, p, n * (8 if THOROUGH else 1), SEED * 100 + 90 + i)]
    check(ctx, exe, sc)


CHECKS = {"C21": c21, "C10": c10, "C11": c11, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}
