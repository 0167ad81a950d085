"""C09 (CPU detection) and C20 (NUMA placement): what the library asks of, and concludes from, its environment."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from core import *


# ------------------------------------------------------------------ C09
SW = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "read", "pread", "close", "fopen", "opendir", "readdir", "closedir", "sysconf"))]


def ltext(rs):
    return ",".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in rs)


def step(rs=None, nl=1, reads=(), conf=4, dirs=(0, 1), err=0, raw=None, odd=(), nodir=0):
    """rs: ranges the kernel lists; err: open fails; raw: a text that is no list; a failing read makes the list unobtainable"""
    text = raw if raw is not None else ltext(rs or []) + ("\n" if nl else "")
    got = rs if rs and not err and raw is None and not any(r < 0 and r != -4 for r in reads) else []
    names = ["cpu%d" % d for d in dirs] + list(odd)
    return dict(line="|".join(["!%d" % err if err else text.replace("\n", "N"), ",".join(map(str, reads)), str(conf), "!" if nodir else " ".join(names)]),
                ev=dict(e="detect", rs=got, nl=nl, text=[ord(c) for c in text] if got else [], conf=conf, dirs=[] if nodir else list(dirs)))


def smp_cases(rng):
    one = lambda **k: [step(**k)]
    r = []
    lists = [[[0, 0]], [[5, 5]], [[0, 7]], [[0, 1]], [[0, 0], [2, 2]], [[0, 3], [8, 11]], [[0, 0], [9, 9], [11, 11]], [[0, 9]], [[0, 99]], [[0, 127]], [[0, 1023]],
             [[0, 4095]], [[0, 8191]], [[1, 1]], [[7, 7]], [[3, 9]], [[0, 2], [4, 4]], [[0, 2], [10, 10]], [[9, 9], [100, 100]], [[0, 0], [2, 5], [10, 199]], [[63, 64]],
             [[0, 65535]], [[10, 10]], [[0, 10]], [[0, 19], [100, 119], [1000, 1019]], [[99, 100]], [[0, 0], [1000, 1000]]]
    # exhaustively, all sets of up to 8 small ids
    small = []
    for m in range(1, 1 << 6):
        ids = [i for b, i in enumerate((0, 1, 2, 9, 10, 11)) if m >> b & 1]
        rs = []
        for i in ids:
            if rs and rs[-1][1] == i - 1:
                rs[-1][1] = i
            else:
                rs.append([i, i])
        small.append(rs)
    for rs in lists + small:
        for nl in (1, 0):
            r.append(one(rs=rs, nl=nl, conf=1, dirs=(0,)))
            r.append(one(rs=rs, nl=nl, conf=99999, dirs=(77777,)))
    # every split of the reads, interrupted or not
    for rs in lists:
        n = len(ltext(rs)) + 1
        for k in range(1, min(n, 12)):
            r.append(one(rs=rs, reads=[k]))
            r.append(one(rs=rs, reads=[k, -4]))
            r.append(one(rs=rs, reads=[-4, k, -4, -4, 1]))
            r.append(one(rs=rs, reads=[k] * (n + 2), nl=k % 2))
        r.append(one(rs=rs, reads=[1] * n + [-4, -4]))
        for k in range(0, min(n + 1, 6)):           # failing half-way: fall back
            for e in (5, 14, 12, 11):
                r.append(one(rs=rs, reads=[1] * k + [-e], conf=3, dirs=(0, 6)))
    # long lists: up to a page
    for target in (100, 1000, 2047, 2048, 2049, 4000, 4090, 4093, 4094, 4095):
        for style in (0, 1, 2):
            rs, x = [], 0
            while True:
                w = 0 if style == 0 else rng.randrange(0, 3) if style == 1 else 7
                nrs = rs + [[x, x + w]]
                if len(ltext(nrs)) + 1 > target:
                    break
                rs = nrs
                x += w + 2 + (rng.randrange(0, 5) if style else 0)
            # fill up to exactly the target with a longer last id where possible
            for extra in range(1, 8):
                big = rs[:-1] + [[10 ** (extra) + 5, 10 ** (extra) + 5]]
                if rs[:-1] and big[-1][0] > rs[-2][1] + 1 and len(ltext(big)) + 1 == target:
                    rs = big
                    break
            for nl in (1, 0):
                for reads in ([], [1000] * 6, [4095], [1] * 50, [-4, 2048, -4, 2000], [len(ltext(rs))], [len(ltext(rs)) - 1], [len(ltext(rs)) - 1, 1, -4]):
                    r.append(one(rs=rs, nl=nl, reads=reads, conf=2, dirs=(0, 1)))
    # no list: fall back
    for raw, err in ((None, 2), (None, 13), ("", 0), ("\n", 0), ("garbage\n", 0)):
        for conf in (-1, 0, 1, 4, 8, 200):
            for dirs, odd, nodir in (((0, 1, 2), ("cpufreq", "cpuidle", "power", "smt"), 0), ((3, 0, 11, 2), (".", "..", "~uevent", "~possible"), 0), ((), ("cpufreq",), 0), ((), (), 1),
                                     ((9, 10), ("~cpu99", "microcode"), 0), ((0,), (), 0), ((99, 100, 5), (), 0), ((4095, 17), ("cpu", "cpufreq"), 0), (tuple(range(300, -1, -1)), (), 0)):
                r.append(one(raw=raw, err=err, conf=conf, dirs=dirs, odd=odd, nodir=nodir))
    # several calls: a total failure is not remembered, an answer is stable
    fail = lambda: step(err=2, conf=-1, nodir=1)
    for rs in lists[:8]:
        r.append([fail(), fail(), step(rs=rs), step(rs=rs)])
        r.append([step(rs=rs), step(rs=rs, reads=[1] * 5)])
        r.append([step(raw="\n", conf=0, dirs=()), step(rs=rs)])
    r.append([fail(), step(err=2, conf=5, nodir=1), step(err=2, conf=5, nodir=1)])
    for i in range(2000 if THOROUGH else 200):
        ids, x = [], rng.choice([0, 0, 0, 3, 17])
        for _ in range(rng.choice([1, 2, 3, 5, 20, 100])):
            w = rng.choice([0, 0, 1, 3, 15, 63, 255])
            ids.append([x, x + w])
            x += w + rng.choice([2, 3, 10, 64, 1000])
        reads = [rng.choice([1, 2, 3, 7, 100, -4]) for _ in range(rng.randrange(0, 30))]
        if len(ltext(ids)) < 4095:
            r.append(one(rs=ids, nl=rng.randrange(2), reads=reads, conf=rng.choice([1, 64]), dirs=(0, 1)))
    return r


def smp_exec(binary, cases):
    n = min(NPROC, max(1, len(cases) // 50))
    chunks = [cases[i::n] for i in range(n)]

    def go(ch):
        rc, out, err = run([binary], input=("\n".join(";".join(s["line"] for s in c) for c in ch) + "\n").encode(), timeout=600)
        ls = out.splitlines()
        if len(ls) != len(ch):
            raise Internal("CPU detection driver: %d answers to %d cases (rc %d) %s" % (len(ls), len(ch), rc, err[-500:]))
        res = []
        for c, l in zip(ch, ls):
            a = json.loads(l)
            evs = [{"e": "start"}]
            if isinstance(a, dict):
                evs.append({"e": "hang" if a["sig"] == 14 else "crash"})
            else:
                evs += [dict(s["ev"], rc=x[0], fds=x[1]) for s, x in zip(c, a)]
            res.append((c, evs))
        return res
    with ThreadPoolExecutor(n) as ex:
        return sum(ex.map(go, chunks), [])


def c09(ctx):
    mc(ctx, "CpuListMC", "CpuListMC")
    for v in ("OneRead", "IntrIsEof", "CommaOnly", "CacheError") if THOROUGH else ("OneRead",):
        mc(ctx, "CpuListMC", "CpuListMC" + v, expect_violation="Ok")
    b = cc(ctx, "smp", [os.path.join(HARN, "smp.c")] + repo_srcs(), SW)
    cases = smp_exec(b, smp_cases(random.Random(SEED)))
    validate(ctx, "CpuListTrace", "CpuListTrace", cases, lambda c: smp_exec(b, [c])[0][1], title="case")


# ------------------------------------------------------------------ C20
def numa_cases(rng):
    r = []
    B = 4096
    lens = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193,
            12288, 12289, 16384, 16385, 40000, 65536, 1 << 18, (1 << 18) + 1, (1 << 20) + 5]
    for n in lens:
        for flags in (2, 4):
            r.append("%d %d %d %d 0 0 0" % (n, n % 9, (n + flags) % 6, flags))
        r.append("%d 0 0 6 0 0 0" % n)
        r.append("%d 3 2 0 0 0 0" % n)          # no flags
        r.append("%d 3 -1 2 0 0 0" % n)         # no node
        r.append("%d 3 1 2 0 0 %d" % (n, rng.choice([1, 5, 5000])))     # some pages stay
        for k in (1, 2, 3, 5, 17):
            for e in (1, 2, 3, 12, 14, 22):
                r.append("%d 3 1 2 %d %d 0" % (n, k, e))
    for i in range(1500 if THOROUGH else 150):
        n = rng.choice([rng.randrange(0, 200), rng.randrange(0, 9000), rng.randrange(0, 70000)])
        r.append("%d %d %d %d %d %d %d" % (n, rng.randrange(0, 1000), rng.randrange(-1, 70), rng.choice([0, 2, 4, 2]), rng.choice([0, 0, 1, 2, 9]), rng.choice([1, 12, 22]), rng.choice([0, 0, 3])))
    for cpus in (1, 2, 3, 8):
        for o in (0, 1, 4, 7, 13):
            r.append("pool %d %d" % (cpus, o))
    return r


def numa_exec(b, which, lines):
    def go(ch):
        rc, out, err = run([b[which]], input=("\n".join(ch) + "\n").encode(), timeout=600)
        ls = out.splitlines()
        if len(ls) != len(ch):
            raise Internal("NUMA driver: %d answers to %d cases (rc %d) %s" % (len(ls), len(ch), rc, err[-500:]))
        return [(dict(build=which, case=c), json.loads(l)) for c, l in zip(ch, ls)]
    n = min(NPROC, max(1, len(lines) // 50))
    with ThreadPoolExecutor(n) as ex:
        return sum(ex.map(go, [lines[i::n] for i in range(n)]), [])


def c20(ctx):
    mc(ctx, "NumaMC", "NumaMC")
    for v in ("DropTail", "WholeBatches", "Overlap"):
        mc(ctx, "NumaMC", "NumaMC" + v, expect_violation="Ok")
    h = [os.path.join(HARN, "numa.c")]
    b = {"numa": cc(ctx, "numa", h + repo_srcs(), libs=("-ldl",)), "nonuma": cc(ctx, "nonuma", h + repo_srcs(), ["-UHAVE_LIBNUMA"], libs=("-ldl",))}
    lines = numa_cases(random.Random(SEED))
    cases = numa_exec(b, "numa", lines) + numa_exec(b, "nonuma", [l for l in lines if l[0] != "p"][:40])
    validate(ctx, "NumaTrace", "NumaTrace", cases, lambda d: numa_exec(b, d["build"], [d["case"]])[0][1], title="case")


CHECKS = {"C09": c09, "C20": c20}
