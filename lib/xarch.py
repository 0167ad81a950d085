"""The helpers of the architectures this machine is not: cross-compiled with clang, executed by the instruction-set
simulators of xisa.py under the same virtual kernel as harness/cs.c, producing the same events for RseqCsTrace.

An architecture whose code cannot be built here, or that uses an instruction the simulators do not know, is left out and
named in the evidence; it never raises an alarm."""
import os, random, re, struct
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from core import *
import xisa

LLD = "/usr/lib/llvm-18/bin/ld.lld"
TARGETS = {
    "aarch64": dict(t="aarch64-linux-gnu", cpu=xisa.AArch64, w=64),
    # too few registers for operands that are all unknown at compile time: the targets are at fixed places (XGLOBAL in xw.c)
    "i386": dict(t="i386-linux-gnu", cpu=xisa.I386, w=32, fl=["-march=i686", "-DXGLOBAL", "-fomit-frame-pointer", "-fno-pic"],
                 ld=["--defsym=x_v=0x20001100", "--defsym=x_v2=0x20001140", "--defsym=x_load=0x20001180"],
                 only=lambda op, k, a: a[0] == 0x20001100 and (op != "cbeq" or (a[2] == 8 and a[3] == 0x20001180)) and (op not in ("ss", "cbne2") or a[2] == 0x20001140)),
    "arm": dict(t="armv7-linux-gnueabihf", cpu=xisa.Arm, w=32, fl=["-mtp=cp15"], sub=[(r"%r(\d)", r"r\1")]),
    "riscv64": dict(t="riscv64-linux-gnu", cpu=xisa.Riscv64, w=64),
    "ppc64": dict(t="powerpc64-linux-gnu", cpu=xisa.Ppc, w=64, big=1),
    "ppc64le": dict(t="powerpc64le-linux-gnu", cpu=xisa.PpcLe, w=64),
    "ppc32": dict(t="powerpc-linux-gnu", cpu=xisa.Ppc32, w=32, big=1),
    "s390x": dict(t="s390x-linux-gnu", cpu=xisa.S390x, w=64, big=1, fl=["-march=z10"], od=["--mcpu=z10"]),
    # GNU as accepts "addiu $d, $reg" for addu and "addi.d" with a register for add.d; LLVM's assembler does not
    "mips32": dict(t="mips-linux-gnu", cpu=xisa.Mips, w=32, big=1, fl=["-mno-abicalls", "-fno-pic"],
                   sub=[(r"(?m)^(\s*d?)addiu(\s+\$[0-9]+, *\$[0-9a-z]+)\s*$", r"\1addu\2")]),
    "mips64el": dict(t="mips64el-linux-gnuabi64", cpu=xisa.Mips64, w=64, fl=["-mno-abicalls", "-fno-pic"],
                     sub=[(r"(?m)^(\s*d?)addiu(\s+\$[0-9]+, *\$[0-9a-z]+)\s*$", r"\1addu\2")]),
    "loongarch64": dict(t="loongarch64-linux-gnu", cpu=xisa.Loong, w=64, sub=[(r"(?m)addi\.d(.*, \$[a-z0-9]+)$", r"add.d\1")]),
}
CC = ["-w", "-nostdlibinc", "-ffreestanding", "-fno-jump-tables", "-fno-integrated-as"]


class Skip(Exception):
    pass


class Image:
    pass


def build(d, name, opt, twice=False):
    T = TARGETS[name]
    out = os.path.join(d, "x-%s%s%s" % (name, opt, "-t" if twice else ""))
    fl = ["--target=" + T["t"]] + T.get("fl", [])
    rc, o, e = run(["clang"] + fl + CC + [opt] + (["-DTWICE"] if twice else []) + ["-I" + os.path.join(HARN, "xinc"), "-I" + os.path.join(REPO, "include"),
                   "-S", os.path.join(HARN, "xw.c"), "-o", out + ".s"], timeout=300)
    if rc:
        raise Skip("does not compile: " + e[-300:])
    s = open(out + ".s").read()
    for a, b in T.get("sub", []):
        s = re.sub(a, b, s)
    open(out + ".s", "w").write(s)
    for cmd in (["clang"] + fl + ["-w", "-c", out + ".s", "-o", out + ".o"], [LLD, "-static", "-o", out + ".elf", out + ".o"] + T.get("ld", [])):
        rc, o, e = run(cmd, timeout=300)
        if rc:
            raise Skip("does not assemble or link: " + e[-300:])
    return out + ".elf"


def load(path, name):
    T = TARGETS[name]
    b = open(path, "rb").read()
    I = Image()
    I.name, I.w, I.big = name, T["w"], bool(T.get("big"))
    en = ">" if I.big else "<"
    I.en = "big" if I.big else "little"
    c64 = b[4] == 2
    U = lambda f, o: struct.unpack_from(en + f, b, o)
    if c64:
        phoff, shoff = U("QQ", 32)
        phsz, phn, shsz, shn, shstr = U("HHHHH", 54)
    else:
        phoff, shoff = U("II", 28)
        phsz, phn, shsz, shn, shstr = U("HHHHH", 42)
    I.segs = []
    for i in range(phn):
        o = phoff + i * phsz
        if c64:
            ty, fl, off, va, pa, fs, ms = U("IIQQQQQ", o)
        else:
            ty, off, va, pa, fs, ms, fl = U("IIIIIII", o)
        if ty == 1 and ms:
            I.segs.append((va, ms, b[off:off + fs]))
    secs = []
    for i in range(shn):
        o = shoff + i * shsz
        n, ty = U("II", o)
        if c64:
            fl, ad, off, sz, lk = U("QQQQI", o + 8)
        else:
            fl, ad, off, sz, lk = U("IIIII", o + 8)
        secs.append((n, ty, ad, off, sz, lk))
    stro = secs[shstr][3]
    cs = lambda o: b[o:b.index(b"\0", o)].decode()
    I.sec = {cs(stro + s[0]): s for s in secs}
    I.sym = {}
    for s in secs:
        if s[1] == 2:
            st = secs[s[5]][3]
            for o in range(s[3], s[3] + s[4], 24 if c64 else 16):
                if c64:
                    n, info, oth, sh, v, sz = U("IBBHQQ", o)
                else:
                    n, v, sz, info, oth, sh = U("IIIBBH", o)
                I.sym[cs(st + n)] = v
    u64s = lambda nm: [U("Q", I.sec[nm][3] + k)[0] for k in range(0, I.sec[nm][4], 8)] if nm in I.sec else []
    I.descs = u64s("__rseq_cs_ptr_array")
    e = u64s("__rseq_exit_point_array")
    I.exits = set(zip(e[::2], e[1::2]))
    # code
    rc, o, er = run(["llvm-objdump", "-d", "-z", "--no-show-raw-insn"] + T.get("od", []) + [path], timeout=120)
    if rc:
        raise Skip("cannot be disassembled: " + er[-200:])
    code, last = [], None
    for ln in o.splitlines():
        m = re.match(r"^\s*([0-9a-f]+):\s+(.*)$", ln)
        if m:
            code.append([int(m.group(1), 16), m.group(2)])
            last = code[-1]
        elif last is not None and ln.strip() and not ln.endswith(">:") and "Disassembly" not in ln:
            last[1] += "\n" + ln
    I.code = {}
    for i, (a, t) in enumerate(code):
        ls = [x.strip() for x in t.split("\n")]
        ls = [x for x in ls if x and not x.startswith(".set")]
        t = ls[0] if ls else "?"
        t = re.sub(r"\s*<[^>]*>", "", re.sub(r"\s+(@|//|;|#) .*$", "", t)).strip()
        p = t.split(None, 1)
        ops = split(p[1]) if len(p) > 1 else []
        sz = code[i + 1][0] - a if i + 1 < len(code) else 4
        I.code[a] = (sz if 0 < sz <= 15 else 4, p[0] if p else "?", ops)
    I.start = {}
    return I


def split(s):
    """operands, not splitting inside brackets"""
    r, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += c
    return r + [cur.strip()] if cur.strip() else r


ARENA, ARENA_SZ, STACK, TP, STOP, ARGP = 0x20000000, 3 * 4096, 0x28000000, 0x29000000, 0x2fff0000, 0x2a000000
AREA = TP + 0x800
MAXSTEP = 6000


def WD(x):
    return [(x >> (16 * i)) & 0xffff for i in range(4)]


class Kernel:
    """one call of one wrapper under the virtual kernel: port of harness/cs.c"""

    def __init__(self, img):
        T = TARGETS[img.name]
        self.I = img
        self.m = xisa.Mem(img.big)
        self.wb = img.w // 8
        self.mask = (1 << img.w) - 1
        for a, n, d in img.segs:
            self.m.map(a, n, d)
        self.m.map(ARENA, ARENA_SZ)
        self.m.map(STACK, 1 << 16)
        self.m.map(TP, 4096)
        self.m.map(ARGP, 4096)
        self.cpu = T["cpu"](self.m, img.code)
        self.arena = [s for s in self.m.seg if s[0] == ARENA][0][2]
        self.area = [s for s in self.m.seg if s[0] == TP][0][2]
        self.m.wr(img.sym["rseq_offset"], self.wb, AREA - TP)
        self.sig = self.m.rd(img.sym["x_sig"], 4)
        if "__global_pointer$" in img.sym:
            self.cpu.gp = img.sym["__global_pointer$"]
        if "_gp" in img.sym:
            self.cpu.gp = img.sym["_gp"]
        self.dcache = {}
        self.descs = set(img.descs)
        self.warmcs = 0

    def entry(self, fn):
        a = self.I.sym[fn]
        if self.I.name == "ppc64":      # function descriptor
            self.cpu.toc = self.m.rd(a + 8, 8)
            return self.m.rd(a, 8)
        return a

    def desc(self, p):
        d = self.dcache.get(p)
        if d is None:
            r = self.m.rd
            d = dict(p=p, ver=r(p, 4), fl=r(p + 4, 4), start=r(p + 8, 8), off=r(p + 16, 8), abort=r(p + 24, 8))
            d["sig"] = int(r(d["abort"] - 4, 4) == self.sig)
            d["end"] = d["start"] + d["off"]
            self.dcache[p] = d
        return d

    def listed(self, p):
        """ARM and MIPS announce a copy of the listed descriptor, placed next to the code"""
        if p in self.descs:
            return True
        c = lambda d: (d["ver"], d["fl"], d["start"], d["off"], d["abort"])
        return any(c(self.desc(q)) == c(self.desc(p)) for q in self.descs)

    @staticmethod
    def insec(d, ip):
        return d is not None and d["start"] <= ip < d["end"]

    def scan(self):
        ev = [dict(e="scan", n=len(self.I.descs))]
        for p in self.I.descs:
            d = self.desc(p)
            ev.append(dict(e="desc", al=int(p & 31 == 0), ver=int(d["ver"] != 0), fl=int(d["fl"] != 0), sig=d["sig"], listed=1,
                           out=int(not self.insec(d, d["abort"]) and 0 < d["off"] < 4096), start=1))
        return ev

    def ids(self):
        if self.C["reg"]:
            for o, v in ((0, self.vcpu), (4, self.vcpu), (20, 7), (24, self.vcid)):
                self.m.wr(AREA + o, 4, v)
            self.fsh = self.fields()

    def fields(self):
        a = self.area[AREA - TP:AREA - TP + 128]
        return bytes(a[:8] + a[16:])

    def run(self, C, plan=(), warm=False, order=False):
        m, cpu, w = self.m, self.cpu, self.wb
        self.C = C
        if C["stale"] == 2 and not warm:
            self.run(dict(C), (), True)
            self.warmcs = m.rd(AREA + 8, 8)
            self.C = C
        self.arena[:] = b"\xa5" * ARENA_SZ
        mask = self.mask
        for a, v in C["mem"]:
            m.wr(a, w, v & mask)
        for i in range(C["len"]):
            m.wr(C["src"] + i, 1, 1 + (i * 37 + i // 251) % 250)
            m.wr(C["dst"] + i, 1, 0xEE)
        sh = bytearray(self.arena)
        self.area[AREA - TP:AREA - TP + 128] = b"\x5a" * 128
        m.wr(AREA + 16, 4, 0)
        m.wr(AREA + 8, 8, (0 if warm else self.warmcs) if C["stale"] == 2 else self.I.descs[0] if C["stale"] and self.I.descs else 0)
        self.vcpu, self.vcid = C["cpu_id"], C["cid"]
        if C["reg"]:
            self.ids()
        else:
            for o, v in ((0, 0), (4, C["cpu_id"]), (20, 0), (24, 0)):
                m.wr(AREA + o, 4, v & 0xffffffff)
        self.fsh = self.fields()
        for i in range(6):
            m.wr(ARGP + i * w, w, C["a"][i] & mask)
        for i, v in enumerate((C["cpu"], C["mo"], C["mode"])):
            m.wr(ARGP + (6 + i) * w, w, v & mask)
        live = [(0x1111111111111111 * (i + 1) + i) & mask for i in range(12)]
        for i in range(12):
            m.wr(ARGP + (9 + i) * w, w, live[i])
            if i < 7:
                m.wr(ARGP + (21 + i) * w, w, 0)
        ev = [dict(e="call", op=C["wrap"].split("_")[0], k="", mo=C["mo"], mode=C["mode"], cpu=C["cpu"], reg=C["reg"], cpuid=C["cpu_id"],
                   cid=C["cid"] if C["reg"] else -1, len=C["len"], how=0, a=[WD(x & mask) for x in C["a"]],
                   m=[[WD(a), WD(v & mask)] for a, v in C["mem"]])]
        fn = self.entry("w_" + C["wrap"])
        cpu.f = {}
        cpu.stored = []
        cpu.log = [] if order else None
        cpu.begin(fn, ARGP, STACK + 0xf000, TP, STOP)
        lastcs, desc, left, passed, prev, n = m.rd(AREA + 8, 8), None, False, False, 0, 0
        csb = AREA - TP + 8
        lastb = bytes(self.area[csb:csb + 8])
        plan = dict(plan)
        dst0, dst1 = C["dst"], C["dst"] + C["len"]
        badseen = False
        while True:
            ip = cpu.pc
            # --- observe
            post = desc is not None and ip == desc["end"] and self.insec(desc, prev)
            if cpu.stored:
                areaw = False
                for a, k in cpu.stored:
                    if ARENA <= a < ARENA + ARENA_SZ:
                        i = a - ARENA
                        while i < a - ARENA + k:
                            if self.arena[i] == sh[i]:
                                i += 1
                            elif dst0 <= ARENA + i < dst1:
                                ev.append(dict(e="stb", i=ARENA + i - dst0, b=self.arena[i]))
                                sh[i] = self.arena[i]
                                i += 1
                            else:
                                j = i & ~(w - 1)
                                e = dict(e="st", a=WD(ARENA + j), v=WD(m.rd(ARENA + j, w)), post=int(post))
                                if order:
                                    e["ord"] = self.ordered(a)
                                ev.append(e)
                                sh[j:j + w] = self.arena[j:j + w]
                                i = j + w
                    elif AREA <= a < AREA + 128:
                        areaw = True
                if areaw and self.fields() != self.fsh:
                    ev.append(dict(e="area"))
                    self.fsh = self.fields()
                cpu.stored = []
            if desc is not None and self.insec(desc, prev) and not self.insec(desc, ip) and ip != desc["abort"] and not post:
                left, passed = True, False
            if left and (desc["start"], ip) in self.I.exits:
                passed = True
            b = bytes(self.area[csb:csb + 8])
            rearm = desc is not None and lastcs and ip == desc["start"] and not self.insec(desc, prev)
            if not rearm and lastcs and desc is None and ip == self.desc(lastcs)["start"]:
                rearm = True
            if b != lastb or rearm:
                if left and not passed:
                    ev.append(dict(e="badexit"))
                left = False
                lastb, lastcs = b, int.from_bytes(b, self.I.en)
                if lastcs:
                    try:
                        d = desc = self.desc(lastcs)
                        ev.append(dict(e="arm", al=int(lastcs & 31 == 0), ver=int(d["ver"] != 0), fl=int(d["fl"] != 0), sig=d["sig"], listed=int(self.listed(lastcs)),
                                       out=int(not self.insec(d, d["abort"])), start=int(ip == d["start"])))
                    except xisa.Fault:
                        ev.append(dict(e="arm", al=0, ver=0, fl=0, sig=0, listed=0, out=0, start=0))
                        desc = None
                else:
                    ev.append(dict(e="disarm"))
            prev = ip
            # --- end of the call
            if ip == STOP:
                break
            # --- interruptions planned here
            if n in plan:
                v = C["variants"][plan[n]]
                res = "none"
                if lastcs and C["reg"]:
                    try:
                        d = self.desc(lastcs)
                    except xisa.Fault:
                        d = None
                    if d is None:
                        res = "kill"
                    elif not self.insec(d, ip):
                        res = "clear"
                    elif d["ver"] or d["fl"] or not d["sig"] or self.insec(d, d["abort"]) or lastcs & 31:
                        res = "kill"
                    else:
                        res = "abort"
                        cpu.pc = prev = d["abort"]
                        left = False
                    m.wr(AREA + 8, 8, 0)
                    lastcs, lastb = 0, b"\0" * 8
                if v[0] >= 0:
                    self.vcpu, self.vcid = v[0], v[1]
                    self.ids()
                wr = []
                for a, x in v[2]:
                    m.wr(a, w, x & mask)
                    sh[a - ARENA:a - ARENA + w] = self.arena[a - ARENA:a - ARENA + w]
                    wr.append([WD(a), WD(x & mask)])
                ev.append(dict(e="irq", res=res, cpu=self.vcpu if C["reg"] else -1, cid=self.vcid if C["reg"] else -1, w=wr))
                if cpu.log is not None:
                    cpu.log.append(("i", 0, 0, ""))
            n += 1
            if n > MAXSTEP:
                ev.append(dict(e="hang"))
                self.n = n
                return ev
            try:
                cpu.step()
            except xisa.Fault as f:
                ev.append(dict(e="crash", sig=11))
                self.n = n
                return ev
        self.n = n
        if left and not passed:
            ev.append(dict(e="badexit"))
        lv = int(all(m.rd(ARGP + (9 + i) * w, w) == live[i] for i in range(12)) and
                 all(m.rd(ARGP + (21 + i) * w, w) == C["a"][i] & mask for i in range(6) if "_k" not in C["wrap"]) and
                 m.rd(ARGP + 27 * w, w) == C["cpu"] & mask)
        rc = xisa.sx(cpu.g(cpu.ret), 32)
        cp = int(all(m.rd(C["dst"] + i, 1) == m.rd(C["src"] + i, 1) for i in range(C["len"])))
        un = int(all(m.rd(C["dst"] + i, 1) == 0xEE for i in range(C["len"])))
        ev.append(dict(e="ret", rc=rc, live=lv, cp=cp, un=un))
        return ev

    def ordered(self, a):
        return 1


CACHE = {}


def kernel(path, name):
    if path not in CACHE:
        CACHE[path] = Kernel(load(path, name))
    return CACHE[path]


def work(arg):
    """simulate a list of (case index, case, command) on one build"""
    path, name, items = arg
    try:
        k = kernel(path, name)
        out = []
        for i, c, cmd in items:
            if c is None:
                out.append((-1, "scan", k.scan()))
                continue
            if "w_" + c["wrap"] not in k.I.sym:
                continue
            if cmd.startswith("RUN"):
                plan = [] if cmd == "RUN -" else [tuple(int(y) for y in x.split(":")) for x in cmd[4:].split(",")]
                out.append((i, cmd[4:], k.run(c, plan)))
                continue
            base = k.run(c)
            n = k.n
            out.append((i, "-", base))
            seen = {repr(base)}
            plans = []
            if cmd == "SWEEP":
                plans = [((b, v),) for b in range(n) for v in range(len(c["variants"]))]
            elif cmd.startswith("PAIRS"):
                rng = random.Random(int(cmd.split()[2]))
                for _ in range(int(cmd.split()[1])):
                    b = rng.randrange(n)
                    plans.append(((b, rng.randrange(len(c["variants"]))), (b + 1 + rng.randrange(n), rng.randrange(len(c["variants"])))))
            for p in plans:
                e = k.run(c, p)
                r = repr(e)
                if r not in seen:
                    seen.add(r)
                    out.append((i, ",".join("%d:%d" % x for x in p), e))
        return out, sum(1 for _ in items)
    except Exception as e:      # outside what the simulators know: the build is left out
        return "%s: %s" % (type(e).__name__, e)


def usable(c):
    return c["dst"] < 0x30000000 and not (c["wrap"].startswith("mcs") and c["a"][4] > 300)


def simulate(ctx, builds, cmds_for):
    """builds: [(target, opt, twice)]; returns {word size: [(descriptor, events)]} and a function that repeats one"""
    paths, left = {}, {}

    def b(x):
        try:
            return x, build(ctx.dir, *x)
        except Skip as e:
            return x, e
    with ThreadPoolExecutor(NPROC) as ex:
        for x, r in ex.map(b, builds):
            if isinstance(r, Skip):
                left["%s %s%s" % (x[0], x[1], " twice" if x[2] else "")] = str(r)[:200]
            else:
                paths[x] = r
    tasks = []
    byi = {}
    for x, p in paths.items():
        items = [(-1, None, "scan")]
        for i, (c, cmd) in enumerate(cmds_for(x)):
            if usable(c) and TARGETS[x[0]].get("only", lambda *y: True)(c["wrap"].split("_")[0], c["wrap"], c["a"]):
                items.append((i, c, cmd))
                byi[x, i] = c
        for k in range(0, len(items), 60):
            tasks.append((x, (p, x[0], items[k:k + 60])))
    res, bad = {32: [], 64: []}, set()
    with ProcessPoolExecutor(NPROC) as ex:
        for (x, _), r in zip(tasks, ex.map(work, [t[1] for t in tasks])):
            nm = "%s %s%s" % (x[0], x[1], " twice" if x[2] else "")
            if isinstance(r, str):
                left[nm] = r[:200]
                bad.add(x)
                continue
            for i, plan, ev in r[0]:
                res[TARGETS[x[0]]["w"]].append(({"build": "x/%s/%s/%d" % (x[0], x[1], int(x[2])), "case": byi.get((x, i)), "plan": plan}, ev))
    for w in res:
        res[w] = [(d, e) for d, e in res[w] if not any(d["build"] == "x/%s/%s/%d" % (x[0], x[1], int(x[2])) for x in bad)]
    ctx.notes["other architectures"] = ["%s %s%s" % (x[0], x[1], " twice" if x[2] else "") for x in paths if x not in bad]
    if left:
        ctx.notes["architectures left out"] = left

    def again(desc):
        _, n, o, t = desc["build"].split("/")
        r = work((paths[n, o, bool(int(t))], n, [(0, desc["case"], "scan" if desc["plan"] == "scan" else "RUN " + desc["plan"])]))
        if isinstance(r, str):
            raise Internal(r)
        return r[0][0][2]
    return res, again


# ---------------------------------------------------------------------- ordering: accesses and fences of litmus threads
MOEXTRA = """
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
void abort(void) { for (;;) ; }
void *stderr; int fprintf(void *f, const char *s, ...) { for (;;) ; }
const uint32_t x_sig = RSEQ_SIG;
const int x_pages = 4096;
void __start(void) {}
void _start(void) {}
"""


def assembles(d, name, tag, code):
    """whether a snippet compiles and assembles for the target"""
    T = TARGETS[name]
    out = os.path.join(d, tag)
    open(out + ".c", "w").write(code)
    fl = ["--target=" + T["t"]] + T.get("fl", [])
    rc, o, e = run(["clang"] + fl + CC + ["-O2", "-I" + os.path.join(HARN, "xinc"), "-I" + os.path.join(REPO, "include"), "-S", out + ".c", "-o", out + ".s"], timeout=300)
    if rc:
        return False
    s = open(out + ".s").read()
    for a, b in T.get("sub", []):
        s = re.sub(a, b, s)
    open(out + ".s", "w").write(s)
    return run(["clang"] + fl + ["-w", "-c", out + ".s", "-o", out + ".o"], timeout=300)[0] == 0


PAT = [0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x0123456789abcdef,
       0xfedcba9876543210, 0x00ff00ff00ff00ff, 0x1122334455667788, 0x8877665544332211]


def val_record(path, name, ents):
    """every value of every type through every primitive; 'val' events"""
    try:
        img = load(path, name)
        w, m = img.w // 8, xisa.Mem(img.big)
        for a, n, d in img.segs:
            m.map(a, n, d)
        m.map(STACK, 1 << 16)
        m.map(TP, 4096)
        m.map(ARGP, 4096)
        cpu = TARGETS[name]["cpu"](m, img.code)
        for g in ("__global_pointer$", "_gp"):
            if g in img.sym:
                cpu.gp = img.sym[g]
        r = []
        for i, (op, t, sz, sg) in enumerate(ents):
            for v in PAT:
                v = v & 1 if t == "bool" else v & ((1 << 8 * sz) - 1)
                for o in range(0, 128, 8):
                    m.wr(ARGP + o, 8, 0xa5a5a5a5a5a5a5a5)
                m.wr(ARGP, sz, v)
                fn = m.rd(img.sym["x_vals"] + i * w, w)
                if name == "ppc64":
                    cpu.toc, fn = m.rd(fn + 8, 8), m.rd(fn, 8)
                cpu.f, cpu.stored = {}, []
                cpu.begin(fn, ARGP, STACK + 0xf000, TP, STOP)
                n = 0
                while cpu.pc != STOP and n < 2000:
                    cpu.step()
                    n += 1
                out = m.rd(ARGP + 32, 8)
                ok = n < 2000 and all(m.rd(ARGP + k, 1) == 0xa5 for k in list(range(40, 64)) + list(range(64 + sz, 128)))
                B = lambda x: [(x >> 8 * k) & 255 for k in range(8)]
                r.append({"e": "val", "op": op, "type": t, "size": sz, "signed": bool(sg), "around": ok, "in": B(v), "out": B(out)})
        return r
    except (xisa.Unknown, KeyError) as e:
        return "%s: %s" % (type(e).__name__, e)
    except xisa.Fault as e:
        return [{"e": "val", "op": "crash", "type": name, "size": 1, "signed": False, "around": False, "in": [0] * 8, "out": [0] * 8}]


def build_mo(d, name, opt, ty, src, more=[]):
    T = TARGETS[name]
    out = os.path.join(d, "xmo-%s%s-%s" % (name, opt, re.sub(r"\W", "", ty.replace("*", "p"))))
    fl = ["--target=" + T["t"]] + T.get("fl", [])
    rc, o, e = run(["clang"] + fl + CC + more + [opt] + (["-DT=" + ty] if ty != "val" else []) + ["-I" + os.path.join(HARN, "xinc"), "-I" + os.path.join(REPO, "include"), "-I" + HARN, "-S", src, "-o", out + ".s"], timeout=300)
    if rc:
        raise Skip("does not compile: " + e[-300:])
    s = open(out + ".s").read()
    for a, b in T.get("sub", []):
        s = re.sub(a, b, s)
    open(out + ".s", "w").write(s)
    for cmd in (["clang"] + fl + ["-w", "-c", out + ".s", "-o", out + ".o"], [LLD, "-static", "-o", out + ".elf", out + ".o"] + T.get("ld", [])):
        rc, o, e = run(cmd, timeout=300)
        if rc:
            raise Skip("does not assemble or link: " + e[-300:])
    return out + ".elf"


class MoRec:
    """records the accesses to the shared variables and the fences of one litmus thread; every load gets a value of its own"""

    def __init__(self, path, name):
        img = load(path, name)
        k = Kernel.__new__(Kernel)
        T = TARGETS[name]
        self.I, self.w = img, img.w // 8
        m = self.m = xisa.Mem(img.big)
        for a, n, d in img.segs:
            m.map(a, n, d)
        m.map(STACK, 1 << 16)
        m.map(TP, 4096)
        m.map(ARGP, 4096)
        m.wr(img.sym["rseq_offset"], self.w, AREA - TP)
        rec = self
        base = T["cpu"]

        class C(base):
            def ld(self, a, n, signed=False, attr=""):
                rec.before(a & self.M, n, attr)
                return base.ld(self, a, n, signed, attr)

            def st(self, a, n, v, attr=""):
                base.st(self, a, n, v, attr)
                rec.after(a & self.M, n, attr)

            def fence(self, nm):
                rec.ev.append({"o": "F", "f": nm})
        self.cpu = C(m, img.code)
        if "__global_pointer$" in img.sym:
            self.cpu.gp = img.sym["__global_pointer$"]
        if "_gp" in img.sym:
            self.cpu.gp = img.sym["_gp"]
        self.ts = m.rd(img.sym["mo_tsize"], 4)
        self.vars, a = [], img.sym["mo_vars"]
        st = 3 * self.w
        while m.rd(a, self.w):
            self.vars.append((chr(m.rd(m.rd(a, self.w), 1)), m.rd(a + self.w, self.w), m.rd(a + 2 * self.w, 4)))
            a += st
        self.threads, a = [], img.sym["mo_threads"]
        while m.rd(a, self.w):
            self.threads.append((m.rd(a, self.w), m.rd(a + self.w, 4)))
            a += 2 * self.w

    def var(self, a):
        for v in self.vars:
            if v[1] <= a < v[1] + 4096:
                return v

    def before(self, a, n, attr):
        v = self.var(a)
        if v:
            self.nload += 1
            self.ev.append({"o": "R", "v": v[0], "at": attr})
            if not (self.helper and v[0] == "v"):
                for i in range(v[2]):
                    self.m.wr(v[1] + i, 1, 0 if self.nload == self.zeroat else 64 + self.nload)

    def after(self, a, n, attr):
        v = self.var(a)
        if v:
            b = [self.m.rd(v[1] + i, 1) for i in range(v[2])]
            out = not (v[1] <= a and a + n <= v[1] + v[2])
            self.ev.append({"o": "W", "v": v[0], "k": -3 if out else b[0] if len(set(b)) == 1 else -2, "at": attr})

    def rec(self, i, zero):
        fn, self.helper = self.threads[i]
        m, cpu = self.m, self.cpu
        self.zeroat, self.nload, self.ev = zero, 0, []
        for v in self.vars:
            m.wr(v[1], v[2], 0)
        for o in range(128):
            m.wr(AREA + o, 1, 0)
        for o in range(12):
            m.wr(ARGP + 8 * o, 8, (1 << 64) - 1)
        if self.I.name == "ppc64":
            cpu.toc, fn = m.rd(fn + 8, 8), m.rd(fn, 8)
        cpu.f, cpu.stored = {}, []
        cpu.begin(fn, ARGP, STACK + 0xf000, TP, STOP)
        n = 0
        try:
            while cpu.pc != STOP:
                cpu.step()
                cpu.stored = []
                n += 1
                if n > 20000:
                    return {"m": [], "r": [], "err": "hang"}
        except xisa.Fault:
            return {"m": [], "r": [], "err": "crash"}
        r = []
        for o in range(12):
            x = m.rd(ARGP + 8 * o, 8)
            b = x & 0xff
            rep = b * 0x0101010101010101
            if x == (1 << 64) - 1:
                r.append({"o": "N", "n": 0})
            elif x in (rep, rep & ((1 << (8 * self.ts)) - 1), rep & ((1 << (8 * self.w)) - 1)):
                r.append({"o": "L" if b > 64 else "C", "n": b - 64 if b > 64 else b})
            else:
                r.append({"o": "C", "n": -2})
        return {"m": self.ev, "r": r}


def mo_record(arg):
    """recordings of all threads: {i: {m, r, z, zr}}, or why not"""
    path, name, deciding = arg
    try:
        R = MoRec(path, name)
        res = {}
        for i, c in enumerate(deciding):
            a = R.rec(i, 0)
            b = a
            if c >= 0 and not a.get("err") and a["r"][c]["o"] == "L":
                b = R.rec(i, a["r"][c]["n"])
            if b.get("err"):
                a = b
            a = dict(a)
            a.update(z=b["m"], zr=b["r"])
            res[i] = a
        return res
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
