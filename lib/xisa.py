"""Instruction-set simulators for the architectures librseq supports, covering the instructions compilers emit for the
per-CPU helpers.  Input is the text of llvm-objdump; an instruction that is not known raises Unknown, and the caller
then leaves that architecture out (never an alarm)."""
import re


class Unknown(Exception):
    pass


class Fault(Exception):
    pass


def sx(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def num(s):
    s = s.strip().lstrip("#")
    neg = s.startswith("-")
    s = s[1:] if neg else s
    v = int(s, 16) if s.startswith("0x") else int(s)
    return -v if neg else v


class Mem:
    def __init__(self, big):
        self.order = "big" if big else "little"
        self.seg = []

    def map(self, a, n, data=b""):
        self.seg.append((a, a + n, bytearray(data) + bytearray(n - len(data))))

    def find(self, a, n):
        for lo, hi, b in self.seg:
            if lo <= a and a + n <= hi:
                return b, a - lo
        raise Fault(hex(a))

    def rd(self, a, n):
        b, o = self.find(a, n)
        return int.from_bytes(b[o:o + n], self.order)

    def wr(self, a, n, v):
        b, o = self.find(a, n)
        b[o:o + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, self.order)


class Cpu:
    """W: register width; r: registers by canonical name; hooks on_load/on_store/on_fence"""
    W = 64
    big = False

    def __init__(self, mem, code):
        self.m, self.code, self.r, self.pc = mem, code, {}, 0
        self.M = (1 << self.W) - 1
        self.log = None
        self.f = {}
        self.stored = []

    def g(self, n):
        return self.r.get(n, 0)

    def s(self, n, v):
        self.r[n] = v & self.M

    def ld(self, a, n, signed=False, attr=""):
        a &= self.M
        v = self.m.rd(a, n)
        if self.log is not None:
            self.log.append(("r", a, n, attr))
        return sx(v, 8 * n) & self.M if signed else v

    def st(self, a, n, v, attr=""):
        a &= self.M
        self.m.wr(a, n, v)
        self.stored.append((a, n))
        if self.log is not None:
            self.log.append(("w", a, n, attr))

    def fence(self, name):
        if self.log is not None:
            self.log.append(("f", 0, 0, name))

    def step(self):
        i = self.code.get(self.pc)
        if i is None:
            raise Fault("no code at %#x" % self.pc)
        size, mn, ops = i
        nx = self.pc + size
        t = self.ex(mn, ops, nx)
        self.pc = (nx if t is None else t) & self.M

    def tgt(self, o):
        return int(o.split()[0].lstrip("#"), 16)


# ---------------------------------------------------------------------- i386 (AT&T syntax)
class I386(Cpu):
    W = 32
    ret = "eax"
    SUB = {}
    for _r in "abcd":
        SUB["e%sx" % _r] = ("e%sx" % _r, 0, 32)
        SUB["%sx" % _r] = ("e%sx" % _r, 0, 16)
        SUB["%sl" % _r] = ("e%sx" % _r, 0, 8)
        SUB["%sh" % _r] = ("e%sx" % _r, 8, 8)
    for _r in ("si", "di", "bp", "sp"):
        SUB["e" + _r] = ("e" + _r, 0, 32)
        SUB[_r] = ("e" + _r, 0, 16)
    SZ = {"b": 1, "w": 2, "l": 4}

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"esp": sp}
        self.m.wr(sp + 4, 4, arg)
        self.m.wr(sp, 4, stop)
        self.m.wr(tp, 4, tp)
        self.tp, self.pc = tp, fn
        self.cf = self.zf = self.sf = self.of = 0

    def ea(self, o):
        b = 0
        if o.startswith("%gs:"):
            b, o = self.tp, o[4:]
        m = re.match(r"^(-?\w+)?(?:\((%\w+)?(?:,\s*(%\w+)(?:,\s*(\d))?)?\))?$", o)
        if not m or o.startswith("%"):
            raise Unknown(o)
        a = num(m.group(1)) if m.group(1) else 0
        if m.group(2):
            a += self.R(m.group(2))
        if m.group(3):
            a += self.R(m.group(3)) * int(m.group(4) or 1)
        return (b + (a & self.M)) & self.M

    def R(self, o):
        if o[1:] not in self.SUB:
            raise Unknown(o)
        n, sh, w = self.SUB[o[1:]]
        return (self.g(n) >> sh) & ((1 << w) - 1)

    def rd(self, o, n):
        if o[0] == "$":
            return num(o[1:]) & ((1 << 8 * n) - 1)
        return self.R(o) if o[0] == "%" and ":" not in o else self.ld(self.ea(o), n)

    def wr(self, o, n, v):
        if o[0] == "%" and ":" not in o:
            r, sh, w = self.SUB[o[1:]]
            k = ((1 << w) - 1) << sh
            return self.s(r, (self.g(r) & ~k) | ((v << sh) & k))
        self.st(self.ea(o), n, v)

    def flags(self, v, n, cf, of):
        v &= (1 << 8 * n) - 1
        self.zf, self.sf, self.cf, self.of = int(v == 0), v >> (8 * n - 1), int(cf), int(of)
        return v

    def add(self, a, b, n, c=0):
        k = (1 << 8 * n) - 1
        v = a + b + c
        r = v & k
        return self.flags(v, n, v > k, (~(a ^ b) & (a ^ r)) >> (8 * n - 1) & 1)

    def sub(self, a, b, n, c=0):
        k = (1 << 8 * n) - 1
        r = (a - b - c) & k
        return self.flags(r, n, a < b + c, ((a ^ b) & (a ^ r)) >> (8 * n - 1) & 1)

    def cond(self, c):
        z, s, o, f = self.zf, self.sf, self.of, self.cf
        t = {"e": z, "z": z, "s": s, "o": o, "b": f, "c": f, "be": f or z, "l": s != o, "le": z or s != o, "ae": not f, "nc": not f, "a": not (f or z), "g": not (z or s != o), "ge": s == o,
             "ne": not z, "nz": not z, "ns": not s, "no": not o}
        if c not in t:
            raise Unknown("condition " + c)
        return bool(t[c])

    def ex(self, mn, o, nx, lock=False):
        if mn in ("lock", "rep") and not o and nx in self.code:     # prefix on a line of its own
            sz, m2, o2 = self.code[nx]
            if mn == "lock":
                t = self.ex(m2, o2, nx + sz, True)
            else:
                t = self.ex(mn, [m2] + o2, nx + sz)
            return nx + sz if t is None else t
        while mn in ("lock", "rep", "repz", "repe"):
            if not o:
                raise Unknown(mn)
            if mn == "lock":
                lock = True
            p = o[0].split(None, 1)
            if mn != "lock" and p[0] not in ("movsb", "movsl"):
                raise Unknown("%s %s" % (mn, p[0]))
            if mn == "rep":
                n = 1 if p[0] == "movsb" else 4
                if self.g("ecx") == 0:
                    return
                self.st(self.g("edi"), n, self.ld(self.g("esi"), n))
                for r, d in (("edi", n), ("esi", n), ("ecx", -1)):
                    self.s(r, self.g(r) + d)
                return self.pc
            mn, o = p[0], p[1:] + o[1:]
        if mn in ("nop", "nopl", "nopw", "data16", "endbr32"):
            return
        if mn in ("mfence", "lfence", "sfence"):
            return self.fence(mn)
        if mn in ("ret", "retl"):
            sp = self.g("esp")
            self.s("esp", sp + 4)
            return self.ld(sp, 4)
        if mn in ("call", "calll", "push", "pushl"):
            c = mn.startswith("call")
            t = nx if c else self.rd(o[0], 4)
            sp = self.g("esp") - 4
            self.s("esp", sp)
            self.st(sp, 4, t)
            return (self.jt(o[0]) if c else None)
        if mn in ("pop", "popl"):
            sp = self.g("esp")
            v = self.ld(sp, 4)
            self.s("esp", sp + 4)
            return self.wr(o[0], 4, v)
        if mn in ("jmp", "jmpl"):
            return self.jt(o[0])
        if mn == "leave":
            sp = self.g("ebp")
            self.s("ebp", self.ld(sp, 4))
            return self.s("esp", sp + 4)
        if mn[0] == "j":
            return self.tgt(o[0]) if self.cond(mn[1:]) else None
        m = re.match(r"^mov([sz])([bw])([wl])$", mn)
        if m:
            n = self.SZ[m.group(2)]
            v = self.rd(o[0], n)
            return self.wr(o[1], self.SZ[m.group(3)], sx(v, 8 * n) if m.group(1) == "s" else v)
        if mn.startswith("set"):
            return self.wr(o[0], 1, int(self.cond(mn[3:])))
        if mn.startswith("cmov"):
            c = mn[4:]
            c = c[:-1] if c[-1] == "l" and c not in ("l",) else c
            v = self.rd(o[0], 4)
            return self.wr(o[1], 4, v) if self.cond(c) else None
        if mn in ("ud1", "ud2", "ud1l", "int3", "hlt"):
            raise Fault("trap")
        if mn == "cltd":
            return self.s("edx", -(self.g("eax") >> 31))
        m = re.match(r"^(mov|lea|add|sub|adc|sbb|and|or|xor|cmp|test|inc|dec|neg|not|shl|shr|sar|xchg|imul|xadd|cmpxchg)([bwl])$", mn)
        if not m:
            raise Unknown("%s %s" % (mn, o))
        k, n = m.group(1), self.SZ[m.group(2)]
        if k == "lea":
            return self.wr(o[1], n, self.ea(o[0]))
        if k == "mov":
            return self.wr(o[1], n, self.rd(o[0], n))
        if (lock or k == "xchg") and not all(x[0] in "$%" and ":" not in x for x in o):
            self.fence("mfence")
            own = True
        else:
            own = False
        if k in ("shl", "shr", "sar"):
            c = (self.rd(o[0], 1) if len(o) == 2 else 1) & 31
            a = self.rd(o[-1], n)
            v = a << c if k == "shl" else (a if k == "shr" else sx(a, 8 * n)) >> c
            if c:
                self.flags(v, n, 0, 0)
            return self.wr(o[-1], n, v)
        if k in ("inc", "dec", "neg", "not"):
            a, cf = self.rd(o[0], n), self.cf
            if k == "not":
                v = ~a
            elif k == "neg":
                v = self.sub(0, a, n)
            else:
                v = self.add(a, 1, n) if k == "inc" else self.sub(a, 1, n)
                self.cf = cf
            self.wr(o[0], n, v)
        elif k == "xchg":
            a, b = self.rd(o[0], n), self.rd(o[1], n)
            self.wr(o[0], n, b)
            self.wr(o[1], n, a)
        elif k == "imul":
            a, b = (self.rd(o[0], n), self.rd(o[1], n))
            self.wr(o[-1], n, sx(a, 8 * n) * sx(b, 8 * n))
        elif k in ("xadd", "cmpxchg"):
            raise Unknown(k)
        else:
            b = self.rd(o[0], n)
            a = self.rd(o[1], n)
            if k in ("and", "or", "xor", "test"):
                v = self.flags(a & b if k in ("and", "test") else a | b if k == "or" else a ^ b, n, 0, 0)
            elif k in ("add", "adc"):
                v = self.add(a, b, n, self.cf if k == "adc" else 0)
            else:
                v = self.sub(a, b, n, self.cf if k == "sbb" else 0)
            if k not in ("cmp", "test"):
                self.wr(o[1], n, v)
        if own:
            self.fence("mfence")

    def jt(self, o):
        return self.rd(o[1:], 4) if o[0] == "*" else self.tgt(o)


# ---------------------------------------------------------------------- AArch64
class AArch64(Cpu):
    ret = "x0"

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"x0": arg, "sp": sp, "x30": stop}
        self.tp, self.pc = tp, fn

    def R(self, n):
        if n in ("xzr", "wzr"):
            return 0
        if n == "sp":
            return self.g("sp")
        v = self.g("x" + n[1:])
        return v & 0xffffffff if n[0] == "w" else v

    def S(self, n, v):
        if n in ("xzr", "wzr"):
            return
        if n == "sp":
            self.s("sp", v)
        else:
            self.s("x" + n[1:], v & 0xffffffff if n[0] == "w" else v)

    def ea(self, o):
        m = re.match(r"^\[(\w+)(?:, ([^\]]+))?\](!)?$", o)
        if not m:
            raise Unknown(o)
        b = self.R(m.group(1))
        off = 0
        if m.group(2):
            x = m.group(2)
            if x[0] == "#":
                off = num(x)
            else:
                p = [y.strip() for y in x.split(",")]
                off = self.R(p[0])
                if len(p) > 1:
                    k = re.match(r"lsl #(\w+)", p[1])
                    if not k:
                        raise Unknown(o)
                    off <<= num(k.group(1))
        if m.group(3):
            self.S(m.group(1), b + off)
        return b + off

    def val(self, ops, k, w):
        """operand k, possibly shifted by the next one"""
        o = ops[k]
        v = num(o) if o[0] == "#" else self.R(o)
        if len(ops) > k + 1:
            m = re.match(r"(lsl|lsr|sxtw|uxtw)(?: #(\w+))?$", ops[k + 1])
            if not m:
                raise Unknown(str(ops))
            n = num(m.group(2) or "0")
            if m.group(1) == "lsl":
                v <<= n
            elif m.group(1) == "lsr":
                v >>= n
            elif m.group(1) == "sxtw":
                v = sx(v, 32) << n
            else:
                v = (v & 0xffffffff) << n
        return v

    def flags(self, a, b, w, sub):
        mask = (1 << w) - 1
        a &= mask
        b &= mask
        if sub:
            r = (a - b) & mask
            c = a >= b
            v = (sx(a, w) - sx(b, w)) != sx(r, w)
        else:
            r = (a + b) & mask
            c = a + b > mask
            v = (sx(a, w) + sx(b, w)) != sx(r, w)
        self.f = dict(n=r >> (w - 1), z=int(r == 0), c=int(c), v=int(v))
        return r

    def cond(self, c):
        f = self.f
        if not f:
            raise Unknown("flags before they are set")
        t = {"eq": f["z"], "cs": f["c"], "hs": f["c"], "mi": f["n"], "vs": f["v"], "hi": f["c"] and not f["z"], "ge": f["n"] == f["v"],
             "gt": not f["z"] and f["n"] == f["v"]}
        inv = {"ne": "eq", "cc": "cs", "lo": "cs", "pl": "mi", "vc": "vs", "ls": "hi", "lt": "ge", "le": "gt"}
        if c in t:
            return bool(t[c])
        if c in inv:
            return not t[inv[c]]
        raise Unknown(c)

    def ex(self, mn, o, nx):
        w = 32 if o and o[0][:1] == "w" else 64
        if mn in ("nop", "bti", "hint"):
            return
        if mn == "mov":
            return self.S(o[0], self.val(o, 1, w))
        if mn in ("adrp", "adr"):
            return self.S(o[0], num(o[1].split()[0]))
        if mn in ("add", "sub", "eor", "and", "orr", "adds", "subs", "ands", "cmp", "cmn", "tst", "bic", "mul", "neg"):
            if mn in ("cmp", "cmn", "tst"):
                d, a, b = None, self.R(o[0]), self.val(o, 1, w)
                w = 32 if o[0][0] == "w" else 64
            elif mn == "neg":
                d, a, b, mn = o[0], 0, self.val(o, 1, w), "sub"
            else:
                d, a, b = o[0], self.R(o[1]), self.val(o, 2, w)
            if mn in ("add", "sub", "eor", "and", "orr", "bic", "mul"):
                r = {"add": a + b, "sub": a - b, "eor": a ^ b, "and": a & b, "orr": a | b, "bic": a & ~b, "mul": a * b}[mn]
                return self.S(d, r)
            if mn in ("ands", "tst"):
                r = a & b & ((1 << w) - 1)
                self.f = dict(n=r >> (w - 1), z=int(r == 0), c=0, v=0)
            else:
                r = self.flags(a, b, w, mn in ("subs", "cmp"))
            if d:
                self.S(d, r)
            return
        if mn in ("lsl", "lsr", "asr"):
            a, n = self.R(o[1]), self.val(o, 2, w) % w
            return self.S(o[0], a << n if mn == "lsl" else a >> n if mn == "lsr" else sx(a, w) >> n)
        if mn in ("movz", "movn", "movk"):
            v = self.val(o, 1, w)
            sh = num(o[2].split("#")[1]) if len(o) > 2 else 0
            if mn == "movk":
                v = (self.R(o[0]) & ~(0xffff << sh)) | v
            return self.S(o[0], ~v if mn == "movn" else v)
        if mn in ("sxtw", "sxth", "sxtb", "uxtb", "uxth"):
            n = {"w": 32, "h": 16, "b": 8}[mn[3]]
            v = self.R(o[1])
            return self.S(o[0], sx(v, n) if mn[0] == "s" else v & ((1 << n) - 1))
        m = re.match(r"^(ld|st)(a|l)?(u)?r(s)?(b|h|w)?$", mn)
        if m or mn in ("ldur", "stur"):
            acq = m and m.group(2)
            n = {"b": 1, "h": 2, "w": 4}.get(m.group(5) if m else None, 4 if o[0][0] == "w" else 8)
            post = 0
            if len(o) == 3:
                post = num(o[2])
                base = o[1].strip("[]")
                a = self.R(base)
                self.S(base, a + post)
            else:
                a = self.ea(o[1])
            if mn[0] == "l":
                v = self.ld(a, n, bool(m and m.group(4)), "acq" if acq else "")
                return self.S(o[0], v)
            return self.st(a, n, self.R(o[0]), "rel" if acq else "")
        if mn in ("ldp", "stp"):
            n = 4 if o[0][0] == "w" else 8
            if len(o) == 4:
                base = o[2].strip("[]")
                a = self.R(base)
                self.S(base, a + num(o[3]))
            else:
                a = self.ea(o[2])
            for k in (0, 1):
                if mn == "ldp":
                    self.S(o[k], self.ld(a + k * n, n))
                else:
                    self.st(a + k * n, n, self.R(o[k]))
            return
        if mn in ("dmb", "dsb"):
            return self.fence(mn + " " + o[0])
        if mn == "mrs" and o[1] == "TPIDR_EL0":
            return self.S(o[0], self.tp)
        if mn == "b":
            return self.tgt(o[0])
        if mn == "bl":
            self.s("x30", nx)
            return self.tgt(o[0])
        if mn.startswith("b."):
            return self.tgt(o[0]) if self.cond(mn[2:]) else None
        if mn in ("cbz", "cbnz"):
            return self.tgt(o[1]) if (self.R(o[0]) == 0) == (mn == "cbz") else None
        if mn in ("tbz", "tbnz"):
            return self.tgt(o[2]) if ((self.R(o[0]) >> num(o[1])) & 1 == 0) == (mn == "tbz") else None
        if mn in ("cset", "csel"):
            t = self.cond(o[-1])
            return self.S(o[0], (1 if t else 0) if mn == "cset" else self.R(o[1]) if t else self.R(o[2]))
        if mn == "ret":
            return self.g("x30")
        if mn == "br":
            return self.R(o[0])
        if mn == "brk":
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))


# ---------------------------------------------------------------------- RISC-V 64
RV = {n: "x%d" % i for i, n in enumerate("zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split())}


class Riscv64(Cpu):
    ret = "a0"

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"a0": arg, "sp": sp, "ra": stop, "tp": tp, "gp": self.gp}
        self.pc = fn

    gp = 0

    def R(self, n):
        return 0 if n == "zero" else self.g(n)

    def S(self, n, v):
        if n not in RV:
            raise Unknown(n)
        if n != "zero":
            self.s(n, v)

    def ex(self, mn, o, nx):
        if mn == "nop":
            return
        if mn in ("ld", "lw", "lh", "lb", "lwu", "lhu", "lbu", "sd", "sw", "sh", "sb"):
            m = re.match(r"^(-?\w+)\((\w+)\)$", o[1])
            a = self.R(m.group(2)) + num(m.group(1))
            n = {"d": 8, "w": 4, "h": 2, "b": 1}[mn[1]]
            if mn[0] == "l":
                return self.S(o[0], self.ld(a, n, not mn.endswith("u")))
            return self.st(a, n, self.R(o[0]))
        if mn in ("add", "sub", "and", "or", "xor", "addi", "andi", "ori", "xori", "mul"):
            b = num(o[2]) if mn[-1] == "i" and mn != "subi" else self.R(o[2])
            a = self.R(o[1])
            k = mn.rstrip("i") if mn != "ori" and mn != "xori" else mn[:-1]
            return self.S(o[0], {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "mul": a * b}[k])
        if mn in ("addw", "subw", "addiw"):
            b = num(o[2]) if mn == "addiw" else self.R(o[2])
            a = self.R(o[1])
            return self.S(o[0], sx(a - b if mn == "subw" else a + b, 32))
        if mn in ("li", "lui"):
            v = num(o[1])
            return self.S(o[0], sx(v << 12, 32) if mn == "lui" else v)
        if mn == "auipc":
            return self.S(o[0], self.pc + sx(num(o[1]) << 12, 32))
        if mn == "mv":
            return self.S(o[0], self.R(o[1]))
        if mn == "neg":
            return self.S(o[0], -self.R(o[1]))
        if mn == "sext.w":
            return self.S(o[0], sx(self.R(o[1]), 32))
        if mn in ("slli", "srli", "srai", "slliw", "sraiw"):
            a, n = self.R(o[1]), num(o[2])
            if mn == "slliw":
                return self.S(o[0], sx(a << n, 32))
            if mn == "sraiw":
                return self.S(o[0], sx(a, 32) >> n)
            return self.S(o[0], a << n if mn == "slli" else a >> n if mn == "srli" else sx(a, 64) >> n)
        if mn in ("seqz", "snez"):
            return self.S(o[0], int((self.R(o[1]) == 0) == (mn == "seqz")))
        if mn in ("slt", "sltu", "slti", "sltiu", "sltz", "sgtz"):
            a = self.R(o[1])
            b = 0 if mn in ("sltz", "sgtz") else num(o[2]) & self.M if mn.rstrip("u")[-1] == "i" else self.R(o[2])
            if mn[-1] != "u":
                a, b = sx(a, 64), sx(b, 64)
            return self.S(o[0], int(a > b if mn == "sgtz" else a < b))
        if mn == "fence.tso":
            return self.fence(mn)
        if mn == "fence":
            return self.fence("fence " + (",".join(o) if o else "iorw,iorw"))
        if mn in ("beq", "bne", "blt", "bge", "bltu", "bgeu"):
            a, b = self.R(o[0]), self.R(o[1])
            if mn in ("blt", "bge"):
                a, b = sx(a, 64), sx(b, 64)
            t = a == b if mn == "beq" else a != b if mn == "bne" else a < b if mn[:3] == "blt" else a >= b
            return self.tgt(o[2]) if t else None
        if mn in ("beqz", "bnez", "bltz", "bgez", "blez", "bgtz"):
            a = sx(self.R(o[0]), 64)
            t = {"beqz": a == 0, "bnez": a != 0, "bltz": a < 0, "bgez": a >= 0, "blez": a <= 0, "bgtz": a > 0}[mn]
            return self.tgt(o[1]) if t else None
        if mn == "j":
            return self.tgt(o[0])
        if mn == "ret":
            return self.g("ra")
        if mn == "jr":
            return self.R(o[0])
        raise Unknown("%s %s" % (mn, o))


# ---------------------------------------------------------------------- PowerPC
class Ppc(Cpu):
    W, big = 64, True
    ret = "3"
    toc = 0

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"3": arg, "1": sp, ("13" if self.W == 64 else "2"): tp, "12": fn}
        if self.W == 64:
            self.r["2"] = self.toc
        self.lr, self.pc, self.cr = stop, fn, {}

    def R(self, n):
        if not n.isdigit():
            raise Unknown(n)
        return self.g(n)

    def ea(self, o, upd=False):
        m = re.match(r"^(-?\w+)\((\d+)\)$", o)
        if not m:
            raise Unknown(o)
        b = 0 if m.group(2) == "0" and not upd else self.R(m.group(2))
        a = (b + num(m.group(1))) & self.M
        if upd:
            self.s(m.group(2), a)
        return a

    def cmp(self, f, a, b):
        self.cr.update({4 * f: a < b, 4 * f + 1: a > b, 4 * f + 2: a == b, 4 * f + 3: False})

    def ex(self, mn, o, nx):
        if mn == "nop":
            return
        m = re.match(r"^(l|st)(b|h|w|d)(z|a)?(u)?(x)?$", mn)
        if m:
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(2)]
            if m.group(5):
                a = (0 if o[1] == "0" else self.R(o[1])) + self.R(o[2])
                if m.group(4):
                    self.s(o[1], a)
            elif m.group(4) and m.group(1) == "st":
                v = self.R(o[0])
                a = self.ea(o[1], True)
                return self.st(a, n, v)
            else:
                a = self.ea(o[1], bool(m.group(4)))
            if m.group(1) == "l":
                return self.s(o[0], self.ld(a, n, m.group(3) == "a"))
            return self.st(a, n, self.R(o[0]))
        if mn in ("li", "lis"):
            return self.s(o[0], sx(num(o[1]), 16) << (16 if mn == "lis" else 0))
        if mn in ("addi", "addis"):
            return self.s(o[0], (0 if o[1] == "0" else self.R(o[1])) + (sx(num(o[2]), 16) << (16 if mn == "addis" else 0)))
        if mn in ("ori", "oris", "xori", "xoris"):
            i = num(o[2]) << (16 if mn[-1] == "s" else 0)
            return self.s(o[0], self.R(o[1]) | i if mn[0] == "o" else self.R(o[1]) ^ i)
        if mn in ("add", "subf", "and", "or", "xor", "sub", "mulld", "mullw"):
            a, b = self.R(o[1]), self.R(o[2])
            return self.s(o[0], {"add": a + b, "subf": b - a, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "mulld": a * b, "mullw": sx(a, 32) * sx(b, 32)}[mn])
        if mn == "mr":
            return self.s(o[0], self.R(o[1]))
        if mn == "neg":
            return self.s(o[0], -self.R(o[1]))
        if mn in ("extsw", "extsh", "extsb"):
            return self.s(o[0], sx(self.R(o[1]), {"w": 32, "h": 16, "b": 8}[mn[-1]]))
        if mn in ("sldi", "slwi", "srdi", "srwi"):
            a, n = self.R(o[1]), num(o[2])
            w = 64 if mn[2] == "d" else 32
            a &= (1 << w) - 1
            return self.s(o[0], (a << n) & ((1 << w) - 1) if mn[1] == "l" else a >> n)
        if mn in ("clrldi", "clrlwi"):
            return self.s(o[0], self.R(o[1]) & ((1 << ((64 if mn[4] == "d" else 32) - num(o[2]))) - 1))
        if mn in ("srawi", "sradi"):
            return self.s(o[0], sx(self.R(o[1]), 32 if mn[3] == "w" else 64) >> num(o[2]))
        if mn == "rldimi":
            a, sh, mb = self.R(o[1]), num(o[2]), num(o[3])
            if mb > 63 - sh:
                raise Unknown(mn)
            mask = ((1 << (64 - sh - mb)) - 1) << sh
            r = ((a << sh) | (a >> (64 - sh))) & self.M if sh else a
            return self.s(o[0], (self.R(o[0]) & ~mask) | (r & mask))
        if mn in ("rldic", "rldicl", "rldicr"):
            a, sh, mb = self.R(o[1]), num(o[2]), num(o[3])
            r = ((a << sh) | (a >> (64 - sh))) & self.M if sh else a
            lo, hi = (mb, 63 - sh) if mn == "rldic" else (mb, 63) if mn == "rldicl" else (0, mb)
            if lo > hi:
                raise Unknown(mn)
            mask = ((1 << (hi - lo + 1)) - 1) << (63 - hi)
            return self.s(o[0], r & mask)
        if mn in ("cmpw", "cmpd", "cmpwi", "cmpdi", "cmplw", "cmpld", "cmplwi", "cmpldi"):
            f = 0
            if len(o) == 3:
                f = int(o[0].replace("cr", ""))
                o = o[1:]
            w = 32 if "w" in mn else 64
            a = self.R(o[0])
            b = num(o[1]) if mn[-1] == "i" else self.R(o[1])
            mask = (1 << w) - 1
            if "l" in mn:
                a, b = a & mask, b & mask
            else:
                a, b = sx(a, w), sx(b, w)
            return self.cmp(f, a, b)
        if mn.rstrip("+-") in ("bt", "bf"):
            bit = num(o[0])
            if bit not in self.cr:
                raise Unknown("condition before it is set")
            return self.tgt(o[1]) if self.cr[bit] == (mn[1] == "t") else None
        if mn == "b":
            return self.tgt(o[0])
        if mn == "bl":
            self.lr = nx
            return self.tgt(o[0])
        if mn == "blr":
            return self.lr
        if mn == "mflr":
            return self.s(o[0], self.lr)
        if mn == "mtlr":
            self.lr = self.R(o[0])
            return
        if mn in ("sync", "lwsync", "isync", "hwsync", "eieio", "ptesync"):
            return self.fence(" ".join([mn] + o))
        if mn == "twui":
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))


class PpcLe(Ppc):
    big = False


class Ppc32(Ppc):
    W = 32


# ---------------------------------------------------------------------- s390x
class S390x(Cpu):
    big = True
    ret = "%r2"

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"%r2": arg, "%r15": sp - 512, "%r14": stop}
        self.tp, self.pc, self.cc = tp, fn, None

    def R(self, n):
        if not re.match(r"^%r\d+$", n):
            raise Unknown(n)
        return self.g(n)

    def lo(self, n, v):
        self.s(n, (self.g(n) & ~0xffffffff) | (v & 0xffffffff))

    def ea(self, o):
        m = re.match(r"^(-?\w+)(?:\((?:(%r\d+),)?(%r\d+)\))?$", o)
        if not m:
            raise Unknown(o)
        a = num(m.group(1))
        for k in (2, 3):
            if m.group(k) and m.group(k) != "%r0":
                a += self.R(m.group(k))
        return a & self.M

    def arith(self, r, a, b, w):
        """condition code of a signed addition"""
        v = sx(r, w)
        self.cc = 3 if sx(a, w) + sx(b, w) != v else 0 if v == 0 else 1 if v < 0 else 2

    def comp(self, a, b):
        self.cc = 0 if a == b else 1 if a < b else 2

    def jc(self, c):
        t = {"e": {0}, "ne": {1, 2, 3}, "l": {1}, "h": {2}, "nl": {0, 2, 3}, "nh": {0, 1, 3}, "z": {0}, "nz": {1, 2, 3}, "m": {1}, "p": {2},
             "lh": {1, 2}, "nlh": {0, 3}, "he": {0, 2}, "le": {0, 1}}
        if c not in t:
            raise Unknown(c)
        if self.cc is None:
            raise Unknown("condition code before it is set")
        return self.cc in t[c]

    def ex(self, mn, o, nx):
        L = {"lg": (8, 0), "lgf": (4, 1), "lgh": (2, 1), "lgb": (1, 1), "llgf": (4, 0), "llgc": (1, 0), "llgh": (2, 0)}
        if mn in L:
            return self.s(o[0], self.ld(self.ea(o[1]), L[mn][0], bool(L[mn][1])))
        if mn in ("l", "ly"):
            return self.lo(o[0], self.ld(self.ea(o[1]), 4))
        if mn == "risbg":
            b, e, k = num(o[2]) & 63, num(o[3]), num(o[4]) if len(o) > 4 else 0
            a, z, e = self.R(o[1]), e & 128, e & 63
            a = ((a << k) | (a >> (64 - k))) & self.M if k else a
            i, mask = b, 0
            while True:
                mask |= 1 << (63 - i)
                if i == e:
                    break
                i = (i + 1) % 64
            v = (a & mask) | (0 if z else self.R(o[0]) & ~mask)
            self.comp(sx(v, 64), 0)
            return self.s(o[0], v)
        if mn in ("lh", "lhy", "lb", "llc", "llh"):
            return self.lo(o[0], self.ld(self.ea(o[1]), 2 if "h" in mn else 1, mn in ("lh", "lhy", "lb")))
        if mn in ("ic", "icy"):
            return self.s(o[0], (self.R(o[0]) & ~0xff) | self.ld(self.ea(o[1]), 1))
        if mn in ("stg", "st", "sth", "stc", "sty", "stcy"):
            return self.st(self.ea(o[1]), {"stg": 8, "st": 4, "sth": 2, "stc": 1, "sty": 4, "stcy": 1}[mn], self.R(o[0]))
        if mn in ("stmg", "lmg"):
            a, i, j = self.ea(o[2]), int(o[0][2:]), int(o[1][2:])
            while True:
                if mn == "stmg":
                    self.st(a, 8, self.g("%%r%d" % i))
                else:
                    self.s("%%r%d" % i, self.ld(a, 8))
                if i == j:
                    return
                i, a = (i + 1) % 16, a + 8
        if mn == "mvc":
            m = re.match(r"^(\w+)\((\d+),(%r\d+)\)$", o[0])
            d, n, s = self.R(m.group(3)) + num(m.group(1)), int(m.group(2)), self.ea(o[1])
            if n in (1, 2, 4, 8):
                return self.st(d, n, self.ld(s, n))
            for k in range(n):
                self.st(d + k, 1, self.ld(s + k, 1))
            return
        if mn in ("mvhi", "mvghi", "mvhhi", "mvi"):
            return self.st(self.ea(o[0]), {"mvhi": 4, "mvghi": 8, "mvhhi": 2, "mvi": 1}[mn], num(o[1]))
        if mn in ("lhi", "lghi", "lgfi"):
            return self.lo(o[0], num(o[1])) if mn == "lhi" else self.s(o[0], num(o[1]))
        if mn in ("llilh", "llihf", "llilf", "llihh", "llihl", "llill"):
            return self.s(o[0], num(o[1]) << {"llilh": 16, "llihf": 32, "llilf": 0, "llihh": 48, "llihl": 32, "llill": 0}[mn])
        if mn in ("oilf", "oihf"):
            return self.s(o[0], self.R(o[0]) | (num(o[1]) << (32 if mn == "oihf" else 0)))
        if mn in ("lgr", "lgfr", "lr", "ltgr", "lgbr", "lghr"):
            v = self.R(o[1])
            if mn == "lr":
                return self.lo(o[0], v)
            v = sx(v, {"lgfr": 32, "lgbr": 8, "lghr": 16}.get(mn, 64))
            if mn == "ltgr":
                self.comp(sx(v, 64), 0)
            return self.s(o[0], v)
        if mn == "larl":
            return self.s(o[0], self.tgt(o[1]))
        if mn == "lgrl":
            return self.s(o[0], self.ld(self.tgt(o[1]), 8))
        if mn in ("sthrl", "strl", "stgrl"):
            return self.st(self.tgt(o[1]), {"sthrl": 2, "strl": 4, "stgrl": 8}[mn], self.R(o[0]))
        if mn in ("lrl", "lhrl"):
            return self.lo(o[0], self.ld(self.tgt(o[1]), 4 if mn == "lrl" else 2, True))
        if mn in ("lgfrl", "llgfrl", "lghrl", "llghrl"):
            return self.s(o[0], self.ld(self.tgt(o[1]), 4 if "f" in mn else 2, mn[1] != "l"))
        if mn == "llhrl":
            return self.lo(o[0], self.ld(self.tgt(o[1]), 2))
        if mn in ("la", "lay"):
            return self.s(o[0], self.ea(o[1]))
        if mn == "ear":
            return self.lo(o[0], self.tp >> 32 if o[1] == "%a0" else self.tp if o[1] == "%a1" else self.bad(o[1]))
        if mn in ("sllg", "srlg"):
            n = self.ea(o[2]) & 63
            return self.s(o[0], self.R(o[1]) << n if mn == "sllg" else self.R(o[1]) >> n)
        if mn in ("agr", "ag", "aghi", "agfi", "agrk", "aghik", "sgr"):
            a = self.R(o[1]) if len(o) == 3 else self.R(o[0])
            b = o[-1]
            b = self.R(b) if mn in ("agr", "agrk", "sgr") else self.ld(self.ea(b), 8) if mn == "ag" else num(b)
            if mn == "sgr":
                b = -b
            self.arith(a + b, a, b, 64)
            return self.s(o[0], a + b)
        if mn in ("ahi", "afi", "ar"):
            a, b = self.R(o[0]), (self.R(o[1]) if mn == "ar" else num(o[1]))
            self.arith(a + b, a, b, 32)
            return self.lo(o[0], a + b)
        if mn == "ipm":
            return self.lo(o[0], (self.R(o[0]) & 0xffffff) | ((self.cc or 0) << 28))
        if mn in ("lt", "ltr", "ltg", "ltgf"):
            v = sx(self.R(o[1]), 32) if mn == "ltr" else self.ld(self.ea(o[1]), 8 if mn == "ltg" else 4, True)
            self.comp(sx(v, 64), 0)
            return self.lo(o[0], v) if mn in ("lt", "ltr") else self.s(o[0], v)
        if mn in ("c", "cy", "cr"):
            return self.comp(sx(self.R(o[0]), 32), sx(self.R(o[1]) if mn == "cr" else self.ld(self.ea(o[1]), 4), 32))
        if mn in ("cg", "cgr"):
            return self.comp(sx(self.R(o[0]), 64), sx(self.R(o[1]) if mn == "cgr" else self.ld(self.ea(o[1]), 8), 64))
        if mn in ("chi", "cghi", "cfi", "cgfi"):
            w = 64 if "g" in mn else 32
            return self.comp(sx(self.R(o[0]), w), num(o[1]))
        if mn in ("chsi", "cghsi"):
            n = 8 if "g" in mn else 4
            return self.comp(sx(self.ld(self.ea(o[0]), n), 8 * n), num(o[1]))
        m = re.match(r"^c(g)?(i|r)j(lh|e|ne|l|h|he|le|nlh|nl|nh)$", mn)
        if m:
            w = 64 if m.group(1) else 32
            a = sx(self.R(o[0]), w)
            b = num(o[1]) if m.group(2) == "i" else sx(self.R(o[1]), w)
            t = {"lh": a != b, "ne": a != b, "e": a == b, "nlh": a == b, "l": a < b, "h": a > b, "he": a >= b, "le": a <= b, "nl": a >= b, "nh": a <= b}[m.group(3)]
            return self.tgt(o[2]) if t else None
        if mn == "bcr":
            if o[0] == "0":
                return
            if o[0] in ("14", "15") and o[1] in ("0", "%r0"):
                return self.fence("bcr " + o[0])
            raise Unknown("%s %s" % (mn, o))
        if mn == "br":
            return self.fence("bcr 15") if o[0] in ("0", "%r0") else self.R(o[0])
        if mn in ("iilf", "iihf"):
            return self.lo(o[0], num(o[1])) if mn == "iilf" else self.s(o[0], (self.R(o[0]) & 0xffffffff) | num(o[1]) << 32)
        if mn in ("j", "jg"):
            return self.tgt(o[0])
        if mn[0] == "j":
            return self.tgt(o[0]) if self.jc(mn[1:].lstrip("g") if mn.startswith("jg") else mn[1:]) else None
        if mn == "trap4":
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))

    def bad(self, x):
        raise Unknown(x)


# ---------------------------------------------------------------------- MIPS
class Mips(Cpu):
    W, big = 32, True
    ret = "$2"
    gp = 0

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"$4": arg, "$sp": sp, "$ra": stop, "$gp": self.gp, "$25": fn}
        self.tp, self.pc = tp, fn

    def R(self, n):
        if n[0] != "$":
            raise Unknown(n)
        return 0 if n == "$zero" else self.g(n)

    def S(self, n, v):
        if n != "$zero":
            self.s(n, v)

    def s32(self, n, v):
        self.S(n, sx(v, 32))

    def step(self):     # a branch and its delay slot are one step: the kernel sees the branch as where it was interrupted
        i = self.code.get(self.pc)
        if i is None:
            raise Fault("no code at %#x" % self.pc)
        size, mn, ops = i
        nx = self.pc + 4
        self.br = False
        t = self.ex(mn, ops, nx)
        if self.br:
            d = self.code.get(nx)
            if d is None:
                raise Fault("no code")
            self.br = False
            self.ex(d[1], d[2], nx + 4)
            if self.br:
                raise Unknown("branch in delay slot")
            self.pc = (nx + 4 if t is None else t) & self.M
        else:
            self.pc = nx

    def B(self, cond, o):
        self.br = True
        return self.tgt(o) if cond else None

    def ex(self, mn, o, nx):
        if mn in ("nop", "ssnop"):
            return
        m = re.match(r"^(l|s)(b|h|w|d)(u)?$", mn)
        if m:
            k = re.match(r"^(-?\w+)\((\$\w+)\)$", o[1])
            if not k:
                raise Unknown(str(o))
            a = self.R(k.group(2)) + num(k.group(1))
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(2)]
            if m.group(1) == "l":
                return self.S(o[0], self.ld(a, n, not m.group(3)))
            return self.st(a, n, self.R(o[0]))
        if mn in ("addiu", "daddiu"):
            v = self.R(o[1]) + num(o[2])
            return self.s32(o[0], v) if mn[0] == "a" else self.S(o[0], v)
        if mn in ("addu", "daddu", "subu", "dsubu", "and", "or", "xor", "dadd", "add"):
            a, b = self.R(o[1]), self.R(o[2])
            v = a - b if "sub" in mn else a & b if mn == "and" else a | b if mn == "or" else a ^ b if mn == "xor" else a + b
            return self.s32(o[0], v) if mn in ("addu", "subu", "add") else self.S(o[0], v)
        if mn in ("ori", "andi", "xori"):
            a, b = self.R(o[1]), num(o[2])
            return self.S(o[0], a | b if mn == "ori" else a & b if mn == "andi" else a ^ b)
        if mn == "lui":
            return self.s32(o[0], num(o[1]) << 16)
        if mn == "move":
            return self.S(o[0], self.R(o[1]))
        if mn in ("sll", "dsll", "dsll32", "dsrl", "dsrl32", "srl", "sra"):
            a, n = self.R(o[1]), num(o[2])
            if mn == "sll":
                return self.s32(o[0], a << n)
            if mn == "srl":
                return self.s32(o[0], (a & 0xffffffff) >> n)
            if mn == "sra":
                return self.s32(o[0], sx(a, 32) >> n)
            n += 32 if mn.endswith("32") else 0
            return self.S(o[0], a << n if "sll" in mn else a >> n)
        if mn in ("seb", "seh"):
            return self.S(o[0], sx(self.R(o[1]), 8 if mn == "seb" else 16))
        if mn in ("dext", "ext", "dextm", "dextu"):
            return self.S(o[0], (self.R(o[1]) >> num(o[2])) & ((1 << num(o[3])) - 1))
        if mn in ("slt", "sltu", "slti", "sltiu"):
            a, b = self.R(o[1]), (num(o[2]) & self.M if mn.rstrip("u")[-1] == "i" else self.R(o[2]))
            if mn[-1] != "u":
                a, b = sx(a, self.W), sx(b, self.W)
            return self.S(o[0], int(a < b))
        if mn in ("beq", "bne"):
            return self.B((self.R(o[0]) == self.R(o[1])) == (mn == "beq"), o[2])
        if mn in ("beqz", "bnez"):
            return self.B((self.R(o[0]) == 0) == (mn == "beqz"), o[1])
        if mn in ("bltz", "bgez", "blez", "bgtz"):
            a = sx(self.R(o[0]), self.W)
            return self.B({"bltz": a < 0, "bgez": a >= 0, "blez": a <= 0, "bgtz": a > 0}[mn], o[1])
        if mn in ("b", "j"):
            return self.B(True, o[0])
        if mn == "jr":
            self.br = True
            return self.R(o[0])
        if mn == "rdhwr" and o[1] == "$29":
            return self.S(o[0], self.tp)
        if mn == "sync":
            return self.fence(" ".join(["sync"] + [str(num(x)) for x in o]))
        if mn == "break":
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))


class Mips64(Mips):
    W = 64
    big = False


# ---------------------------------------------------------------------- LoongArch
class Loong(Cpu):
    ret = "$a0"

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"$a0": arg, "$sp": sp, "$ra": stop, "$tp": tp}
        self.pc = fn

    def R(self, n):
        if n[0] != "$":
            raise Unknown(n)
        return 0 if n == "$zero" else self.g(n)

    def S(self, n, v):
        if n != "$zero":
            self.s(n, v)

    def tgt(self, o):
        return self.pc + num(o.split()[0])

    def ex(self, mn, o, nx):
        if mn == "nop":
            return
        m = re.match(r"^(ld|st)\.(b|h|w|d)(u)?$", mn)
        if m:
            a = self.R(o[1]) + num(o[2])
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(2)]
            if m.group(1) == "ld":
                return self.S(o[0], self.ld(a, n, not m.group(3)))
            return self.st(a, n, self.R(o[0]))
        m = re.match(r"^(ldptr|stptr)\.(w|d)$", mn)
        if m:
            a = self.R(o[1]) + num(o[2])
            n = {"w": 4, "d": 8}[m.group(2)]
            if m.group(1) == "ldptr":
                return self.S(o[0], self.ld(a, n, True))
            return self.st(a, n, self.R(o[0]))
        if mn in ("addi.d", "addi.w"):
            v = self.R(o[1]) + num(o[2])
            return self.S(o[0], v if mn[-1] == "d" else sx(v, 32))
        if mn in ("add.d", "sub.d", "add.w", "sub.w", "and", "or", "xor"):
            a, b = self.R(o[1]), self.R(o[2])
            v = {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b}[mn.split(".")[0]]
            return self.S(o[0], sx(v, 32) if mn.endswith(".w") else v)
        if mn in ("ori", "andi", "xori"):
            a, b = self.R(o[1]), num(o[2])
            return self.S(o[0], a | b if mn == "ori" else a & b if mn == "andi" else a ^ b)
        if mn == "move":
            return self.S(o[0], self.R(o[1]))
        if mn == "lu12i.w":
            return self.S(o[0], sx(num(o[1]) << 12, 32))
        if mn == "lu32i.d":
            return self.S(o[0], (self.R(o[0]) & 0xffffffff) | (sx(num(o[1]), 20) << 32))
        if mn == "lu52i.d":
            return self.S(o[0], (self.R(o[1]) & ((1 << 52) - 1)) | (num(o[2]) << 52))
        if mn == "pcalau12i":
            return self.S(o[0], (self.pc & ~0xfff) + sx(num(o[1]) << 12, 32))
        if mn == "pcaddu12i":
            return self.S(o[0], self.pc + sx(num(o[1]) << 12, 32))
        m = re.match(r"^(ldx|stx)\.(b|h|w|d)(u)?$", mn)
        if m:
            a, n = self.R(o[1]) + self.R(o[2]), {"b": 1, "h": 2, "w": 4, "d": 8}[m.group(2)]
            if m.group(1) == "ldx":
                return self.S(o[0], self.ld(a, n, not m.group(3)))
            return self.st(a, n, self.R(o[0]))
        if mn in ("slt", "sltu", "slti", "sltui"):
            a, b = self.R(o[1]), (num(o[2]) & self.M if mn.endswith("i") else self.R(o[2]))
            if "u" not in mn:
                a, b = sx(a, 64), sx(b, 64)
            return self.S(o[0], int(a < b))
        if mn in ("maskeqz", "masknez"):
            return self.S(o[0], self.R(o[1]) if (self.R(o[2]) != 0) == (mn == "maskeqz") else 0)
        if mn in ("slli.d", "srli.d", "slli.w"):
            a, n = self.R(o[1]), num(o[2])
            return self.S(o[0], a << n if mn == "slli.d" else a >> n if mn == "srli.d" else sx(a << n, 32))
        if mn in ("beq", "bne", "blt", "bge", "bltu", "bgeu"):
            a, b = self.R(o[0]), self.R(o[1])
            if mn in ("blt", "bge"):
                a, b = sx(a, 64), sx(b, 64)
            t = a == b if mn == "beq" else a != b if mn == "bne" else a < b if mn[:3] == "blt" else a >= b
            return self.tgt(o[2]) if t else None
        if mn in ("beqz", "bnez"):
            return self.tgt(o[1]) if (self.R(o[0]) == 0) == (mn == "beqz") else None
        if mn == "b":
            return self.tgt(o[0])
        if mn == "ret":
            return self.g("$ra")
        if mn == "jr":
            return self.R(o[0])
        if mn == "dbar":
            return self.fence("dbar " + str(num(o[0])))
        if mn == "break":
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))


# ---------------------------------------------------------------------- ARM (A32)
class Arm(AArch64):
    W = 32
    ret = "r0"

    def begin(self, fn, arg, sp, tp, stop):
        self.r = {"r0": arg, "sp": sp, "lr": stop}
        self.tp, self.pc = tp, fn

    def R(self, n):
        if n == "pc":
            return self.pc + 8
        if not re.match(r"^(r\d+|sp|lr)$", n):
            raise Unknown(n)
        return self.g(n)

    def S(self, n, v):
        if not re.match(r"^(r\d+|sp|lr)$", n):
            raise Unknown(n)
        self.s(n, v)

    def regs(self, o):
        r = []
        for x in o.strip("{}").split(","):
            x = x.strip()
            if "-" in x:
                a, b = x.split("-")
                r += ["r%d" % i for i in range(int(a[1:]), int(b[1:]) + 1)]
            else:
                r.append(x)
        return r

    def ex(self, mn, o, nx):
        if mn == "nop":
            return
        c = None
        m = re.match(r"^(mov|movw|movt|mvn|add|sub|ldr|str|orr|and|eor|rsb|cmp)(eq|ne|hi|ls|lo|hs|ge|lt|gt|le|mi|pl)$", mn)
        if m:
            if not self.cond(m.group(2)):
                return
            mn = m.group(1)
        if mn in ("push", "stmdb") or mn == "pop":
            rs = self.regs(o[-1])
            if mn == "pop":
                a, t = self.R("sp"), None
                for k, x in enumerate(rs):
                    v = self.ld(a + 4 * k, 4)
                    if x == "pc":
                        t = v
                    else:
                        self.S(x, v)
                self.S("sp", a + 4 * len(rs)) if "sp" not in rs else None
                return t
            a = self.R("sp") - 4 * len(rs)
            for k, x in enumerate(rs):
                self.st(a + 4 * k, 4, self.R(x))
            return self.S("sp", a)
        if mn in ("ldm", "stm", "ldmib", "stmib"):
            rs = self.regs(o[1])
            base = o[0].rstrip("!")
            a0 = a = self.R(base)
            a += 4 if mn.endswith("ib") else 0
            if o[0].endswith("!"):
                self.S(base, a0 + 4 * len(rs))
            vs = [self.R(x) for x in rs] if mn[0] == "s" else None
            for k, x in enumerate(rs):
                if mn[0] == "s":
                    self.st(a + 4 * k, 4, vs[k])
                else:
                    self.S(x, self.ld(a + 4 * k, 4))
            return
        m = re.match(r"^(ldr|str)(b|h|sb|sh|d)?$", mn)
        if m:
            k = m.group(2) or ""
            n = {"": 4, "b": 1, "sb": 1, "h": 2, "sh": 2, "d": 4}[k]
            rs = o[:2] if k == "d" else o[:1]
            rest = o[len(rs):]
            if len(rest) == 2:
                base = rest[0].strip("[]")
                a = self.R(base)
                self.S(base, a + num(rest[1]))
            else:
                a = self.ea(rest[0])
            for j, x in enumerate(rs):
                if mn[0] == "l":
                    self.S(x, self.ld(a + 4 * j, n, "s" in k))
                else:
                    self.st(a + 4 * j, n, self.R(x))
            return
        if mn in ("mov", "mvn", "movw"):
            v = self.val(o, 1, 32)
            return self.S(o[0], ~v if mn == "mvn" else v)
        if mn == "movt":
            return self.S(o[0], (self.R(o[0]) & 0xffff) | num(o[1]) << 16)
        if mn in ("add", "sub", "rsb", "and", "orr", "eor", "bic", "adds", "subs", "ands"):
            if len(o) == 2:
                o = [o[0]] + o
            a, b = self.R(o[1]), self.val(o, 2, 32)
            k = mn[:3]
            if mn in ("adds", "subs"):
                self.flags(a, b, 32, mn == "subs")
            elif mn == "ands":
                r = a & b & self.M
                self.f = dict(self.f or dict(c=0, v=0), n=r >> 31, z=int(r == 0))
            return self.S(o[0], {"add": a + b, "sub": a - b, "rsb": b - a, "and": a & b, "orr": a | b, "eor": a ^ b, "bic": a & ~b}[k])
        if mn in ("cmp", "cmn"):
            self.flags(self.R(o[0]), self.val(o, 1, 32), 32, mn == "cmp")
            return
        if mn == "tst":
            r = self.R(o[0]) & self.val(o, 1, 32)
            self.f = dict(n=r >> 31, z=int(r == 0), c=0, v=0)
            return
        if mn in ("lsl", "lsr", "asr"):
            a, n = self.R(o[1]), num(o[2])
            return self.S(o[0], a << n if mn == "lsl" else a >> n if mn == "lsr" else sx(a, 32) >> n)
        if mn in ("sxtb", "sxth", "uxtb", "uxth"):
            a, n = self.R(o[1]), 8 if mn[-1] == "b" else 16
            return self.S(o[0], sx(a, n) if mn[0] == "s" else a & ((1 << n) - 1))
        if mn == "mrc" and o[0] == "p15" and o[3] == "c13":
            return self.S(o[2], self.tp)
        if mn == "dmb":
            return self.fence("dmb " + (o[0] if o else "sy"))
        if mn == "bx":
            return self.R(o[0])
        if mn == "b":
            return self.tgt(o[0])
        m = re.match(r"^b(eq|ne|hi|ls|lo|hs|ge|lt|gt|le|mi|pl|cs|cc)$", mn)
        if m:
            return self.tgt(o[0]) if self.cond(m.group(1)) else None
        if mn in ("udf", ".word"):
            raise Fault("trap")
        raise Unknown("%s %s" % (mn, o))
