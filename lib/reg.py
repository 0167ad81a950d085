"""C07, C08: registration and queries of the library against a mock (and the real) kernel and C library; logs validated against RseqReg.tla."""
import json, os, itertools, random
from concurrent.futures import ThreadPoolExecutor
from core import *
import area

WRAP = ["-Wl,--wrap=syscall,--wrap=getauxval,--wrap=dlsym,--wrap=sched_getcpu"]


def builds(ctx):
    """library before or after the driver in link order (thread-local layout), and without its constructor"""
    h = os.path.join(HARN, "reg.c")
    lib = repo_srcs()
    b = {"first": cc(ctx, "reg-first", lib + [h], WRAP), "last": cc(ctx, "reg-last", [h] + lib, WRAP)}
    # the constructor removed: the first call initialises
    objs = []
    for i, s in enumerate(lib):
        o = os.path.join(ctx.dir, "reg-last.%d.o" % (i + 1))
        run(["objcopy", "--remove-section", ".init_array", "--remove-section", ".rela.init_array",
             "--remove-section", ".ctors", o, o[:-2] + "n.o"], check=True)
        objs.append(o[:-2] + "n.o")
    out = os.path.join(ctx.dir, "reg-stripped")
    run(["gcc", "-g", "-pthread", "-o", out, os.path.join(ctx.dir, "reg-last.0.o")] + objs + WRAP + ["-lnuma", "-ldl", "-lm"], check=True)
    b["stripped"] = out
    # the same with the library's code in a section of its own, for pauses at chosen instructions of it
    st = []
    for o in objs:
        run(["objcopy"] + sum((["--rename-section", ".text%s=librseq_text" % x] for x in ("", ".startup", ".unlikely", ".hot")), []) + [o, o[:-2] + "s.o"], check=True)
        st.append(o[:-2] + "s.o")
    out = os.path.join(ctx.dir, "reg-step")
    run(["gcc", "-g", "-pthread", "-o", out, os.path.join(ctx.dir, "reg-last.0.o")] + st + WRAP + ["-lnuma", "-ldl", "-lm"], check=True)
    b["step"] = out
    return b


def case(build, mask=0, lsize=0, aux=0, al=0, kern=1, fail="", ops=(), slow=0, off=1, flags=0, tun="", cpu=5, getcpu="77,9"):
    return dict(getcpu=getcpu, build=build, mask=mask, lsize=lsize, aux=aux, al=al, kern=kern, fail=fail, ops=list(ops), slow=slow, off=off, flags=flags, tun=tun, cpu=cpu)


def execute(bins, c, steps=False):
    env = {"RM_KERN": str(c["kern"]), "RM_AUX": str(c["aux"]), "RM_ALIGN": str(c["al"]), "RM_FAIL": c["fail"], "RM_CPU": str(c["cpu"]), "RM_GETCPU": c["getcpu"],
           "RM_LIBC": "%d,%d,%d,%d" % (c["mask"], c["lsize"], c["off"], c["flags"]), "RM_SLOW": str(c["slow"]), "GLIBC_TUNABLES": c["tun"]}
    if not c["fail"]:
        env.pop("RM_FAIL")
    a = (["stripped"] if c["build"] in ("stripped", "step") else []) + c["ops"]
    rc, out, err = run([bins[c["build"]]] + a, env=env, timeout=20)
    evs = []
    for ln in out.splitlines():
        if ln.startswith("{"):
            try:
                evs.append(json.loads(ln))
            except ValueError:
                break
    if rc == 124:
        evs.append({"e": "hang"})
    elif rc != 0:
        if not evs:         # died before main: in the constructor
            evs = [dict(e="start", mask=c["mask"], lsize=c["lsize"], aux=c["aux"], kern=1, stripped=1, size=0, offok=1, flok=1)]
        evs.append({"e": "crash", "rc": rc})
    elif not evs:
        raise Internal("registration driver printed nothing: " + err[-500:])
    # a concurrent round: order of the log lines is not the order of the calls; successes first is a legal order
    return [e for e in evs if e["e"] != "steps"] if not steps else next((e["n"] for e in evs if e["e"] == "steps"), 0)


def paused(bins):
    """a first registration paused at each of its instructions while another thread makes its own first registration"""
    base = [case("step", aux=28, al=32), case("step", aux=40), case("step", aux=28, fail="2:22"), case("step", aux=28, fail="1:1"), case("step", kern=0), case("step", mask=7, lsize=20, aux=28),
            case("step", mask=7, lsize=24, aux=28, flags=1), case("step", mask=7, lsize=0, aux=36)]
    r = []
    for c in base:
        n = min(execute(bins, dict(c, ops=["S0,0,1"]), steps=True), 600)
        r += [dict(c, ops=["S0,%d,1" % k] + ([] if c["fail"] else ["q0", "q1", "r2", "q2", "u0", "u1"]) + ["a0"]) for k in range(1, n + 1)]
    return r


def scenarios(ctx):
    auxs = [0, 20, 24, 28, 32, 33, 36, 40, 64, 1024]
    r = []
    life = ["q0", "u0", "a0", "a1", "a2", "q1", "r0", "q0", "r1", "q1", "n0", "u0", "q0", "r0", "q0", "u1", "u0", "u0", "q2", "a0", "a1", "r2", "k2=255", "q2", "u2", "x2", "r2", "q2", "u2"]
    for aux in auxs:
        for al in (0, 32, 64, 1024):
            for b in ("first", "last"):
                r.append(case(b, aux=aux, al=al, ops=life))
                r.append(case(b, mask=7, lsize=0, aux=aux, al=al, ops=life))
    for mask in range(7):
        for ls in (20, 28, 32):
            for aux in (0, 28, 40):
                r.append(case("last", mask=mask, lsize=ls, aux=aux, ops=life, flags=1))
    for ls in (20, 24, 28, 32, 33, 36, 40, 64, 1024):
        for aux in auxs:
            if ls in (20, 32) or ls <= (aux or 20):
                r.append(case("last", mask=7, lsize=ls, aux=aux, al=32, ops=["q0", "r0", "q0", "u0", "u0", "r0", "r0", "r1", "q1", "a0", "a1", "a7", "k1=300", "q1", "k1=-1", "q1", "k1=-2", "q1", "k1=0", "q1", "R0,1,2,3", "u3"], flags=3))
                r.append(case("last", mask=7, lsize=ls, aux=aux, kern=0, ops=["a0", "a1", "r0", "q0", "u0"]))
    # no system call
    for aux in (0, 28):
        for mask, ls in ((0, 0), (7, 0), (3, 32)):
            r.append(case("last", mask=mask, lsize=ls, aux=aux, kern=0, ops=["a0", "a1", "r0", "q0", "r1", "u0", "r0", "a0", "q1", "R0,1,2,3"]))
    # failures at every call, before and after the first success
    ops = ["r0", "q0", "r1", "u1", "q1", "r1", "u0", "r0", "r2", "q2"]
    for n in range(1, 9):
        for e in (1, 12, 14, 16, 22):
            for aux in (0, 28, 40):
                r.append(case("first" if n % 2 else "last", aux=aux, fail="%d:%d" % (n, e), ops=ops))
    for k in (2, 3, 5):     # repeated failures, then success
        r.append(case("last", aux=28, fail=",".join("%d:22" % i for i in range(1, k)), ops=["r%d" % (i % 4) for i in range(k + 2)] + ["q0", "u0"]))
    for f in ("2:1", "2:14", "2:22", "2:16", "2:1,3:1"):
        r.append(case("last", aux=28, fail=f, ops=["r0", "u0", "u0", "u0", "r0"]))
    # registering a registered thread
    r.append(case("last", aux=28, ops=["r0", "r0"]))
    r.append(case("last", aux=28, ops=["r0", "r1", "u0", "r1"]))
    # many threads, concurrently; the first call initialises
    for aux in (0, 28, 40):
        for b in ("last", "stripped"):
            for slow in (0, 8, 25):
                r.append(case(b, aux=aux, al=32, slow=slow, ops=["R0,1,2,3", "q0", "q3", "u1", "u2", "a0", "r1", "r2", "u0", "u3", "q3"]))
                r.append(case(b, aux=aux, kern=0, slow=slow, ops=["R0,1,2,3", "q0", "a0"]))
                for ls in (20, 32, 24):
                    if ls != 24 or aux >= 24:
                        r.append(case(b, mask=7, lsize=ls, aux=aux, slow=slow, ops=["R0,1,2,3", "q0", "q3", "u1", "a0", "a1"]))
    for g in ("0,0", "1,1", "255,3", "256,255", "300,256", "4095,1023", "65536,4", "8191,65535"):
        r.append(case("last", aux=28, getcpu=g, ops=["q0", "n0", "r0", "q0", "u0", "q0", "n1", "q1"]))
        r.append(case("last", kern=0, getcpu=g, ops=["q0", "n0", "r0", "q0"]))
    for cpu in (0, 1, 127, 128, 255, 256, 4095, 65536, 0x7ffffff0):
        r.append(case("last", aux=28, cpu=cpu, ops=["r0", "r3", "q0", "q3", "q1"]))
    # exit of the process
    for aux in (0, 24, 28, 40):
        for ops in ([], ["r0", "r1", "q1"], ["r0", "u0"]):
            for mask, ls in ((0, 0), (7, 0), (7, 20), (7, 32), (7, 24)):
                if ls != 24 or aux >= 24:
                    r.append(case("first" if aux == 28 else "last", mask=mask, lsize=ls, aux=aux, ops=ops + ["g"]))
    # the real kernel, with the C library owning the registration and not
    for tun in ("", "glibc.pthread.rseq=0"):
        for b in ("first", "last"):
            r.append(case(b, kern="real", tun=tun, ops=["a0", "a1", "q0", "r0", "q0", "r1", "q1", "u0", "q0", "r0", "u1", "u0", "r3", "x2", "R0,1,2", "q2", "u2"]))
    return r


def generated(ctx):
    r = []
    num = 1500 if THOROUGH else 250
    for m in ("lib", "libc"):
        for i, g in enumerate(tlc_simulate(ctx, "RseqRegGen", "RseqRegGen_" + m, num, 40, SEED)):
            c = g["c"]
            f = "%d:%d" % tuple(g["fail"]) if g["fail"][0] else ""
            r.append(case("first" if i % 2 else "last", mask=c["mask"], lsize=c["lsize"], aux=c["aux"], al=g["al"], kern=c["kern"], fail=f, ops=g["ops"], flags=i % 3))
    return r


def go(ctx):
    for k in ("", "Deep") if THOROUGH else ("",):
        mc(ctx, "RseqRegMC", "RseqRegMC" + k)
    for k, v in (("NoRecheck", "SizeSteps"), ("EarlyPublish", "Ok"), ("LenFromSize", "Ok")) if THOROUGH else ((("EarlyPublish", "Ok"),) if ctx.prop == "C08" else (("NoRecheck", "SizeSteps"), ("LenFromSize", "Ok"))):
        mc(ctx, "RseqRegMC", "RseqRegMC" + k, expect_violation=v)
    bins = builds(ctx)
    cs = scenarios(ctx) + generated(ctx)
    pc = paused(bins)
    ctx.notes["pause points in concurrent first registrations"] = len(pc)
    cs += pc
    ctx.log("%d scenarios" % len(cs))
    with ThreadPoolExecutor(NPROC * 2) as ex:
        evs = list(ex.map(lambda c: execute(bins, c), cs))
    ctx.assume += ["the mock kernel follows the rseq system call of Linux 6.x (cross-checked with the running kernel)"]
    validate(ctx, "RseqRegTrace", "RseqRegTrace", list(zip(cs, evs)), lambda c: execute(bins, c), env={"PROP": ctx.prop}, title="scenario")
    if ctx.prop == "C08":       # the queries on made-up areas, on every architecture
        ac, again = area.bind(ctx)
        validate(ctx, "AreaTrace", "AreaTrace", [x for x in ac if x[1][0]["e"] != "unload"], again, env={"PROP": "C08"})


CHECKS = {"C07": go, "C08": go}
