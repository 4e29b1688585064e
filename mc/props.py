"""What each property's check builds and explores."""
import os, re
from .driver import *
from .programs import c22
from .headers import c24

H = os.path.join(VERIF, "harness")


def seq(src, hang=25, only=None, extra=(), configs=None, assumptions=(), free=True):
    def f(c):
        cfgs = configs(c) if configs else (thorough_configs() if c.thorough else quick_configs())
        if free:
            cfgs = cfgs + ([free_config(), free_config("c++11", "clang++"), free_config("c++20")] if c.thorough else [free_config()])
        bins = c.build_all([(os.path.join(H, src), cfg, tuple(extra)) for cfg in cfgs])
        c.log("built", len(bins))
        c.assumptions += list(assumptions)
        if not c.violations:
            c.explore(bins, only=only, hang=hang)
    return f


def c07(c):
    cfgs = thorough_configs() if c.thorough else quick_configs()
    jobs = []
    # slowest builds first
    for n in (4, 3, 2, 1) + ((5, 6) if c.thorough else ()):
        jobs.append((os.path.join(H, "c07big.cpp"), Config("g++", "c++17", san=False), ("-DMC_BIGN=%d" % n,)))
    if c.thorough:
        for n in (3, 2, 1):
            jobs.append((os.path.join(H, "c07big.cpp"), Config("clang++", "c++14", san=False), ("-DMC_BIGN=%d" % n,)))
    jobs += [(os.path.join(H, "c07.cpp"), cfg, ("-DMC_BIG",) if c.thorough else ()) for cfg in cfgs]
    jobs.append((os.path.join(H, "c07.cpp"), free_config(), ()))
    bins = c.build_all(jobs)
    c.log("built", len(bins))
    if not c.violations:
        c.explore(bins)


def parts(src, n, secondary=("clang++", "c++11"), hang=25, single=()):
    """A harness in n separately compiled parts: every part with g++ C++17, and again with a second
    compiler and standard (thorough: all of them)."""
    def f(c):
        cfgs = thorough_configs() if c.thorough else [Config("g++", "c++17"), Config(*secondary, scale=-1)]
        jobs = [(os.path.join(H, src), cfg, ("-DPART=%d" % i,)) for cfg in cfgs for i in range(1, n + 1)]
        bins = c.build_all(jobs)
        c.log("built", len(bins))
        if not c.violations:
            c.explore(bins, hang=hang)
    return f


def types(c):
    """Questions the compiler answers: many configurations, no sanitizer."""
    cfgs = [Config("g++", "c++17"), Config("clang++", "c++11"), Config("g++", "c++11"), Config("clang++", "c++20")]
    if c.thorough:
        cfgs = [Config(x, s) for x in ("g++", "clang++") for s in ("c++11", "c++14", "c++17", "c++20", "c++2b")]
    jobs = [(os.path.join(H, "c23.cpp"), Config(g.cxx, g.std, san=False, opt="-O0"), ("-DPART=%d" % i,)) for i in (2, 3, 4, 1) for g in cfgs]
    bins = c.build_all(jobs)
    c.log("built", len(bins))
    if not c.violations:
        c.explore(bins)


def withoracle(src, n, hang=25, cfgs=None, plain=()):
    """parts() plus the reference formatter, compiled separately as C++20."""
    def f(c):
        orc = os.path.join(c.work, "oracle.o")
        import threading
        res = {}

        def oc():
            res["r"] = c.compile(os.path.join(VERIF, "mc", "fmt_oracle.cpp"), Config("g++", "c++20", san=False, opt="-O2"), out=orc, link=False)
        th = threading.Thread(target=oc)
        th.start()
        cs = cfgs(c) if cfgs else (thorough_configs() if c.thorough else quick_configs())
        jobs = [(os.path.join(H, src), cfg, ("-c", "-DPART=%d" % i)) for cfg in cs for i in range(1, n + 1)]
        jobs += [(os.path.join(H, src), Config("g++", "c++17", san=False, opt="-O2"), ("-c", "-DPART=%d" % i)) for i in plain]
        objs = c.build_all(jobs)
        th.join()
        if c.violations:
            return
        if res["r"][0] != 0:
            raise CheckError("the reference formatter does not compile: " + res["r"][2][:2000])
        bins = []
        for o, cfg in objs:
            rc, so, e = c.run([cfg.cxx, "-pthread"] + (SAN if cfg.san else []) + [o, orc, "-o", o + ".bin"])
            if rc != 0:
                raise CheckError("link of %s failed: %s" % (o, e[:2000]))
            bins.append((o + ".bin", cfg))
        c.log("built", len(bins))
        c.explore(bins, hang=hang)
    return f


TSAN = ["-fsanitize=thread", "-fno-tree-loop-distribute-patterns", "-Wno-tsan"]
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


def conc(src):
    """Concurrent scenario: instrumented object + own scheduler instead of the tsan runtime."""
    def f(c):
        cfgs = [Config("g++", "c++17", san=False), Config("clang++", "c++11", san=False, scale=-1)]
        if c.thorough:
            cfgs += [Config("g++", "c++11", san=False, opt="-O0", scale=-1), Config("clang++", "c++20", san=False, scale=-1)]
        rc, rt, e, _ = c.compile(os.path.join(VERIF, "mc", "sched.cpp"), cfgs[0], link=False)
        if rc != 0:
            raise CheckError("the scheduler does not compile: " + e[:2000])
        jobs = []
        for cfg in cfgs:
            tc = Config(cfg.cxx, cfg.std, opt=cfg.opt, san=False, scale=cfg.scale, extra=TSAN if cfg.cxx == "g++" else TSAN[:1])
            jobs.append((os.path.join(H, src), tc, ("-c",)))
        objs = c.build_all(jobs)
        if c.violations:
            return
        bins = []
        flag = False
        for (o, tc), cfg in zip(objs, cfgs):
            # without any try-lock nobody can observe how long a lock is held: unlock needs no scheduling point
            rc, syms, e = c.run(["nm", "-u", o])
            flag = flag or bool(re.search(r"try|timed|clocklock", " ".join(x for x in syms.split() if x.startswith("pthread") or x.startswith("sem"))))
            out = o + ".bin"
            rc, so, e = c.run(["g++", "-pthread"] + WRAP + [rt, o, "-o", out])
            if rc != 0:
                raise CheckError("link of %s failed (synchronisation primitive the scheduler does not know?): %s" % (o, e[:2000]))
            bins.append((out, cfg))
        c.log("built", len(bins))
        c.assumptions += [
            "interleavings of sequentially consistent executions at the granularity of synchronisation operations; weaker memory orders are covered by the happens-before race detector, not by exploring stale values",
            "preemption bounds per scenario: 2-thread scenarios unbounded, others as stated in the harness (quick 2-4, thorough 4-unbounded)"]
        c.explore(bins, hang=60, extra_args=["--flag"] if flag else [])
    return f


STDIO = ["fopen", "fclose", "fgetc", "getc", "fgets", "fread", "fputc", "putc", "fputs", "fwrite", "fseek", "ftell", "ferror", "feof", "ungetc", "fflush"]

TABLE = {
    "C01": seq("c01.cpp"),
    "C02": seq("c02.cpp"),
    "C03": parts("c03.cpp", 5),
    "C04": seq("c04.cpp"),
    "C05": seq("c05.cpp"),
    "C06": seq("c06.cpp"),
    "C07": c07,
    "C08": seq("c08.cpp"),
    "C09": parts("c09.cpp", 5),
    "C10": parts("c10.cpp", 4),
    "C11": parts("c11.cpp", 3),
    "C12": seq("c12.cpp"),
    "C13": conc("c13.cpp"),
    "C14": conc("c14.cpp"),
    "C15": conc("c15.cpp"),
    "C16": withoracle("c16.cpp", 2),
    "C17": withoracle("c17.cpp", 2),
    "C18": withoracle("c18.cpp", 6, plain=(4,), cfgs=lambda c: thorough_configs() if c.thorough else [Config("g++", "c++17"), Config("clang++", "c++11", scale=-1)]),
    "C19": seq("c19.cpp", free=False, extra=["-Wl," + ",".join("--wrap=" + x for x in STDIO)]),
    "C20": parts("c20.cpp", 4),
    "C21": seq("c21.cpp"),
    "C22": c22,
    "C23": types,
    "C24": c24,
}
