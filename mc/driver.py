"""Shared driver of all checks: builds harnesses from /repo's working tree, runs the exhaustive
explorations in parallel, confirms every violation by replaying it alone, writes the evidence."""
import concurrent.futures as cf, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EFP_REPO", "/repo")
NCPU = max(2, os.cpu_count() or 2)

ASAN_OPTS = ("detect_leaks=0:abort_on_error=0:exitcode=95:malloc_fill_byte=205:max_malloc_fill_size=1048576:"
             "hard_rss_limit_mb=6000:max_allocation_size_mb=2000:allocator_may_return_null=0:detect_stack_use_after_return=1:"
             "quarantine_size_mb=16:handle_abort=1:symbolize=1")
UBSAN_OPTS = "print_stacktrace=1:halt_on_error=1:exitcode=95"

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute,returns-nonnull-attribute",
       "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]


class Config:
    def __init__(self, cxx, std, opt="-O1", san=True, extra=(), scale=0, free=False):
        self.cxx, self.std, self.opt, self.san, self.extra, self.scale, self.free = cxx, std, opt, san, list(extra), scale, free

    @property
    def name(self):
        return "%s-%s%s%s" % (self.cxx, self.std, "" if self.san else "-nosan", "-free" if self.free else "")

    def free_flags(self):
        # clang does not treat main as the entry point with -ffreestanding
        f = ["-ffreestanding"] if self.cxx == "g++" else ["-U__STDC_HOSTED__", "-D__STDC_HOSTED__=0"]
        return f + ["-I" + VERIF + "/mc/free", "-include", VERIF + "/mc/freestanding.hpp"]

    def flags(self):
        f = ["-std=" + self.std, self.opt, "-g1", "-w", "-pthread"]
        if self.free:
            f += self.free_flags()
        f += ["-I" + REPO + "/include", "-I" + VERIF]
        if self.cxx == "g++":
            f += ["-fno-lifetime-dse"]
        if self.san:
            f += SAN
        return f + self.extra


def quick_configs():
    return [Config("g++", "c++17"), Config("clang++", "c++11", scale=-1), Config("g++", "c++20", scale=-1)]


def free_config(std="c++17", cxx="g++"):
    """The library as a freestanding build sees it: own allocator, no <memory>, no std conversions."""
    return Config(cxx, std, scale=-1, free=True)


def thorough_configs():
    out = [Config("g++", "c++17")]
    for cxx in ("g++", "clang++"):
        for std in ("c++11", "c++14", "c++17", "c++20", "c++2b"):
            if (cxx, std) != ("g++", "c++17"):
                out.append(Config(cxx, std, scale=-1))
    return out


class CheckError(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True,
                        explorations=[])
        self.assumptions = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.procs = set()
        self.compiled = []

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- processes ---------------------------------------------------------------------------
    def run(self, cmd, timeout=600, env=None, cwd=None, input=None):
        e = dict(os.environ, ASAN_OPTIONS=ASAN_OPTS, UBSAN_OPTIONS=UBSAN_OPTS, LC_ALL="C")
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             env=e, cwd=cwd or self.work, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, err = p.communicate(input, timeout=timeout)
            return p.returncode, out.decode("latin-1"), err.decode("latin-1")
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, err = p.communicate()
            return "timeout", out.decode("latin-1"), err.decode("latin-1")
        finally:
            with self.lock:
                self.procs.discard(p)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass

    def kill_all(self):
        self.stop.set()
        with self.lock:
            ps = list(self.procs)
        for p in ps:
            self.kill(p)

    # ---- building ----------------------------------------------------------------------------
    def compile(self, src, cfg, out=None, extra=(), link=True):
        out = out or os.path.join(self.work, os.path.basename(src).replace(".", "_") + "-" + cfg.name + ("" if link else ".o"))
        cmd = [cfg.cxx] + cfg.flags() + list(extra) + [src, "-o", out] + ([] if link else ["-c"])
        rc, o, e = self.run(cmd, timeout=800)
        return rc, out, e, cmd

    def includes_compile(self, cfg):
        """Does a translation unit that only includes the library compile?"""
        src = os.path.join(self.work, "bare.cpp")
        open(src, "w").write('#include "efp.hpp"\nint main() { return 0; }\n')
        rc, out, e, _ = self.compile(src, cfg, out=os.path.join(self.work, "bare-" + cfg.name))
        return rc == 0, e

    def build_all(self, jobs):
        """jobs: list of (src, cfg, extra). Returns list of binaries; a failing harness is a violation
        (the public interface the property speaks of is gone) if the library itself compiles."""
        def one(j):
            src, cfg, extra = j
            return (j,) + self.compile(src, cfg, out=os.path.join(self.work, "%s-%s" % (os.path.basename(src).replace(".", "_") + re.sub(r"[^A-Za-z0-9]", "", "".join(extra)), cfg.name)), extra=extra)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        bins = []
        for (src, cfg, extra), rc, out, err, cmd in res:
            if rc != 0:
                ok, bare = self.includes_compile(cfg)
                if not ok:
                    raise CheckError("the library does not compile with %s: %s" % (cfg.name, bare[:2000]))
                self.violation(dict(kind="compile", scenario="build of " + os.path.basename(src), config=cfg.name, message="a program using the public interface no longer compiles",
                                    command=" ".join(cmd), log=err[:6000]))
            bins.append((out, cfg))
        self.compiled += [c.name for _, c in bins]
        return bins

    # ---- violations --------------------------------------------------------------------------
    def violation(self, v):
        with self.lock:
            if self.violations:
                return
            self.violations.append(v)
        self.kill_all()

    def finish(self):
        known = load_known()
        code = 0
        for v in self.violations:
            k = match_known(known, self.prop, v)
            if k:
                continue
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v.get("scenario", "x"))[:60]))
            json.dump(dict(property=self.prop, tier=self.tier, **v), open(path, "w"), indent=1)
            print("violated: %s: %s" % (v.get("scenario"), v.get("message")))
            if v.get("log"):
                print("  history: " + v["log"][:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            code = 1
        for k in known.get("findings", []):
            if k["property"] == self.prop:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        c = self.cov
        c["samples"] = c["samples"][:12]
        c["configurations"] = sorted(set(self.compiled))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=c,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=1 if code else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.prop + ".tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s: states=%d transitions=%d executions=%d wall=%.1fs %s" % (
            self.prop, c["states"], c["transitions"], c["traces_validated_against_impl"], time.time() - self.t0,
            "VIOLATED" if code else "holds on everything explored"))
        return code

    def cleanup(self):
        self.kill_all()
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- running explorers -------------------------------------------------------------------
    def read_journal(self, path):
        try:
            b = open(path, "rb").read()
            execs, ln, hang = struct.unpack_from("<QII", b, 0)
            return list(struct.unpack_from("<%dH" % ln, b, 16)), execs
        except Exception:
            return [], 0

    def explore(self, bins, only=None, extra_args=(), hang=25):
        """bins: [(binary, cfg)].  Runs every scenario of every binary, sharded, in parallel."""
        jobs = []
        for b, cfg in bins:
            rc, o, e = self.run([b, "--list"] + (["--thorough"] if self.thorough else []))
            if rc != 0:
                raise CheckError("%s --list failed: rc=%s %s" % (b, rc, e[-2000:]))
            for line in o.split("\n"):
                if not line.strip():
                    continue
                name, sh = line.rsplit(" ", 1)
                if only and not re.search(only, name):
                    continue
                for i in range(int(sh)):
                    jobs.append((b, cfg, name, i, int(sh)))
        agg = {}
        limit = 3000 if self.thorough else 700

        def one(j):
            b, cfg, name, i, sh = j
            if self.stop.is_set():
                return
            jn = os.path.join(self.work, "j-%s-%s-%d" % (re.sub(r"\W", "_", os.path.basename(b)), re.sub(r"\W", "_", name), i))
            args = [b, "--scenario", name, "--shard", "%d/%d" % (i, sh), "--scale", str(cfg.scale), "--journal", jn, "--hang", str(hang)] + list(extra_args)
            if self.thorough:
                args.append("--thorough")
            rc, o, e = self.run(args, timeout=limit)
            if self.stop.is_set():
                return
            m = re.search(r"^MCDONE (.*)$", o, re.M)
            if rc == 0 and m:
                d = json.loads(m.group(1))
                info = re.findall(r"^MCINFO (.*)$", o, re.M)
                with self.lock:
                    a = agg.setdefault((cfg.name, name), dict(scenario=name, config=cfg.name, execs=0, transitions=0, states=0, outcomes=0, depth=0))
                    for k in ("execs", "transitions", "states"):
                        a[k] += d[k]
                    a["outcomes"] = max(a["outcomes"], d["outcomes"]) if sh == 1 else a["outcomes"] + d["outcomes"]
                    a["depth"] = max(a["depth"], d["depth"])
                    if d.get("abandoned"):
                        a["abandoned"] = a.get("abandoned", 0) + d["abandoned"]
                    if info:
                        a["info"] = info
                    if len(self.cov["samples"]) < 12:
                        self.cov["samples"] += [dict(scenario=name, history=s) for s in d["samples"][-1:]]
                return
            choices, execs = self.read_journal(jn)
            self.confirm(b, cfg, name, choices, rc, o, e, extra_args, args, limit)

        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(one, j) for j in jobs]
            for f in fs:
                f.result()
        for a in agg.values():
            self.cov["explorations"].append(a)
            self.cov["states"] += a["states"] or a["outcomes"]
            self.cov["transitions"] += a["transitions"] or a["execs"]
            self.cov["traces_validated_against_impl"] += a["execs"]
            if any("capped=1" in x for x in a.get("info", [])):
                self.cov["exhaustive"] = False
                self.cov.setdefault("caps_hit", []).append("%s %s: %s" % (a["config"], a["scenario"], a["info"][-1]))

    def confirm(self, b, cfg, name, choices, rc, o, e, extra_args=(), job=None, limit=700):
        """Replay the failing history alone before reporting it."""
        msg = (re.findall(r"^MCFAIL (.*)$", o, re.M) or [None])[-1]
        if msg and msg.startswith("harness error"):
            # an exploration whose choice structure is not reproducible: undefined behaviour of the code
            # under test is the only source of nondeterminism here, but never report it unconfirmed
            raise CheckError("%s %s: %s" % (cfg.name, name, msg))
        if rc == "timeout":
            raise CheckError("%s %s: exploration did not finish in time" % (cfg.name, name))
        r = ",".join(map(str, choices))
        args = [b, "--scenario", name, "--replay", r, "--scale", str(cfg.scale), "--hang", "60"] + list(extra_args) + (["--thorough"] if self.thorough else [])
        rcs = []
        for _ in range(2):
            rc2, o2, e2 = self.run(args, timeout=200)
            if re.search(r"^MCFAIL harness error", o2, re.M):
                rc2 = 0  # the history went on past the point where it failed before: not reproduced
            rcs.append(rc2)
            if rc2 == 0:
                break
        if any(x == 0 for x in rcs) and job and not self.stop.is_set():
            # damage done by an earlier history of the same exploration: the whole (deterministic)
            # exploration has to fail again
            rc2, o2, e2 = self.run(job, timeout=limit)
            if rc2 != 0 and rc2 != "timeout" and not re.search(r"^MCFAIL harness error", o2, re.M) and not self.stop.is_set():
                rcs, args, r = [rc2], job, "whole exploration"
        if self.stop.is_set():
            return
        if any(x == 0 for x in rcs):
            raise CheckError("%s %s: failure (rc=%s %s) did not reproduce on replay of [%s]\n%s" % (cfg.name, name, rc, msg, r, e[-3000:]))
        m2 = (re.findall(r"^MCFAIL (.*)$", o2, re.M) or [None])[-1]
        lg = (re.findall(r"^MCLOG (.*)$", o2, re.M) or [""])[-1]
        san = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?)", e2)
        text = m2 or (san.group(1) if san else "crash, exit code %s" % rc2)
        self.violation(dict(kind="replay", scenario=name, config=cfg.name, choices=choices, message=text, log=lg,
                            command=" ".join(args), stderr=e2[:6000]))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def match_known(known, prop, v):
    for k in known.get("findings", []):
        if k["property"] == prop and k.get("scenario") == v.get("scenario") and k.get("choices") == v.get("choices"):
            return k
    return None


def main(table):
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        prop, tier = d["property"], d["tier"]
    else:
        d = None
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    def bye(*_):
        c.cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        try:
            table[prop](c)
        except CheckError as e:
            if c.violations:
                pass
            else:
                print("ERROR: %s" % e)
                return 2
        return c.finish()
    finally:
        c.cleanup()
