"""Bounded space of programs over the public headers: which headers the files of a program include, in which
order, in which language standard and configuration; and of programs that use each type of the library with the standard library.  Every
program has to compile, to link and to do what the model says, whatever stands around it."""
import itertools, os, re
from .driver import *

# header: (type passed between the files, statements that make one, expression that reads one, its value)
USE = {
    "cpp_core": ("efp::RuntimeError", 'return efp::RuntimeError("xyz");', "x.what()[1]", ord("y")),
    "meta": ("efp::Tuple<char _ double _ int>", "return efp::Tuple<char _ double _ int>('a', 2.5, 7);",
             "long(efp::fst(x) + efp::snd(x) * 2 + efp::get<2>(x) * 1000) + (efp::IsSame<efp::Decay<const int&> _ int>::value ? 10000 : 0)", ord("a") + 5 + 7000 + 10000),
    "trait": ("int", "return 3;", "long(x)", 3),
    "sequence": ("efp::Vector<int>", "efp::Vector<int> v; v.push_back(3); v.push_back(4); v.insert(1, 5); return v;",
                 "long(x.size() * 1000 + x[0] * 100 + x[1] * 10 + x[2])", 3354),
    "enum": ("efp::Enum<int _ double _ char>", "return efp::Enum<int _ double _ char>(2.5);",
             "x.match([](int) { return 1L; }, [](double d) { return long(d * 10); }, [](char) { return 3L; }) + 100 * long(x.index())", 125),
    "maybe": ("efp::Maybe<int>", "return efp::Maybe<int>(6);", "x.match([](efp::Nothing) { return 1L; }, [](int n) { return long(n); }) + (x.has_value() ? 100 : 0)", 106),
    "prelude": ("efp::ArrVec<int _ 4>", "efp::ArrVec<int _ 4> v; v.push_back(3); v.push_back(4); v.push_back(5); return v;",
                "long(efp::foldl([](int a _ int b) { return a * 10 + b; }, 0, efp::map([](int n) { return n + 1; }, efp::filter([](int n) { return n != 4; }, x))))", 46),
    "cyclic": ("efp::Vcq<int _ 2>", "efp::Vcq<int _ 2> q; q.push_back(1); q.push_back(2); q.push_back(3); return q;", "long(x.size() * 100 + x[0] * 10 + x[1])", 223),
    "numeric": ("double", "return 1.5;", "long(efp::square(x) * 100 + efp::abs(-x) * 10)", 240),
    "scientific": ("efp::Array<double _ 4>", "efp::Array<double _ 4> a {1.0, 2.0, 3.0, 6.0}; return a;", "long(efp::mean<double>(x) * 10 + efp::sum(x) * 100 + efp::variance<double>(x) * 1000 + 0.5)", 4730),
    "sort": ("efp::Vector<int>", "efp::Vector<int> v {3, 1, 2}; return v;",
             "[](efp::Vector<int> v) { efp::quicksort(v); return long(v[0] * 100 + v[1] * 10 + v[2]); }(x)", 123),
    "io": ("int", "return 7;", '(efp::File::open("/nonexistent/file", "r").has_value() ? 1L : 2L) + long(sizeof(efp::File) > 0) * x', 9),
    "string": ("efp::String", 'efp::String s("ab"); s.append("cd"); s.insert(1, "x"); return s;', "long(x.size() * 1000 + (x == \"axbcd\" ? 100 : 0) + x.compare(efp::String(\"b\")))", 5099),
    "format": ("efp::Vector<int>", "efp::Vector<int> v {1, 2}; return v;", '(efp::format("{} {:>5}|{:.2f}", x, 42, 1.5) == "[1, 2]    42|1.50" ? 1L : 2L)', 1),
    "concurrency": ("int", "return 4;", "[](int n) { efp::BlockingQ<int _ 2> q; q.enqueue(n); q.enqueue(5); const long f = q.dequeue(); return f * 10 + q.dequeue(); }(x)", 45),
    "c_utility": ("int", "return 3;", "[](int n) { auto f = [n](int k) { return n * k; }; return long(efp::func_ptr(f)(4)); }(x)", 12),
}
# headers that say something in a freestanding build
FREE = ("cpp_core", "meta", "trait", "sequence", "enum", "maybe", "prelude", "cyclic", "numeric", "sort", "string", "c_utility")


def headers():
    d = os.path.join(REPO, "include", "efp")
    hs = sorted(x[:-4] for x in os.listdir(d) if x.endswith(".hpp"))
    return [h for h in hs if h != "allocator"]  # part of the freestanding sequence.hpp


def inc(h):
    return '#include "efp.hpp"\n' if h == "efp" else '#include "efp/%s.hpp"\n' % h


def file_text(order, used, ns, main):
    """One file: the includes in the given order, then a maker and a reader for every header used."""
    t = "".join(inc(h) for h in order) + "#include <cstdio>\n"
    other = "b" if ns == "a" else "a"
    for h in used:
        T, make, use, want = USE[h]
        f = lambda s: s.replace(" _ ", ", ")
        t += "namespace %s { %s make_%s() { %s }\nlong use_%s(const %s& x) { return %s; } }\n" % (ns, f(T), h, f(make), h, f(T), f(use))
        if main:
            t += "namespace %s { %s make_%s(); long use_%s(const %s& x); }\n" % (other, f(T), h, h, f(T))
    if main:
        t += "int main() {\n"
        for h in used:
            for x, y in itertools.product("ab", "ab"):
                t += '    printf("%s %%ld\\n", %s::use_%s(%s::make_%s()));\n' % (h, x, h, y, h)
        t += "    return 0;\n}\n"
    return t


class Program:
    """two files; first includes `one`, second includes `two` (orders of headers); both use `used`"""
    def __init__(self, i, one, two, used, cfg):
        self.i, self.one, self.two, self.used, self.cfg = i, one, two, used, cfg
        self.what = "a.cpp: %s; b.cpp: %s; %s" % (", ".join(one), ", ".join(two), cfg.name)

    def run(self, c):
        if c.stop.is_set():
            return 0
        objs, log = [], ""
        base = os.path.join(c.work, "p%d" % self.i)
        srcs = [file_text(self.one, self.used, "a", True), file_text(self.two, self.used, "b", False)]
        flags = ["-std=" + self.cfg.std, "-w", "-O0", "-pthread"]
        if self.cfg.free:
            flags += self.cfg.free_flags()
        flags += ["-I" + REPO + "/include"]
        msg, n = None, 0
        for k, s in enumerate(srcs):
            src = "%s%d.cpp" % (base, k)
            open(src, "w").write(s)
            rc, o, e = c.run([self.cfg.cxx] + flags + ["-c", src, "-o", src + ".o"], timeout=300)
            n += 1
            if c.stop.is_set():
                return n
            if rc not in (0, 1):
                raise CheckError("%s died: %s" % (self.cfg.cxx, e[-1500:]))
            if rc != 0:
                msg, log = "a file that includes these headers in this order does not compile", e[:2500]
                break
            objs.append(src + ".o")
        if msg is None:
            rc, o, e = c.run([self.cfg.cxx, "-pthread"] + objs + ["-o", base + ".exe"], timeout=300)
            if rc != 0:
                msg, log = "two files that include these headers do not link", e[:2500]
            else:
                rc, o, e = c.run([base + ".exe"], timeout=60)
                got = [l.split() for l in o.split("\n") if l]
                want = [[h, str(USE[h][3])] for h in self.used for _ in range(4)]
                if rc != 0 or got != want:
                    bad = [(g, w) for g, w in itertools.zip_longest(got, want) if g != w]
                    msg = "the program ends with %s and computes %s instead of %s" % (rc, bad[0][0] if bad else "", bad[0][1] if bad else "")
        for f in os.listdir(c.work):
            if re.match(r"p%d(\d\.cpp.*|\.exe)$" % self.i, f):
                os.unlink(os.path.join(c.work, f))
        if msg and not c.stop.is_set():
            c.violation(dict(kind="program", scenario=self.what, config=self.cfg.name, message=msg, program="// a.cpp\n" + srcs[0] + "// b.cpp\n" + srcs[1], log=log,
                             command="%s %s" % (self.cfg.cxx, " ".join(flags))))
        return n


# type: statements that make the value i (0..9) of it, expression that reads it back
VALUES = {
    "efp::Array<int, 2>": ("efp::Array<int, 2> a; a[0] = i; a[1] = i + 1; return a;", "x[1] == x[0] + 1 ? x[0] : -1"),
    "efp::ArrVec<efp::String, 3>": ('efp::ArrVec<efp::String, 3> a; a.push_back("x"); a.push_back(efp::String(size_t(i), char(121))); return a;', "x.size() == 2 ? long(x[1].size()) : -1"),
    "efp::Vector<int>": ("efp::Vector<int> a; for (int k = 0; k < i; ++k) a.push_back(k); return a;", "long(x.size())"),
    "efp::Vector<efp::Vector<int>>": ("efp::Vector<efp::Vector<int>> a; a.resize(1); a[0].resize(size_t(i)); return a;", "x.size() == 1 ? long(x[0].size()) : -1"),
    "efp::String": ("return efp::String(size_t(i), char(120));", "long(x.size())"),
    "efp::StringView": ('return efp::StringView("012345678" + (9 - i));', "long(x.size())"),
    "efp::VectorView<const int>": ("static const int n[9] = {}; return efp::VectorView<const int>(n, size_t(i));", "long(x.size())"),
    "efp::Vcb<int, 3>": ("efp::Vcb<int, 3> a; for (int k = 0; k <= i; ++k) a.push_back(k); return a;", "x[2]"),
    "efp::Vcq<efp::String, 3>": ("efp::Vcq<efp::String, 3> a; for (int k = 0; k <= i; ++k) a.push_back(efp::String(size_t(k), char(120))); return a;", "long(x[x.size() - 1].size())"),
    "efp::Enum<int, efp::String>": ("return i % 2 ? efp::Enum<int, efp::String>(i) : efp::Enum<int, efp::String>(efp::String(size_t(i), char(120)));",
                                    "x.match([](int n) { return long(n); }, [](const efp::String& s) { return long(s.size()); })"),
    "efp::Maybe<efp::String>": ("return i ? efp::Maybe<efp::String>(efp::String(size_t(i), char(120))) : efp::Maybe<efp::String>(efp::nothing);",
                                "x.match([](efp::Nothing) { return 0L; }, [](const efp::String& s) { return long(s.size()); })"),
    "efp::Tuple<int, efp::String>": ("return efp::Tuple<int, efp::String>(i, efp::String(size_t(i), char(120)));", "efp::snd(x).size() == size_t(efp::fst(x)) ? efp::fst(x) : -1"),
    "efp::Vector<std::function<int(int)>>": ("efp::Vector<std::function<int(int)>> a; a.push_back([i](int k) { return k * 10 + i; }); return a;", "x[0](2) - 20"),
}
PLAIN = ("struct Plain { int k; };", "Plain", "Plain p = {i}; return p;", "x.k")
# sequence: statements that make the sequence 3 1 4 1 5 9 2 6, whether its elements are constant, whether it has push_back and the member types
SEQS = {
    "efp::Vector<int>": ("return S {3, 1, 4, 1, 5, 9, 2, 6};", 0, 1),
    "efp::ArrVec<long, 9>": ("return S {3, 1, 4, 1, 5, 9, 2, 6};", 0, 1),
    "efp::Array<int, 8>": ("return S {3, 1, 4, 1, 5, 9, 2, 6};", 0, 0),
    "efp::String": ('return S("\\3\\1\\4\\1\\5\\x9\\2\\6");', 0, 1),
    "efp::StringView": ('return S("\\3\\1\\4\\1\\5\\x9\\2\\6");', 1, 0),
    "efp::VectorView<const int>": ("static const int a[] = {3, 1, 4, 1, 5, 9, 2, 6}; return S(a, 8);", 1, 0),
    "efp::Vcb<int, 8>": ("S s; for (int e : {8, 8, 3, 1, 4, 1, 5, 9, 2, 6}) s.push_back(e); return s;", 0, 0),
    "efp::Vcq<int, 8>": ("S s; for (int e : {8, 8, 3, 1, 4, 1, 5, 9, 2, 6}) s.push_back(e); return s;", 0, 0),
}
PLAIN_SEQ = ("std::vector<int>", "return S {3, 1, 4, 1, 5, 9, 2, 6};", 0, 1)


class StdProgram:
    """values of one type of the library in the containers, algorithms and wrappers of the standard library; the
    reference is the same program with a plain structure (a std::vector) instead"""
    def __init__(self, i, head, what, cfg):
        self.i, self.head, self.cfg = i, head, cfg
        self.one, self.two = (what,), ()
        self.what = what + " with the standard library; " + cfg.name

    def flags(self):
        return ["-std=" + self.cfg.std, "-w", "-O0", "-pthread", "-I" + REPO + "/include", "-I" + VERIF]

    def build(self, c):
        src = os.path.join(c.work, "s%d.cpp" % self.i)
        open(src, "w").write(self.head + "int main() { return with_std(); }\n")
        rc, o, e = c.run([self.cfg.cxx] + self.flags() + [src, "-o", src + ".exe"], timeout=300)
        if rc not in (0, 1) and not c.stop.is_set():
            raise CheckError("%s died: %s" % (self.cfg.cxx, e[-1500:]))
        if rc != 0:
            return None, e
        rc, o, e = c.run([src + ".exe"], timeout=60)
        for f in (src, src + ".exe"):
            if os.path.exists(f):
                os.unlink(f)
        return (rc, o), ""

    def run(self, c):
        if c.stop.is_set():
            return 0
        got, log = self.build(c)
        if c.stop.is_set():
            return 0
        want, _ = self.reference
        msg = None
        if got is None:
            msg = "a program that uses this type with the standard library does not compile"
        elif got != want:
            bad = [(g, w) for g, w in itertools.zip_longest(got[1].split("\n"), want[1].split("\n")) if g != w]
            msg = "the program ends with %s and computes %s" % (got[0], "'%s' instead of '%s'" % bad[0] if bad else "the same")
        if msg:
            errs = "\n".join(l for l in log.split("\n") if "error" in l) + "\n"
            c.violation(dict(kind="program", scenario=self.what, config=self.cfg.name, message=msg, program=self.head + "int main() { return with_std(); }\n", log=(errs + log)[:4000],
                             command="%s %s" % (self.cfg.cxx, " ".join(self.flags()))))
        return 1


def std_space(c, cfgs):
    progs = []

    def value(decl, T, make, use):
        return '#include "efp.hpp"\n#include <functional>\n%s\ntypedef %s T;\nT make(int i) { %s }\nlong key(const T& x) { return %s; }\n#include "mc/with_std.hpp"\n' % (decl, T, make, use)

    def seq(S, make, fixed, grows):
        return '#include "efp.hpp"\n#include <vector>\ntypedef %s S;\nS make_s() { %s }\n#define FIXED %d\n#define GROWS %d\n#include "mc/seq_with_std.hpp"\n' % (S, make, fixed, grows)
    refs = {}
    i = 0

    def ref(cfg, key, head, what):
        p = StdProgram(len(refs) + 100000, head, what, cfg)
        refs[cfg.name, key] = p
        return p
    for cfg in cfgs:
        r = ref(cfg, "value", value(*PLAIN), "a structure")
        for T, (make, use) in VALUES.items():
            p = StdProgram(i, value("", T, make, use), T, cfg)
            p.ref = r
            progs.append(p)
            i += 1
        for fixed, grows in sorted(set(v[1:] for v in SEQS.values())):
            r = ref(cfg, (fixed, grows), seq(PLAIN_SEQ[0], PLAIN_SEQ[1], fixed, grows), "std::vector")
            for S, (make, f, g) in SEQS.items():
                if (f, g) == (fixed, grows):
                    p = StdProgram(i, seq(S, make, f, g), S, cfg)
                    p.ref = r
                    progs.append(p)
                    i += 1
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for p, (got, log) in zip(refs.values(), ex.map(lambda p: p.build(c), refs.values())):
            if got is None or got[0] != 0:
                raise CheckError("the program with a plain type fails: " + log[:1500])
            p.got = (got, log)
    for p in progs:
        p.reference = p.ref.got
    return progs


def space(c):
    hs = headers()
    extra = [h for h in hs if h not in USE]
    for h in extra:
        USE[h] = ("int", "return 1;", "long(x)", 1)  # a header the table does not know: it is included only
    if c.thorough:
        cfgs = [Config(x, s) for x in ("g++", "clang++") for s in ("c++11", "c++14", "c++17", "c++20", "c++2b")]
    else:
        cfgs = [Config("g++", "c++17"), Config("clang++", "c++11"), Config("g++", "c++20"), Config("clang++", "c++14"), Config("g++", "c++11"), Config("clang++", "c++20")]
    frees = [Config(x.cxx, x.std, free=True) for x in cfgs]
    pairs = list(itertools.combinations(hs, 2))
    fpairs = [p for p in itertools.combinations(FREE, 2) if set(p) <= set(hs)]
    progs = []

    def add(one, two, used, cfg):
        progs.append(Program(len(progs), one, two, used, cfg))
    for k, cfg in enumerate(cfgs):
        # every header alone, twice, in both files; everything at once, in both directions, after and before efp.hpp
        for j, h in enumerate(hs):
            if c.thorough or j % len(cfgs) == k:
                add((h, h), (h,), (h,), cfg)
                add(("efp", h), (h, "efp"), (h,), cfg)
        add(tuple(hs), tuple(reversed(hs)), tuple(hs), cfg)
        for j, p in enumerate(pairs):
            if c.thorough or j % len(cfgs) == k:
                add(p, p[::-1], p, cfg)
                if c.thorough:
                    add(p[:1], p[1:] + p[:1], p[:1], cfg)
    for k, cfg in enumerate(frees):
        fs = tuple(h for h in FREE if h in hs)
        add(fs, fs[::-1], fs, cfg)
        for j, h in enumerate(fs):
            if c.thorough or j % len(frees) == k:
                add((h, h), (h,), (h,), cfg)
        for j, p in enumerate(fpairs):
            if c.thorough or j % len(frees) == k:
                add(p, p[::-1], p, cfg)
    return progs, cfgs


def c24(c):
    for cfg in (Config("g++", "c++17"), Config("clang++", "c++11")):
        ok, e = c.includes_compile(cfg)
        if not ok:
            raise CheckError("the library does not compile with %s: %s" % (cfg.name, e[:2000]))
    progs, cfgs = space(c)
    progs += std_space(c, cfgs)
    c.log("programs", len(progs))
    done = 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # the big ones first
        for n in ex.map(lambda p: p.run(c), sorted(progs, key=lambda p: -len(p.one))):
            done += n
    c.compiled += sorted(set(p.cfg.name for p in progs))
    if not c.violations:
        c.cov["states"] += len(progs)
        c.cov["transitions"] += sum(len(p.one) + len(p.two) for p in progs)
        c.cov["traces_validated_against_impl"] += len(progs)
        c.cov["samples"] += [p.what for p in progs[:: max(1, len(progs) // 12)]]
        c.cov["explorations"].append(dict(scenario="include orders of two-file programs, types of the library with the standard library", programs=len(progs), compilations=done, exhaustive=True))
