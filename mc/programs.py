"""Bounded program spaces for compile-time guarantees: every program of the space is generated, the model
says whether it has to compile, and the compiler is asked.  Programs that must be rejected are first
compiled many at a time (an error attributed to a program's own line rejects it); whatever is not
rejected that way is compiled alone before anything is reported."""
import itertools, os, re
from .driver import *

HEAD_MATCH = """#include "efp/enum.hpp"
#include "efp/maybe.hpp"
#include <string>
struct A { int x; };
struct B { int y; A in; };
struct C { double z; std::string s; };
struct D {};
struct X {};
"""
HEAD_FMT = """#include "efp.hpp"
struct Opaque { int x; };
"""

# ---- pattern matches -------------------------------------------------------------------------------
STYLES = ("const_ref", "value", "functor", "noexcept", "auto_ret_void")


def branch(kind, style, n):
    """One branch expression and the declarations it needs."""
    if style == "functor":
        name = "Fn%d" % n
        arg = "" if kind == "_" else "const %s&" % kind
        return name + "()", "    struct %s { int operator()(%s) const { return %d; } };\n" % (name, arg, n)
    body = "{}" if style == "auto_ret_void" else ("noexcept " if style == "noexcept" else "") + "{ return %d; }" % n
    if kind == "_":
        return "[&]() " + body, ""
    return "[&](%s) %s" % (kind if style in ("value", "noexcept") else "const %s&" % kind, body), ""


def match_space(thorough):
    """(subject type, alternatives, branch kinds in order, style)"""
    subjects = [("efp::Enum<A, B>", ("A", "B")), ("efp::Enum<A, B, C>", ("A", "B", "C")),
                ("efp::Maybe<A>", ("efp::Nothing", "A")), ("efp::Maybe<std::string>", ("efp::Nothing", "std::string")),
                ("efp::Enum<A>", ("A",))]
    if thorough:
        subjects += [("efp::Enum<A, B, C, D>", ("A", "B", "C", "D")), ("efp::Enum<efp::Maybe<A>, A>", ("efp::Maybe<A>", "A")),
                     ("efp::Enum<efp::Nothing, A, B>", ("efp::Nothing", "A", "B"))]
    for subj, alts in subjects:
        kinds = alts + ("_", "X")
        for k in range(1, len(kinds) + 1):
            if len(alts) >= 3 and k > len(alts) + 1:
                break
            for p in itertools.permutations(kinds, k):
                for style in (STYLES if (thorough or len(alts) == 2) else STYLES[:1]):
                    yield subj, alts, p, style


def match_ok(alts, p):
    return "X" not in p and "_" not in p[:-1] and (p[-1] == "_" or set(alts) <= set(p))


def match_prog(i, subj, p, style):
    exprs, decls = [], ""
    for j, k in enumerate(p):
        e, d = branch(k, style, 10 * j + 1)
        exprs.append(e)
        decls += d
    return "void prog%d(const %s& m) {\n%s    m.match(%s);\n}\n" % (i, subj, decls, ", ".join(exprs))


# ---- which branch an alternative goes to -----------------------------------------------------------
# The rule of the library is C++ overload resolution, so the reference is an overload set of member functions;
# the wildcard is the overload that takes anything, "auto" a branch with a template call operator.
HEAD_PICK = """#include "efp/enum.hpp"
#include "efp/maybe.hpp"
#include <string>
#include <cstdio>
struct A { int x; };
struct B: A { int y; };
struct S { int z; S(): z(0) {} S(const A&): z(1) {} };
struct X {};
"""
PICK = [
    ("efp::Enum<int, double>", ("int", "double"), ("int", "double", "long", "bool", "const int&", "auto", "_", "X")),
    ("efp::Enum<A, B>", ("A", "B"), ("const A&", "B", "S", "const S&", "auto", "_", "X")),
    ("efp::Enum<B, int, S>", ("B", "int", "S"), ("A", "const B&", "S", "int", "double", "auto", "_")),
    ("efp::Enum<const char*, std::string>", ("const char*", "std::string"), ("std::string", "const char*", "bool", "const void*", "auto", "_")),
    ("efp::Enum<unsigned char, int, long>", ("unsigned char", "int", "long"), ("int", "long", "unsigned char", "double", "const long&", "auto", "_")),
    ("efp::Maybe<int>", ("efp::Nothing", "int"), ("efp::Nothing", "int", "long", "double", "auto", "_")),
    ("efp::Enum<double, float, int>", ("double", "float", "int"), ("float", "const double&", "int", "char", "auto", "_")),
]


def pick_space(thorough):
    for subj, alts, kinds in PICK:
        for k in range(1, 5 if thorough else 4):
            for comb in itertools.combinations(kinds, k):
                if k <= 2 or thorough:
                    orders = itertools.permutations(comb)
                else:
                    rest = tuple(x for x in comb if x != "_")
                    tail = tuple(x for x in comb if x == "_")
                    orders = [rest + tail, rest[::-1] + tail]
                for p in orders:
                    yield subj, alts, p


def pick_set(i, p, name="O"):
    """the overload set of the reference"""
    fs = []
    for j, k in enumerate(p):
        if k == "auto":
            fs.append("template<class T> N<%d> f(const T&) const;" % j)
        elif k == "_":
            fs.append("template<class T> N<%d> f(T&&) const;" % j)
        else:
            fs.append("N<%d> f(%s) const;" % (j, k))
    return "struct %s%d { %s };\n" % (name, i, " ".join(fs))


def pick_prog(i, subj, alts, p):
    exprs = []
    for j, k in enumerate(p):
        if k == "auto":
            exprs.append("G<%d>()" % j)
        elif k == "_":
            exprs.append("[]() { return %d; }" % j)
        else:
            exprs.append("[](%s) { return %d; }" % (k, j))
    t = "int prog%d(const %s& m) {\n    return m.match(%s);\n}\n" % (i, subj, ", ".join(exprs))
    mk = "".join("        printf(\" %%d\", prog%d(%s(%s)));\n" % (i, subj, "V<%s>()" % a) for a in alts)
    return t, "    {\n        printf(\"%d:\");\n%s        printf(\"\\n\");\n    }\n" % (i, mk)


PICK_AUX = "template<int n> struct G { template<class T> int operator()(const T&) const { return n; } };\ntemplate<class T> T V() { return T(); }\ntemplate<> inline const char* V<const char*>() { return \"t\"; }\n"


def pick_oracle(c, progs):
    """chosen branch per alternative (-1: none or ambiguous), and whether each branch can take some alternative"""
    src = os.path.join(c.work, "pick-oracle.cpp")
    with open(src, "w") as f:
        f.write("#include <utility>\n#include <string>\n#include <cstdio>\nnamespace efp { struct Nothing {}; }\n" + HEAD_PICK[HEAD_PICK.index("struct A"):])
        f.write("""typedef const char* PC;
template<int n> struct N { enum { v = n }; };
template<class O, class T> auto pick(int) -> decltype(std::declval<const O&>().f(std::declval<T>()));
template<class O, class T> N<-1> pick(...);
""")
        main = ""
        for i, (subj, alts, p) in enumerate(progs):
            f.write(pick_set(i, p))
            main += "printf(\"%d:\");" % i
            for a in alts:
                a = a if a != "const char*" else "PC"
                main += "printf(\" %%d\", int(decltype(pick<O%d, const %s&>(0))::v));" % (i, a)
            main += "printf(\" |\");"
            for j, k in enumerate(p):
                f.write(pick_set_named("R%d_%d" % (i, j), k))
                rel = " || ".join("int(decltype(pick<R%d_%d, %s>(0))::v) == 0" % (i, j, a if a != "const char*" else "PC") for a in alts)
                main += "printf(\" %%d\", int(%s));" % rel
            main += "printf(\"\\n\");\n"
        f.write("int main() {\n" + main + "}\n")
    exe = src[:-4]
    rc, o, e = c.run(["g++", "-std=c++17", "-w", "-O0", src, "-o", exe], timeout=600)
    if rc != 0:
        raise CheckError("the reference for overload resolution does not compile: " + e[:2000])
    rc, o, e = c.run([exe])
    out = {}
    for l in o.split("\n"):
        if l:
            i, r = l.split(":")
            a, b = r.split("|")
            out[int(i)] = ([int(x) for x in a.split()], [int(x) for x in b.split()])
    return out


def pick_set_named(name, k):
    return pick_set(0, (k,)).replace("struct O0", "struct " + name)


def pick_ok(p, res):
    chosen, rel = res
    return "_" not in p[:-1] and all(x >= 0 for x in chosen) and all(r or k == "_" for k, r in zip(p, rel))


# ---- format strings --------------------------------------------------------------------------------
ARG = {"int": "7", "uns": "7u", "long": "7ll", "double": "1.5", "float": "1.5f", "cstr": '"text"', "string": 'efp::String("text")', "bool": "true", "char": "'c'", "ptr": "(void*)0"}
INTS = ("int", "uns", "long")
FLT = ("double", "float")
STR = ("cstr", "string")
# which argument types a format specification suits; types that appear in neither list are not judged
SPEC = {
    "": (tuple(ARG), ()),
    ">8": (tuple(ARG), ()),
    "*^8": (tuple(ARG), ()),
    "d": (INTS + ("char", "bool"), FLT + STR + ("ptr",)),
    "x": (INTS + ("char", "bool"), STR + FLT + ("ptr",)),
    "#b": (INTS, STR + FLT + ("ptr",)),
    "o": (INTS, STR + FLT + ("ptr",)),
    "c": (("char", "int"), STR + FLT + ("ptr",)),
    "f": (FLT, INTS + STR + ("char", "bool", "ptr")),
    ".3e": (FLT, INTS + STR + ("char", "bool", "ptr")),
    "g": (FLT, INTS + STR + ("char", "bool", "ptr")),
    "a": (FLT, INTS + STR + ("char", "bool", "ptr")),
    "s": (STR + ("bool",), INTS + FLT + ("char", "ptr")),
    ".2": (FLT + STR, INTS + ("char", "bool", "ptr")),
    "+": (("int", "long") + FLT, STR + ("ptr",)),
    "08": (INTS + FLT, STR),
    "p": (("ptr",), INTS + FLT + ("string", "bool", "char")),
    "y": ((), tuple(ARG)),
    "dd": ((), tuple(ARG)),
    ">8>": ((), tuple(ARG)),
    "{}": ((), tuple(ARG)),          # the width argument is missing
    ".": ((), tuple(ARG)),
    ".{}": ((), tuple(ARG)),
}
# (format string, argument types, must compile)
FIELDS = [
    ("no field", (), True), ("no field", ("int",), True), ("{{}}", (), True), ("{{{}}}", ("int",), True), ("{}", (), False), ("{}{}", ("int",), False),
    ("{", ("int",), False), ("}", ("int",), False), ("{}}", ("int",), False), ("{{}", ("int",), False), ("{0}", ("int",), True), ("{1}", ("int",), False),
    ("{0}{0}", ("int",), True), ("{1}{0}", ("int", "cstr"), True), ("{0:d}{1:s}", ("int", "cstr"), True), ("{1:d}{0:s}", ("int", "cstr"), False),
    ("{0}{}", ("int", "int"), False), ("{}{0}", ("int", "int"), False), ("{name}", ("int",), False), ("{:{}}", ("int", "int"), True),
    ("{:{}}", ("int", "cstr"), False), ("{:{}}", ("int", "double"), False), ("{:.{}f}", ("double", "int"), True), ("{:.{}f}", ("double", "cstr"), False), ("{:.{}f}", ("double",), False),
    ("{0:{1}}", ("int", "int"), True), ("{0:{2}}", ("int", "int"), False), ("{0:{}}", ("int", "int"), False), ("{:{}.{}f}", ("double", "int", "int"), True),
    ("{:{}.{}f}", ("double", "int"), False), ("{:d}{:d}", ("int", "double"), False), ("{:d}{:f}", ("int", "double"), True), ("{:f}{:d}", ("int", "double"), False),
    ("{}{}{}", ("int", "double", "cstr"), True), ("{:s}{:s}{:d}", ("string", "cstr", "cstr"), False), ("{2}{1}{0}", ("int", "double", "cstr"), True), ("{3}{1}{0}", ("int", "double", "cstr"), False),
    ("{-1}", ("int",), False), ("{ }", ("int",), False), ("{:", ("int",), False), ("{0", ("int",), False), ("{:99999999999}", ("int",), False), ("{99999999999}", ("int",), False),
]
CALLS = ("efp::format", "efp::println", "efp::print")


def fmt_space(thorough):
    """(call, format string, argument types, must compile)"""
    for call in (CALLS if thorough else CALLS[:1]):
        for spec, (good, bad) in SPEC.items():
            for t in good:
                yield call, "{:%s}" % spec, (t,), True
            for t in bad:
                yield call, "{:%s}" % spec, (t,), False
        for f, ts, ok in FIELDS:
            yield call, f, ts, ok
    for call in CALLS[1:]:
        for f, ts, ok in FIELDS[:12] + FIELDS[15:18]:
            yield call, f, ts, ok


def fmt_prog(i, call, f, ts):
    return 'void prog%d() {\n    %s("%s"%s);\n}\n' % (i, call, f, "".join(", " + ARG[t] for t in ts))


# ---- asking the compiler ---------------------------------------------------------------------------
class Space:
    def __init__(self, c, name, head, cfg):
        self.c, self.name, self.head, self.cfg = c, name, head, cfg
        self.progs = []  # (id, text, must compile, description)
        self.hdr = os.path.join(c.work, "%s-%s.hpp" % (name, cfg.name))

    def add(self, text, ok, what):
        self.progs.append((len(self.progs), text, ok, what))

    def flags(self):
        lim = ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] if self.cfg.cxx == "clang++" else ["-fmax-errors=0", "-ftemplate-backtrace-limit=0"]
        return ["-std=" + self.cfg.std, "-w", "-fsyntax-only", "-I" + REPO + "/include"] + lim

    def ask(self, tag, progs):
        src = os.path.join(self.c.work, "%s-%s-%s.cpp" % (self.name, self.cfg.name, tag))
        with open(src, "w") as f:
            f.write('#include "%s"\n' % os.path.basename(self.hdr))
            for i, text, ok, what in progs:
                f.write('#line 1 "prog_%d_.cpp"\n' % i)
                f.write(text)
        rc, o, e = self.c.run([self.cfg.cxx] + self.flags() + [src], timeout=600)
        if rc not in (0, 1):
            raise CheckError("%s died on %s: rc=%s %s" % (self.cfg.cxx, src, rc, e[-1500:]))
        return rc, e

    def prepare(self):
        open(self.hdr, "w").write(self.head)
        if self.cfg.cxx == "g++":
            cmd = ["g++", "-std=" + self.cfg.std, "-w", "-ftemplate-backtrace-limit=0", "-fmax-errors=0", "-I" + REPO + "/include", "-x", "c++-header", self.hdr, "-o", self.hdr + ".gch"]
        else:
            cmd = ["clang++", "-std=" + self.cfg.std, "-w", "-fsyntax-only", "-I" + REPO + "/include", "-x", "c++-header", self.hdr]
        rc, o, e = self.c.run(cmd)
        if rc != 0:
            raise CheckError("the library does not compile with %s: %s" % (self.cfg.name, e[:2000]))

    def report(self, i, text, ok, what, err):
        self.c.violation(dict(kind="program", scenario="%s %s" % (self.name, what), config=self.cfg.name,
                              message="a program that has to compile is rejected" if ok else "a program that has to be rejected compiles",
                              program=self.head + text, log=what + ": " + text.replace("\n", " ") + " " + err[:1500],
                              command="%s %s" % (self.cfg.cxx, " ".join(self.flags()))))

    def chunks(self, xs, n):
        return [xs[i:i + n] for i in range(0, len(xs), n)]

    def jobs(self):
        good = [p for p in self.progs if p[2]]
        bad = [p for p in self.progs if not p[2]]
        out = [("g%d" % k, ch, True) for k, ch in enumerate(self.chunks(good, 120))]
        out += [("b%d" % k, ch, False) for k, ch in enumerate(self.chunks(bad, 30))]
        return out

    def decide(self, job):
        tag, ch, ok = job
        if self.c.stop.is_set():
            return 0, 0
        rc, e = self.ask(tag, ch)
        if self.c.stop.is_set():
            return 0, 0
        alone = 0
        if ok:
            if rc != 0:
                for p in ch:
                    rc1, e1 = self.ask("%s-p%d" % (tag, p[0]), [p])
                    alone += 1
                    if rc1 != 0 and not self.c.stop.is_set():
                        self.report(*p, e1)
                        return len(ch), alone
                raise CheckError("programs that compile one by one do not compile together: " + e[:2000])
            return len(ch), alone
        hit = set(int(x) for x in re.findall(r"prog_(\d+)_\.cpp", e)) if rc != 0 else set()
        for p in ch:
            if p[0] not in hit:
                rc1, e1 = self.ask("%s-p%d" % (tag, p[0]), [p])
                alone += 1
                if self.c.stop.is_set():
                    return 0, 0
                if rc1 == 0:
                    self.report(*p, e1)
                    return len(ch), alone
        return len(ch), alone


class RunSpace(Space):
    """programs that are also run: the branch taken by each alternative is compared with the reference"""
    def __init__(self, c, name, head, cfg):
        Space.__init__(self, c, name, head, cfg)
        self.runs = {}

    def add_run(self, text, call, want, what):
        self.runs[len(self.progs)] = (call, want)
        self.add(text, True, what)

    def decide(self, job):
        n, alone = Space.decide(self, job)
        tag, ch, ok = job
        if not ok or self.c.stop.is_set():
            return n, alone
        src = os.path.join(self.c.work, "%s-%s-%s-run.cpp" % (self.name, self.cfg.name, tag))
        with open(src, "w") as f:
            f.write('#include "%s"\n' % os.path.basename(self.hdr))
            for i, text, _, what in ch:
                f.write(text)
            f.write("int main() {\n    setvbuf(stdout, 0, _IONBF, 0);\n" + "".join(self.runs[p[0]][0] for p in ch) + "}\n")
        exe = src[:-4]
        rc, o, e = self.c.run([self.cfg.cxx] + [x for x in self.flags() if x != "-fsyntax-only"] + [src, "-o", exe], timeout=600)
        if rc != 0:
            raise CheckError("programs pass -fsyntax-only but do not build: " + e[:2000])
        rc, o, e = self.c.run([exe])
        os.unlink(exe)
        got = {}
        for l in o.split("\n"):
            if re.match(r"\d+:( -?\d+)+$", l):
                i, r = l.split(":")
                got[int(i)] = [int(x) for x in r.split()]
        for p in ch:
            call, want = self.runs[p[0]]
            if got.get(p[0]) != want:
                self.c.violation(dict(kind="program", scenario="%s %s" % (self.name, p[3]), config=self.cfg.name,
                                      message="the alternatives go to branches %s, overload resolution chooses %s" % (got.get(p[0], "(ended with %s)" % rc), want),
                                      program=self.head + p[1] + "int main() {\n" + call + "}\n", log=p[3],
                                      command="%s %s" % (self.cfg.cxx, " ".join(self.flags()))))
                break
        return n, alone


def c22(c):
    picks = list(pick_space(c.thorough))
    table = pick_oracle(c, picks)
    c.log("overload sets", len(picks), "to be accepted", sum(pick_ok(p[2], table[i]) for i, p in enumerate(picks)))
    if c.thorough:
        cfgs = [Config(x, s) for x in ("g++", "clang++") for s in ("c++11", "c++14", "c++17", "c++20", "c++2b")]
    else:
        cfgs = [Config("g++", "c++11"), Config("clang++", "c++14"), Config("g++", "c++17"), Config("clang++", "c++20"), Config("g++", "c++20")]
    spaces = []
    for cfg in cfgs:
        s = Space(c, "match", HEAD_MATCH, cfg)
        for i, (subj, alts, p, style) in enumerate(match_space(c.thorough)):
            s.add(match_prog(i, subj, p, style), match_ok(alts, p), "match on %s with branches (%s), %s" % (subj, ", ".join(p), style))
        spaces.append(s)
        s = RunSpace(c, "branches", HEAD_PICK + PICK_AUX, cfg)
        for i, (subj, alts, p) in enumerate(picks):
            text, call = pick_prog(i, subj, alts, p)
            what = "match on %s with branches (%s)" % (subj, ", ".join(p))
            if pick_ok(p, table[i]):
                s.add_run(text, call, table[i][0], what)
            else:
                s.add(text, False, what)
        spaces.append(s)
        if cfg.std in ("c++20", "c++2b") and (cfg.cxx == "g++" or c.thorough):
            s = Space(c, "format", HEAD_FMT, cfg)
            for i, (call, f, ts, ok) in enumerate(fmt_space(c.thorough)):
                s.add(fmt_prog(i, call, f, ts), ok, '%s("%s") with (%s)' % (call, f, ", ".join(ts)))
            s.add("void prog%d() { efp::format(\"{}\", Opaque()); }\n" % len(s.progs), False, "formatting a type without a formatter")
            spaces.append(s)
        elif c.thorough or cfg.cxx == "g++":
            # no check of the format string before C++20, but types without a formatter are rejected
            s = Space(c, "format", HEAD_FMT, cfg)
            s.add("void prog0() { efp::format(\"{}\", Opaque()); }\n", False, "formatting a type without a formatter")
            s.add("void prog1() { efp::format(\"{}\", 1); }\n", True, "formatting an int")
            spaces.append(s)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda s: s.prepare(), spaces))
        c.log("prepared", len(spaces))
        jobs = [(s, j) for s in spaces for j in s.jobs()]
        res = list(ex.map(lambda sj: (sj[0],) + sj[0].decide(sj[1]), jobs))
    c.compiled += [s.cfg.name for s in spaces]
    for s in spaces:
        n = sum(r[1] for r in res if r[0] is s)
        ok = sum(1 for p in s.progs if p[2])
        c.cov["explorations"].append(dict(scenario=s.name, config=s.cfg.name, execs=n, must_compile=ok, must_be_rejected=len(s.progs) - ok,
                                          compiled_alone=sum(r[2] for r in res if r[0] is s)))
        c.cov["states"] += len(s.progs)
        c.cov["transitions"] += n
        c.cov["traces_validated_against_impl"] += n
        c.cov["samples"] += [dict(scenario=s.name, history=("compiles: " if p[2] else "rejected: ") + p[3]) for p in s.progs[5:len(s.progs):max(1, len(s.progs) // 3)]][:3]
    c.cov["bounds"] = "all branch lists without repetition over the alternatives, a wildcard and a type that is no alternative, for Enums of 1-3 alternatives (thorough 4) and Maybes; format strings as listed in mc/programs.py"
    c.assumptions.append("the compilers' accept/reject answer under -fsyntax-only; diagnostics are attributed to a program by the line they name, programs without one are compiled alone")
