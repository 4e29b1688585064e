// Maybe: value semantics for every history, and the functor / applicative / monad laws for every
// function over a three-element domain.
#include "mc/maybe_world.hpp"
#include "mc/moveonly.hpp"
using namespace mc;
using efp::Maybe;
using efp::nothing;
using efp::Nothing;


// ---- laws --------------------------------------------------------------------------------------
struct Fn {  // total function on {0,1,2}, counting its calls
    int t[3];
    int* calls;
    Fn() : calls(nullptr) {
        t[0] = t[1] = t[2] = 0;
    }
    int operator()(int x) const {
        if (calls)
            ++*calls;
        MC_CHECK(x >= 0 && x < 3, "function called with the invented value %d", x);
        return t[x];
    }
};
struct Kl {  // {0,1,2} -> Maybe
    int t[3];
    int* calls;
    Maybe<int> operator()(int x) const {
        if (calls)
            ++*calls;
        MC_CHECK(x >= 0 && x < 3, "function called with the invented value %d", x);
        return t[x] == 3 ? Maybe<int>(nothing) : Maybe<int>(t[x]);
    }
};
static Fn fn(int code, int* calls = nullptr) {
    Fn f;
    for (int i = 0; i < 3; ++i, code /= 3)
        f.t[i] = code % 3;
    f.calls = calls;
    return f;
}
static Kl kl(int code, int* calls = nullptr) {
    Kl f;
    for (int i = 0; i < 3; ++i, code /= 4)
        f.t[i] = code % 4;
    f.calls = calls;
    return f;
}
static Maybe<int> may(int c) {
    return c == 3 ? Maybe<int>(nothing) : Maybe<int>(c);
}
static bool eq(const Maybe<int>& a, const Maybe<int>& b) {
    if (a.has_value() != b.has_value())
        return false;
    return !a.has_value() || a.value() == b.value();
}
static int code(const Maybe<int>& m) {
    return m.has_value() ? m.value() : 3;
}

static void functor() {
    int c = choose(4), fc = choose(27), gc = choose(27);
    Maybe<int> m = may(c);
    int calls = 0;
    Fn f = fn(fc), g = fn(gc), fcount = fn(fc, &calls);
    note("functor laws at %d f=%d g=%d", c, fc, gc);
    int want = c == 3 ? 3 : f.t[c];
    MC_CHECK(code(efp::fmap(fcount, m)) == want && calls == (c != 3), "fmap f m gives %d after %d calls", code(efp::fmap(f, m)), calls);
    calls = 0;
    MC_CHECK(code(m.fmap(fcount)) == want && calls == (c != 3), "m.fmap(f) gives a wrong value or %d calls", calls);
    auto id = [](int x) { return x; };
    MC_CHECK(eq(efp::fmap(id, m), m) && eq(m.fmap(id), m), "fmap id is not id");
    auto gf = [&](int x) { return g(f(x)); };
    MC_CHECK(eq(efp::fmap(gf, m), efp::fmap(g, efp::fmap(f, m))), "fmap (g.f) differs from fmap g . fmap f");
    MC_CHECK(eq(m.fmap(gf), m.fmap(f).fmap(g)), "member fmap (g.f) differs");
    MC_CHECK(code(m) == c, "fmap changed its argument");
    outcome(uint64_t(c * 1000 + want));
}

static void applicative() {
    int c = choose(4), fc = choose(28), gc = choose(28);
    Maybe<int> m = may(c);
    int calls = 0;
    Maybe<Fn> mf = fc == 27 ? Maybe<Fn>(nothing) : Maybe<Fn>(fn(fc, &calls));
    Maybe<Fn> mg = gc == 27 ? Maybe<Fn>(nothing) : Maybe<Fn>(fn(gc));
    note("applicative laws at %d f=%d g=%d", c, fc, gc);
    int want = c == 3 || fc == 27 ? 3 : fn(fc).t[c];
    int n = c != 3 && fc != 27;
    MC_CHECK(code(efp::ap(mf, m)) == want && calls == n, "ap gives a wrong value or %d calls", calls);
    calls = 0;
    MC_CHECK(code(m.ap(mf)) == want && calls == n, "member ap gives a wrong value or %d calls", calls);
    // identity
    MC_CHECK(eq(efp::ap(Maybe<Fn>(fn(0 + 1 * 3 + 2 * 9)), m), m), "ap (pure id) is not id");
    // homomorphism and interchange
    if (fc != 27 && c != 3) {
        Fn f = fn(fc);
        MC_CHECK(eq(efp::ap(efp::pure<Maybe<Fn>>(f), efp::pure<Maybe<int>>(c)), efp::pure<Maybe<int>>(f(c))), "ap (pure f) (pure x) differs from pure (f x)");
    }
    if (c != 3) {
        auto app = [&](const Fn& h) { return h(c); };
        Maybe<decltype(app)> mapp(app);
        MC_CHECK(eq(efp::ap(mf, efp::pure<Maybe<int>>(c)), efp::ap(mapp, mf)), "interchange law fails");
    }
    // composition: pure (.) <*> u <*> v <*> w = u <*> (v <*> w)
    Maybe<Fn> comp = nothing;
    if (mf.has_value() && mg.has_value()) {
        Fn h;
        for (int i = 0; i < 3; ++i)
            h.t[i] = fn(fc).t[fn(gc).t[i]];
        comp = h;
    }
    MC_CHECK(eq(efp::ap(comp, m), efp::ap(mf, efp::ap(mg, m))), "composition law fails");
    outcome(uint64_t(c * 1000 + want));
}

static void monad() {
    int c = choose(4), fc = choose(64), gc = choose(64);
    Maybe<int> m = may(c);
    int calls = 0;
    Kl f = kl(fc), g = kl(gc), fcount = kl(fc, &calls);
    note("monad laws at %d f=%d g=%d", c, fc, gc);
    int want = c == 3 ? 3 : f.t[c];
    MC_CHECK(code(efp::bind(m, fcount)) == want && calls == (c != 3), "bind gives a wrong value or %d calls", calls);
    calls = 0;
    MC_CHECK(code(m.bind(fcount)) == want && calls == (c != 3), "member bind gives a wrong value or %d calls", calls);
    calls = 0;
    MC_CHECK(code(m >>= fcount) == want && calls == (c != 3), ">>= gives a wrong value or %d calls", calls);
    auto unit = [](int x) { return Maybe<int>(x); };
    MC_CHECK(eq(efp::bind(m, unit), m), "right identity fails");
    if (c != 3) {
        MC_CHECK(eq(efp::bind(efp::pure<Maybe<int>>(c), f), f(c)), "left identity fails");
        MC_CHECK(eq(efp::pure<Maybe<int>>(c).bind(f), f(c)), "left identity fails (member)");
    }
    auto fg = [&](int x) { return efp::bind(f(x), g); };
    MC_CHECK(eq(efp::bind(efp::bind(m, f), g), efp::bind(m, fg)), "associativity fails");
    MC_CHECK(eq(m.bind(f).bind(g), m.bind(fg)), "associativity fails (member)");
    MC_CHECK(eq((m >>= f).bind(g), (m >>= fg)), "associativity fails (>>=)");
    // fmap is bind with unit
    Fn h = fn(gc % 27);
    auto uh = [&](int x) { return Maybe<int>(h(x)); };
    MC_CHECK(eq(efp::fmap(h, m), efp::bind(m, uh)), "fmap differs from bind . pure");
    outcome(uint64_t(c * 1000 + want));
}

// No operation consumes its source or its function: callables that take their argument by value (and
// empty it), by const reference, through const and non-const Maybes, twice in a row.
template<typename A>
struct ByValue {
    int* calls;
    A own;
    int operator()(A x) const {
        ++*calls;
        int r = AltMk<A>::val(x) * 10 + AltMk<A>::val(own);
        A gone(efp::move(x));
        (void)gone;
        return r;
    }
};
template<typename A>
struct ByRef {
    int* calls;
    A own;
    int operator()(const A& x) const {
        ++*calls;
        return AltMk<A>::val(x) * 10 + AltMk<A>::val(own);
    }
};
template<typename F, typename A>
struct Lift {
    F f;
    Maybe<int> operator()(A x) const {
        return f(efp::move(x));
    }
};
template<typename A, typename F>
static void unchanged_with(int c, int o) {
    int calls = 0;
    F f = {&calls, AltMk<A>::mk(o)};
    Lift<F, A> k = {f};
    Maybe<F> mf(f);
    Maybe<F> nf = nothing;
    Maybe<A> m = nothing;
    if (c != 3)
        m = AltMk<A>::mk(c);
    const Maybe<A>& km = m;
    int want = c == 3 ? -1 : c * 10 + o, n = 0;
    auto see = [&](const Maybe<int>& r, const char* what) {
        n += c != 3;
        MC_CHECK(r.has_value() == (c != 3) && (c == 3 || r.value() == want), "%s gives %d, expected %d", what, r.has_value() ? r.value() : -1, want);
        MC_CHECK(calls == n, "%s called the function %d times", what, calls - n + (c != 3));
        MC_CHECK(m.has_value() == (c != 3) && (c == 3 || AltMk<A>::val(m.template get<A>()) == c), "%s changed its source", what);
        MC_CHECK(AltMk<A>::val(f.own) == o && AltMk<A>::val(mf.template get<F>().own) == o, "%s changed its function", what);
    };
    for (int round = 0; round < 2; ++round) {
        see(efp::fmap(f, m), "fmap");
        see(efp::fmap(f, km), "fmap of a const Maybe");
        see(m.fmap(f), "member fmap");
        see(km.fmap(f), "member fmap of a const Maybe");
        see(efp::ap(mf, m), "ap");
        see(efp::ap(mf, km), "ap of a const Maybe");
        see(m.ap(mf), "member ap");
        see(km.ap(mf), "member ap of a const Maybe");
        see(efp::bind(m, k), "bind");
        see(efp::bind(km, k), "bind of a const Maybe");
        see(m.bind(k), "member bind");
        see(km.bind(k), "member bind of a const Maybe");
        see((m >>= k), ">>=");
        see((km >>= k), ">>= of a const Maybe");
        MC_CHECK(efp::ap(nf, m).is_nothing() && m.ap(nf).is_nothing() && km.ap(nf).is_nothing() && calls == n, "ap of no function gives a value");
        MC_CHECK(m.has_value() == (c != 3) && (c == 3 || AltMk<A>::val(m.template get<A>()) == c), "ap of no function changed its source");
        // on a temporary
        if (c != 3) {
            MC_CHECK(Maybe<A>(AltMk<A>::mk(c)).fmap(f).value() == want && efp::fmap(f, Maybe<A>(AltMk<A>::mk(c))).value() == want, "fmap of a temporary is wrong");
            MC_CHECK(Maybe<A>(AltMk<A>::mk(c)).bind(k).value() == want && efp::bind(Maybe<A>(AltMk<A>::mk(c)), k).value() == want, "bind of a temporary is wrong");
            calls -= 4;
            // value() and match leave it alone; the result of value() is the caller's own
            A t(m.value());
            A u(km.value());
            A v(efp::move(t));
            MC_CHECK(AltMk<A>::val(u) == c && AltMk<A>::val(v) == c, "value() is wrong");
            v = AltMk<A>::mk(7);
            see(efp::fmap(f, km), "fmap after value()");
            int r = km.match([&](A x) { A y(efp::move(x)); return AltMk<A>::val(y); }, [](Nothing) { return -1; });
            MC_CHECK(r == c && AltMk<A>::val(m.template get<A>()) == c, "a branch taking its argument by value changed the const Maybe");
        }
    }
}
template<typename A>
static void unchanged() {
    int c = choose(4), o = choose(3), how = choose(2);
    note("source %d, function with state %d, taking its argument %s", c, o, how ? "by reference" : "by value");
    if (how)
        unchanged_with<A, ByRef<A>>(c, o);
    else
        unchanged_with<A, ByValue<A>>(c, o);
    outcome(uint64_t(c * 10 + o));
}

// nested, copied functions, type-changing functions, equality of every pair
static void misc() {
    int c = choose(4), d = choose(4), k = choose(3);
    note("misc %d %d %d", c, d, k);
    Maybe<int> m = may(c), n = may(d);
    Nothing n1, n2;
    MC_CHECK(n1 == n2 && !(n1 != n2) && nothing == n1 && !(nothing != n1), "two Nothings differ");
    MC_CHECK((m == n) == (c == d) && (m != n) == (c != d), "Maybe equality of %d and %d", c, d);
    Maybe<std::string> s = efp::fmap([](int x) { return std::string(size_t(x) * 40, 'x'); }, m);
    MC_CHECK(s.has_value() == (c != 3) && (c == 3 || s.value().size() == size_t(c) * 40), "fmap to a string is wrong");
    Maybe<size_t> l = efp::fmap([](const std::string& t) { return t.size(); }, s);
    MC_CHECK(l.has_value() == (c != 3) && (c == 3 || l.value() == size_t(c) * 40), "fmap back from a string is wrong");
    Maybe<Maybe<int>> mm = k == 0 ? Maybe<Maybe<int>>(nothing) : Maybe<Maybe<int>>(m);
    MC_CHECK(mm.has_value() == (k != 0), "a Maybe holding %s says has_value %d", c == 3 ? "nothing" : "a value", int(mm.has_value()));
    if (k) {
        MC_CHECK(eq(mm.value(), m), "nested value is wrong");
        Maybe<int> j = efp::bind(mm, [](const Maybe<int>& x) { return x; });
        MC_CHECK(eq(j, m), "join is wrong");
    }
    Maybe<bool> b = c & 1 ? Maybe<bool>(false) : Maybe<bool>(nothing);
    MC_CHECK(b.has_value() == bool(c & 1) && bool(b) == bool(c & 1), "Maybe(false) is confused with nothing");
    Maybe<efp::Vector<Heap>> v = nothing;
    if (k) {
        efp::Vector<Heap> w;
        for (int i = 0; i < c; ++i)
            w.push_back(Heap(i));
        v = w;
        MC_CHECK(v.value().size() == size_t(c), "Maybe of a Vector is wrong");
    }
    Maybe<efp::Vector<Heap>> v2 = v;
    v = nothing;
    MC_CHECK(v2.has_value() == (k != 0) && !v.has_value() && (!k || v2.value().size() == size_t(c)), "copied Maybe of a Vector is wrong");
}

static void setup() {
    Bounds b = {3, 5, 4, 8, 60000};
    add_world<MaybeWorld<Tracked>>("maybe-tracked", b, 8);
    add_world<MaybeWorld<Heap>>("maybe-heap", b, 8);
    add_world<SoleEnumWorld<efp::Maybe<Sole>>>("maybe-moveonly", Bounds {3, 5, 4, 7, 30000}, 4);
    add_world<MaybeWorld<Bag>>("maybe-recursive", Bounds {2, 0, 3, 0, 0}, 4);
    add_world<MaybeWorld<int>>("maybe-int", Bounds {2, 5, 3, 8, 60000}, 4);
    add_world<MaybeWorld<Wide>>("maybe-wide", Bounds {2, 5, 3, 8, 60000}, 4);
    add_choice("functor-laws", functor);
    add_choice("applicative-laws", applicative);
    add_choice("monad-laws", monad);
    add_choice("unchanged-heap", unchanged<Heap>);
    add_choice("unchanged-tracked", unchanged<Tracked>);
    add_choice("unchanged-int", unchanged<int>);
    add_choice("misc", misc);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
