// NonBlockingQ under every schedule
#include "mc/queue_scen.hpp"
using namespace qs;

template<typename A, size_t cap, int threads, int maxlen>
struct S {
    typedef efp::NonBlockingQ<A, cap> T;
    static T*& q() {
        static T* p;
        return p;
    }
    static void prepare() {
        choose_scripts(threads, "EDI", 3, maxlen);
        int pre = mcs::choose(cap == efp::dyn ? 2 : 3);
        q() = new T();
        Model& m = init_model();
        m.reset(cap == efp::dyn ? 0 : int(cap));
        // pre 1: one element; pre 2: the ring has moved and is full
        if (pre == 2) {
            q()->enqueue(A(50));
            q()->dequeue();
            for (size_t i = 0; i < cap; ++i) {
                q()->enqueue(A(60 + int(i)));
                m.w[m.nw++] = 60 + int(i);
            }
        } else if (pre == 1) {
            q()->enqueue(A(60));
            m.w[m.nw++] = 60;
        }
        mcs::note("pre %d", pre);
    }
    static void body(int t) {
        const char* s = script().op[t];
        for (int i = 0; s[i]; ++i) {
            if (s[i] == 'E') {
                int v = t * 10 + i;
                mcs::call('E', v);
                q()->enqueue(A(v));
                mcs::ret(0);
            } else if (s[i] == 'D') {
                mcs::call('N', 0);
                efp::Maybe<A> a = q()->dequeue();
                mcs::ret(a.has_value() ? value(a.value()) : 0);
            } else {
                mcs::call('I', 0);
                bool e = q()->is_empty();
                mcs::ret(e);
            }
        }
    }
    static void finish() {
        delete q();
    }
    static const char* verdict(const mcs::OpRec* h, int n) {
        return judge(init_model(), h, n);
    }
};

static int unbounded(bool, int) {
    return 99;
}
static int b4(bool t, int s) {
    return s < 0 ? 2 : t ? 99 : 4;
}
static int b2(bool t, int s) {
    return s < 0 ? 1 : t ? 4 : 2;
}
static int sp1(bool t, int) {
    return t ? 2 : 1;
}
static int sp0(bool t, int) {
    return t ? 1 : 0;
}

template<typename A, size_t cap, int threads, int maxlen>
static void add(const char* name, int shards, int (*b)(bool, int), int (*sp)(bool, int)) {
    typedef S<A, cap, threads, maxlen> X;
    mcs::Scenario s = {name, shards, threads, X::prepare, X::body, X::finish, X::verdict, b, sp};
    mcs::add(s);
}

void mcs_register() {
    add<int, efp::dyn, 2, 2>("dyn-int-2x2", 2, unbounded, sp0);
    add<Pair, 2, 2, 2>("cap2-pair-2x2", 2, unbounded, sp0);
    add<int, 1, 2, 3>("cap1-int-2x3", 4, unbounded, sp0);
    add<Pair, efp::dyn, 2, 3>("dyn-pair-2x3", 4, unbounded, sp0);
    add<Pair, efp::dyn, 3, 1>("dyn-pair-3x1", 2, unbounded, sp0);
    add<Boxed, 1, 3, 1>("cap1-boxed-3x1", 2, unbounded, sp0);
    add<Pair, efp::dyn, 3, 2>("dyn-pair-3x2", 12, b4, sp0);
    add<Boxed, efp::dyn, 3, 2>("dyn-boxed-3x2", 12, b4, sp0);
    add<Boxed, 2, 3, 2>("cap2-boxed-3x2", 12, b4, sp0);
    add<Pair, 3, 3, 2>("cap3-pair-3x2", 12, b4, sp0);
    add<int, 2, 4, 1>("cap2-int-4x1", 4, unbounded, sp0);
    add<int, efp::dyn, 4, 1>("dyn-int-4x1", 4, unbounded, sp0);
}
