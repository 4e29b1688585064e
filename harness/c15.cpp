// DoubleBuffer under every schedule: T1 is the consumer, the others are producers
#include "mc/queue_scen.hpp"
using namespace qs;

template<typename A, size_t cap, int producers, int plen, int clen>
struct S {
    typedef efp::DoubleBuffer<A, cap> T;
    static T*& q() {
        static T* p;
        return p;
    }
    static void prepare() {
        // consumer: words over swap / empty / guarded dequeue
        int w = mcs::choose(words(2, clen));
        word(script().op[1], w, "SD", 2);
        mcs::note("T1:%s", script().op[1]);
        // producers: non-increasing numbers of items
        int max = plen;
        for (int p = 0; p < producers; ++p) {
            int k = 1 + mcs::choose(max);
            max = k;
            for (int i = 0; i < k; ++i)
                script().op[2 + p][i] = 'E';
            script().op[2 + p][k] = 0;
            mcs::note("T%d:%s", 2 + p, script().op[2 + p]);
        }
        mcs::set_threads(1 + producers);
        int pre = mcs::choose(3);
        Model& m = init_model();
        m.reset(int(cap));
        q() = new T();
        if (pre >= 1) {
            // one item waits on the read side
            q()->enqueue(A(70));
            q()->swap_buffer();
            m.r[m.nr++] = 70;
        }
        if (pre == 2)
            // and the write side is full
            for (int i = 0; i < int(cap); ++i) {
                q()->enqueue(A(80 + i));
                m.w[m.nw++] = 80 + i;
            }
        mcs::note("pre %d", pre);
    }
    static void body(int t) {
        const char* s = script().op[t];
        for (int i = 0; s[i]; ++i) {
            if (s[i] == 'E') {
                int v = t * 10 + i;
                A a(v);
                mcs::call('E', v);
                q()->enqueue(a);
                mcs::ret(0);
            } else if (s[i] == 'S') {
                mcs::call('S', 0);
                q()->swap_buffer();
                mcs::ret(0);
            } else {
                mcs::call('M', 0);
                bool e = q()->empty();
                mcs::ret(e);
                if (!e) {
                    mcs::call('Q', 0);
                    A a = q()->dequeue();
                    mcs::ret(value(a));
                }
            }
        }
    }
    static void finish() {
        delete q();
    }
    static const char* verdict(const mcs::OpRec* h, int n) {
        return judge(init_model(), h, n);
    }
};

static int unbounded(bool, int) {
    return 99;
}
static int b4(bool t, int s) {
    return s < 0 ? 2 : t ? 99 : 4;
}
static int b3(bool t, int s) {
    return s < 0 ? 2 : t ? 5 : 3;
}
static int none(bool, int) {
    return 0;
}

template<typename A, size_t cap, int producers, int plen, int clen>
static void add(const char* name, int shards, int (*b)(bool, int)) {
    typedef S<A, cap, producers, plen, clen> X;
    mcs::Scenario s = {name, shards, producers + 1, X::prepare, X::body, X::finish, X::verdict, b, none};
    mcs::add(s);
}

void mcs_register() {
    add<int, 1, 1, 2, 3>("cap1-int-1p2c3", 2, b4);
    add<Pair, 2, 1, 2, 3>("cap2-pair-1p2c3", 2, b4);
    add<Pair, 2, 1, 4, 4>("cap2-pair-1p4c4", 8, b3);
    add<Boxed, 2, 1, 3, 3>("cap2-boxed-1p3c3", 4, b4);
    add<Boxed, 1, 1, 2, 4>("cap1-boxed-1p2c4", 4, b4);
    add<Pair, 2, 2, 1, 2>("cap2-pair-2p1c2", 2, b4);
    add<Boxed, 2, 2, 2, 3>("cap2-boxed-2p2c3", 8, b3);
    add<Pair, 3, 2, 2, 3>("cap3-pair-2p2c3", 8, b3);
    add<int, 1, 3, 1, 2>("cap1-int-3p1c2", 4, b3);
    add<Pair, 2, 3, 1, 3>("cap2-pair-3p1c3", 4, b3);
}
