// One holder per kind of Sequence: builds a sequence of that kind from plain contents.
#ifndef MC_SEQ_KINDS_HPP
#define MC_SEQ_KINDS_HPP
#include "mc/core.hpp"
#include "efp.hpp"

// Sequences of a user: nothing but the traits and the three functions, found in the user's namespace.
namespace ext {
template<typename A, size_t n>
struct Fixed {
    A items[n ? n : 1];
    Fixed() : items() {}
};
template<typename A, size_t cap>
struct Bounded {
    A items[cap ? cap : 1];
    size_t used;
    Bounded() : items(), used(0) {}
};
template<typename A>
struct Dynamic {
    std::vector<A> items;
};
template<typename A, size_t n>
constexpr auto length(const Fixed<A, n>&) -> efp::Size<n> {
    return efp::Size<n> {};
}
template<typename A, size_t n>
constexpr const A& nth(size_t i, const Fixed<A, n>& as) {
    return as.items[i];
}
template<typename A, size_t n>
A& nth(size_t i, Fixed<A, n>& as) {
    return as.items[i];
}
template<typename A, size_t n>
constexpr const A* data(const Fixed<A, n>& as) {
    return as.items;
}
template<typename A, size_t n>
A* data(Fixed<A, n>& as) {
    return as.items;
}
template<typename A, size_t n>
constexpr size_t length(const Bounded<A, n>& as) {
    return as.used;
}
template<typename A, size_t n>
constexpr const A& nth(size_t i, const Bounded<A, n>& as) {
    return as.items[i];
}
template<typename A, size_t n>
A& nth(size_t i, Bounded<A, n>& as) {
    return as.items[i];
}
template<typename A, size_t n>
constexpr const A* data(const Bounded<A, n>& as) {
    return as.items;
}
template<typename A, size_t n>
A* data(Bounded<A, n>& as) {
    return as.items;
}
template<typename A>
size_t length(const Dynamic<A>& as) {
    return as.items.size();
}
template<typename A>
const A& nth(size_t i, const Dynamic<A>& as) {
    return as.items[i];
}
template<typename A>
A& nth(size_t i, Dynamic<A>& as) {
    return as.items[i];
}
template<typename A>
const A* data(const Dynamic<A>& as) {
    return as.items.data();
}
template<typename A>
A* data(Dynamic<A>& as) {
    return as.items.data();
}
}  // namespace ext
namespace efp {
template<typename A, size_t n>
struct ElementImpl<ext::Fixed<A, n>> {
    using Type = A;
};
template<typename A, size_t n>
struct CtSizeImpl<ext::Fixed<A, n>> {
    using Type = Size<n>;
};
template<typename A, size_t n>
struct CtCapacityImpl<ext::Fixed<A, n>> {
    using Type = Size<n>;
};
template<typename A, size_t n>
struct ElementImpl<ext::Bounded<A, n>> {
    using Type = A;
};
template<typename A, size_t n>
struct CtSizeImpl<ext::Bounded<A, n>> {
    using Type = Size<dyn>;
};
template<typename A, size_t n>
struct CtCapacityImpl<ext::Bounded<A, n>> {
    using Type = Size<n>;
};
template<typename A>
struct ElementImpl<ext::Dynamic<A>> {
    using Type = A;
};
template<typename A>
struct CtSizeImpl<ext::Dynamic<A>> {
    using Type = Size<dyn>;
};
template<typename A>
struct CtCapacityImpl<ext::Dynamic<A>> {
    using Type = Size<dyn>;
};
}  // namespace efp

namespace mc {
typedef std::vector<int> M;
enum { KSIZE, KCAP, KDYN };  // statically sized, static capacity, dynamic

template<typename T_, size_t n>
struct KArray {
    typedef T_ T;
    typedef efp::Array<T, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n, mut = 1 };
    static const char* name() {
        return "Array";
    }
    Seq s;
    void build(const M& m, int) {
        for (size_t i = 0; i < n; ++i)
            s[i] = mk<T>(m[i]);
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KArrVec {
    typedef T_ T;
    typedef efp::ArrVec<T, n> Seq;
    enum { lo = 0, hi = n, kind = KCAP, bound = n, mut = 1 };
    static const char* name() {
        return "ArrVec";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.push_back(mk<T>(v));
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, int maxlen = 4>
struct KVector {
    typedef T_ T;
    typedef efp::Vector<T> Seq;
    enum { lo = 0, hi = maxlen, kind = KDYN, bound = 0, mut = 1 };
    static const char* name() {
        return "Vector";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.push_back(mk<T>(v));
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KVcb {
    typedef T_ T;
    typedef efp::Vcb<T, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n, mut = 1 };
    static const char* name() {
        return "Vcb";
    }
    Seq s;
    void build(const M& m, int rot) {
        for (int i = 0; i < rot; ++i)
            s.push_back(mk<T>(77));
        for (int v : m)
            s.push_back(mk<T>(v));
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KVcq {
    typedef T_ T;
    typedef efp::Vcq<T, n> Seq;
    enum { lo = 0, hi = n, kind = KCAP, bound = n, mut = 1 };
    static const char* name() {
        return "Vcq";
    }
    Seq s;
    void build(const M& m, int rot) {
        for (int i = 0; i < rot; ++i)
            s.push_back(mk<T>(77));
        while (!s.empty())
            s.pop_front();
        for (int v : m)
            s.push_back(mk<T>(v));
    }
    Seq& get() {
        return s;
    }
};
// views: over heap storage that ends right behind (and starts right before) the viewed elements
template<typename T>
struct ViewBase {
    std::vector<T> st;
    void fill(const M& m) {
        st.reserve(m.size());
        for (int v : m)
            st.push_back(mk<T>(v));
        st.shrink_to_fit();
    }
};
template<typename T_, size_t n>
struct KArrayView: ViewBase<T_> {
    typedef T_ T;
    typedef efp::ArrayView<T, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n, mut = 0 };
    static const char* name() {
        return "ArrayView";
    }
    Seq s;
    void build(const M& m, int) {
        this->fill(m);
        s = Seq(this->st.data(), n);
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KArrVecView: ViewBase<T_> {
    typedef T_ T;
    typedef efp::ArrVecView<T, n> Seq;
    enum { lo = 0, hi = n, kind = KCAP, bound = n, mut = 0 };
    static const char* name() {
        return "ArrVecView";
    }
    Seq s;
    void build(const M& m, int) {
        this->fill(m);
        s = Seq(this->st.data(), m.size());
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, int maxlen = 4>
struct KVectorView: ViewBase<T_> {
    typedef T_ T;
    typedef efp::VectorView<T> Seq;
    enum { lo = 0, hi = maxlen, kind = KDYN, bound = 0, mut = 0 };
    static const char* name() {
        return "VectorView";
    }
    Seq s;
    void build(const M& m, int) {
        this->fill(m);
        s = Seq(this->st.data(), m.size());
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KStdArray {
    typedef T_ T;
    typedef std::array<T, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n, mut = 1 };
    static const char* name() {
        return "std::array";
    }
    Seq s;
    void build(const M& m, int) {
        for (size_t i = 0; i < n; ++i)
            s[i] = mk<T>(m[i]);
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, int maxlen = 4>
struct KStdVector {
    typedef T_ T;
    typedef std::vector<T> Seq;
    enum { lo = 0, hi = maxlen, kind = KDYN, bound = 0, mut = 1 };
    static const char* name() {
        return "std::vector";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.push_back(mk<T>(v));
        s.shrink_to_fit();
    }
    Seq& get() {
        return s;
    }
};
struct KString {
    typedef char T;
    typedef efp::String Seq;
    enum { lo = 0, hi = 4, kind = KDYN, bound = 0, mut = 1 };
    static const char* name() {
        return "String";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.push_back(char(v));
    }
    Seq& get() {
        return s;
    }
};
struct KStdString {
    typedef char T;
    typedef std::string Seq;
    enum { lo = 0, hi = 4, kind = KDYN, bound = 0, mut = 1 };
    static const char* name() {
        return "std::string";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.push_back(char(v));
    }
    Seq& get() {
        return s;
    }
};
struct KStringView: ViewBase<char> {
    typedef char T;
    typedef efp::StringView Seq;
    enum { lo = 0, hi = 4, kind = KDYN, bound = 0, mut = 0 };
    static const char* name() {
        return "StringView";
    }
    Seq s;
    void build(const M& m, int) {
        this->fill(m);
        s = Seq(this->st.data(), m.size());
    }
    Seq& get() {
        return s;
    }
};

template<typename T_, size_t n>
struct KUserFixed {
    typedef T_ T;
    typedef ext::Fixed<T, n> Seq;
    enum { lo = n, hi = n, kind = KSIZE, bound = n, mut = 1 };
    static const char* name() {
        return "user-fixed";
    }
    Seq s;
    void build(const M& m, int) {
        for (size_t i = 0; i < n; ++i)
            s.items[i] = mk<T>(m[i]);
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, size_t n>
struct KUserBounded {
    typedef T_ T;
    typedef ext::Bounded<T, n> Seq;
    enum { lo = 0, hi = n, kind = KCAP, bound = n, mut = 1 };
    static const char* name() {
        return "user-bounded";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.items[s.used++] = mk<T>(v);
    }
    Seq& get() {
        return s;
    }
};
template<typename T_, int maxlen = 4>
struct KUserDynamic {
    typedef T_ T;
    typedef ext::Dynamic<T> Seq;
    enum { lo = 0, hi = maxlen, kind = KDYN, bound = 0, mut = 1 };
    static const char* name() {
        return "user-dynamic";
    }
    Seq s;
    void build(const M& m, int) {
        for (int v : m)
            s.items.push_back(mk<T>(v));
        s.items.shrink_to_fit();
    }
    Seq& get() {
        return s;
    }
};

// as in the library: functions of user sequences are found in their namespace
using efp::data;
using efp::length;
using efp::nth;
template<typename S>
M contents(const S& s) {
    M m;
    size_t n = length(s);
    for (size_t i = 0; i < n; ++i)
        m.push_back(val(nth(i, s)));
    return m;
}
inline std::string show(const M& m) {
    std::string s = "[";
    for (size_t i = 0; i < m.size() && i < 40; ++i)
        s += (i ? "," : "") + std::to_string(m[i]);
    return s + "]";
}
// contents of any result sequence equal the expected list
template<typename S>
void expect(const S& s, const M& m, const char* what) {
    size_t n = length(s);
    if (n != m.size())
        MC_CHECK(false, "%s has length %zu, expected %zu %s", what, n, m.size(), show(m).c_str());
    for (size_t i = 0; i < n; ++i)
        if (val(nth(i, s)) != m[i])
            MC_CHECK(false, "%s is %s, expected %s", what, show(contents(s)).c_str(), show(m).c_str());
}
inline void expect_eq(const M& got, const M& m, const char* what) {
    if (got != m)
        MC_CHECK(false, "%s is %s, expected %s", what, show(got).c_str(), show(m).c_str());
}

// choose contents for a kind: every length it can have, every content over {1..alpha}
template<typename K>
M choose_contents(int alpha, int maxlen = 99) {
    int hi = K::hi < maxlen ? K::hi : maxlen;
    if (hi < K::lo)
        hi = K::lo;
    int n = K::lo + choose(hi - K::lo + 1);
    M m;
    for (int i = 0; i < n; ++i)
        m.push_back(alpha == 0 ? i + 1 : 1 + choose(alpha));
    return m;
}
template<typename K>
int choose_rot() {
    return K::name()[0] == 'V' && K::name()[1] == 'c' ? choose(3) : 0;
}

}  // namespace mc
#endif
