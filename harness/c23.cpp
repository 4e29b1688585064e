// Type-level utilities: every type term of a bounded grammar against the language's own answer.
#include "mc/seq_kinds.hpp"
#include "mc/alloc.hpp"
#include "efp/c_utility.hpp"
#include <functional>
#include <memory>
using namespace mc;

// ---- type lists ------------------------------------------------------------------------------------
template<typename... Ts>
struct L {
    enum { n = sizeof...(Ts) };
};
template<typename A, typename B>
struct Cat;
template<typename... A, typename... B>
struct Cat<L<A...>, L<B...>> {
    typedef L<A..., B...> T;
};
template<template<class> class M, typename A>
struct MapL;
template<template<class> class M, typename... A>
struct MapL<M, L<A...>> {
    typedef L<typename M<A>::T...> T;
};
template<typename T>
struct Name {
    static std::string get() {
        std::string s = __PRETTY_FUNCTION__;
        size_t k = s.find("T = ");
        size_t e = s.find_last_of(']');
        std::string r = k == std::string::npos ? s : s.substr(k + 4, e - k - 4);
        size_t semi = r.find(';');
        return semi == std::string::npos ? r : r.substr(0, semi);
    }
};
// F<T>::run() for every T of the list; the history chooses T
template<template<class> class F, typename Ls>
struct Each;
template<template<class> class F, typename... Ts>
struct Each<F, L<Ts...>> {
    static void run() {
        typedef void (*P)();
        static const P ps[] = {&F<Ts>::run...};
        int i = choose(int(sizeof...(Ts)));
        ps[i]();
        outcome(uint64_t(i));
    }
};
static long pairs_;
#define SAME(X, Y, what, ...)                                                                          \
    do {                                                                                               \
        ++pairs_;                                                                                      \
        ++core().st.transitions;                                                                       \
        MC_CHECK((std::is_same<X, Y>::value), "%s<%s> is %s, expected %s", what, #__VA_ARGS__, Name<X>::get().c_str(), Name<Y>::get().c_str()); \
    } while (0)
#define SAMEV(x, y, ...)                                                             \
    do {                                                                             \
        ++core().st.transitions;                                                     \
        MC_CHECK((x) == (y), __VA_ARGS__);                                           \
    } while (0)

// ---- classes of the grammar --------------------------------------------------------------------------
struct X {
    int v;
};
struct Y: X {
    Y() {}
    Y(int) {}
};
struct FromY {  // implicitly from Y only
    FromY(const Y&) {}
};
struct NoDefault {
    NoDefault(int) {}
};
struct NoCopy {
    NoCopy() {}
    NoCopy(NoCopy&&) {}
    NoCopy(const NoCopy&) = delete;
};
struct PrivateDefault {
private:
    PrivateDefault() {}
};
struct Abstract {
    virtual void f() = 0;
    virtual ~Abstract() {}
};
enum Plain { one };
enum class Scoped { one };

// ---- 1. transformations of one type ------------------------------------------------------------------
template<typename A>
struct C_ { typedef const A T; };
template<typename A>
struct V_ { typedef volatile A T; };
template<typename A>
struct P_ { typedef typename std::add_pointer<A>::type T; };
template<typename A>
struct Lr { typedef typename std::add_lvalue_reference<A>::type T; };
template<typename A>
struct Rr { typedef typename std::add_rvalue_reference<A>::type T; };
template<typename A>
struct Id { typedef A T; };
typedef L<int, X, Scoped, int[3], int(int, X&), void, std::nullptr_t> Base;
typedef MapL<C_, Base>::T BaseC;
typedef MapL<V_, Base>::T BaseV;
typedef MapL<V_, BaseC>::T BaseCV;
typedef Cat<Cat<Base, BaseC>::T, Cat<BaseV, BaseCV>::T>::T Obj;           // 28
typedef Cat<MapL<P_, Obj>::T, MapL<C_, MapL<P_, Obj>::T>::T>::T Ptr;      // 56
typedef Cat<Obj, Ptr>::T Val;                                            // 84
typedef Cat<Val, Cat<MapL<Lr, Val>::T, MapL<Rr, Val>::T>::T>::T AllTypes;  // 252

template<typename A>
struct Transform {
    static void run() {
        note("%s", Name<A>::get().c_str());
        SAME(efp::PointerRemoved<A>, typename std::remove_pointer<A>::type, "PointerRemoved", A);
        SAME(efp::ReferenceRemoved<A>, typename std::remove_reference<A>::type, "ReferenceRemoved", A);
        SAME(efp::ConstRemoved<A>, typename std::remove_const<A>::type, "ConstRemoved", A);
        SAME(efp::VoletileRemoved<A>, typename std::remove_volatile<A>::type, "VoletileRemoved", A);
        SAME(efp::CVRemoved<A>, typename std::remove_cv<A>::type, "CVRemoved", A);
        SAME(efp::CVRefRemoved<A>, typename std::remove_cv<typename std::remove_reference<A>::type>::type, "CVRefRemoved", A);
        SAME(efp::Decay<A>, typename std::decay<A>::type, "Decay", A);
        SAME(efp::LvalueRefAdded<A>, typename std::add_lvalue_reference<A>::type, "LvalueRefAdded", A);
        SAME(efp::RvalueRefAdded<A>, typename std::add_rvalue_reference<A>::type, "RvalueRefAdded", A);
        typedef decltype(efp::declval<A>()) DE;
        typedef decltype(std::declval<A>()) DS;
        SAME(DE, DS, "declval", A);
        SAME(efp::Void<A>, void, "Void", A);
        typedef efp::Void<A, typename std::add_pointer<A>::type, X> VV;
        SAME(VV, void, "Void", A);
        SAMEV(bool(efp::IsConst<A>::value), bool(std::is_const<A>::value), "IsConst of %s is wrong", Name<A>::get().c_str());
        SAMEV(bool(efp::IsLvalueReference<A>::value), bool(std::is_lvalue_reference<A>::value), "IsLvalueReference of %s is wrong", Name<A>::get().c_str());
        SAMEV(bool(efp::IsFunction<A>::value), bool(std::is_function<A>::value), "IsFunction of %s is wrong", Name<A>::get().c_str());
        SAMEV(bool(efp::IsCtConst<A>::value), false, "%s is taken for a compile-time constant", Name<A>::get().c_str());
        SAMEV(bool(efp::AlwaysFalse<A>::value), false, "AlwaysFalse of %s is true", Name<A>::get().c_str());
        typedef typename std::conditional<std::is_function<A>::value, typename std::add_pointer<A>::type, A>::type FP;
        SAME(efp::FuncToFuncPtr<A>, FP, "FuncToFuncPtr", A);
    }
};

// ---- 2. pairs of types -------------------------------------------------------------------------------
typedef L<int, double, bool, char, unsigned, long long, X, Y, FromY, NoDefault, NoCopy, PrivateDefault, Abstract*, Scoped, Plain, X*, const X*, Y*, void*, std::nullptr_t, std::string, const char*, int&,
          const int&, X&, Y&, const X&, const Y&, int&&, X&&, const int, const X>
    Some;
template<typename A, typename B, typename = void>
struct HasCommon: std::false_type {};
template<typename A, typename B>
struct HasCommon<A, B, typename std::conditional<false, typename std::common_type<A, B>::type, void>::type>: std::true_type {};
template<typename A, typename B, bool has>
struct CommonIs {
    static void run() {}
};
template<typename A, typename B>
struct CommonIs<A, B, true> {
    static void run() {
        typedef efp::Common<A, B> E;
        typedef typename std::common_type<A, B>::type S;
        SAME(E, S, "Common", A, B);
    }
};
template<typename A>
struct Pairs {
    template<typename B>
    static int with() {
        const std::string na = Name<A>::get(), nb = Name<B>::get();
        SAMEV(bool(efp::IsSame<A, B>::value), bool(std::is_same<A, B>::value), "IsSame<%s, %s> is wrong", na.c_str(), nb.c_str());
        SAMEV(bool(efp::IsConstructible<A, B>::value), bool(std::is_constructible<A, B>::value), "IsConstructible<%s, %s> is wrong", na.c_str(), nb.c_str());
        typedef efp::Conditional<true, A, B> T;
        typedef efp::Conditional<false, A, B> F;
        SAME(T, A, "Conditional", true, A, B);
        SAME(F, B, "Conditional", false, A, B);
        CommonIs<A, B, HasCommon<A, B>::value>::run();
        typedef efp::TupleAt<1, efp::Tuple<A, B>> T1;
        typedef efp::TupleAt<0, efp::Pair<A, B>> T0;
        SAME(T0, A, "TupleAt", 0, A, B);
        SAME(T1, B, "TupleAt", 1, A, B);
        typedef efp::Prepend<A, efp::TypeList<B, A>> Pr;
        typedef efp::TypeList<A, B, A> PrS;
        SAME(Pr, PrS, "Prepend", A, B);
        return 0;
    }
    template<typename... Bs>
    static void all(L<Bs...>) {
        int d[] = {with<Bs>()...};
        (void)d;
    }
    static void run() {
        note("pairs with %s", Name<A>::get().c_str());
        all(Some());
        SAMEV(bool(efp::IsConstructible<A>::value), bool(std::is_constructible<A>::value), "IsConstructible<%s> is wrong", Name<A>::get().c_str());
        typedef efp::EnableIf<true, A> E1;
        SAME(E1, A, "EnableIf", true, A);
    }
};
template<typename A>
struct DefaultCt {
    static void run() {
        note("%s", Name<A>::get().c_str());
        SAMEV(bool(efp::IsDefaultConstructible<A>::value), bool(std::is_default_constructible<A>::value), "IsDefaultConstructible<%s> is wrong", Name<A>::get().c_str());
    }
};
typedef L<int, double, X, Y, FromY, NoDefault, NoCopy, PrivateDefault, Abstract, Scoped, X*, std::string, std::nullptr_t, std::unique_ptr<int>, efp::Vector<NoDefault>, efp::ArrVec<NoDefault, 2>, efp::Maybe<NoDefault>,
          efp::Tuple<int, NoDefault>, efp::String, efp::Unit, efp::Nothing, int&, const X&>
    DefTypes;

template<typename A, bool b, typename = void>
struct Enabled: std::false_type {};
template<typename A, bool b>
struct Enabled<A, b, typename std::conditional<false, efp::EnableIf<b, A>, void>::type>: std::true_type {};

// ---- 3. callables ------------------------------------------------------------------------------------
struct ConstFn {
    int operator()(int, X&) const {
        return 1;
    }
};
struct MutFn {
    X& operator()(const Y&);
};
struct BothFn {
    int operator()(int);
    double operator()(int) const;
    X operator()(X&&) const;
    void operator()() const;
};
struct RefFn {
    int& operator()(int) &;
    X operator()(int) &&;
};
struct OnceFn {
    X operator()(int) &&;
};
struct LvalFn {
    int operator()(X&) &;
};
struct ConstLvalFn {
    const X& operator()(double) const&;
};
struct ConstOnceFn {
    void operator()(Y) const&&;
};
struct GenFn {
    template<typename T>
    T operator()(const T&) const;
};
struct VarFn {
    int operator()(...) const;
};
struct DefFn {
    long operator()(int, double = 1) const;
};
struct NoexFn {
    std::string operator()(const std::string&) const noexcept {
        return std::string();
    }
};
struct OwnFn {
    std::unique_ptr<int> operator()(std::unique_ptr<int>) const;
};
struct AbstractRet {
    const X operator()(X*) const;
};
struct PrivFn {
private:
    int operator()(int) const;
};
typedef L<int(int), int (*)(int), int (&)(int), int (*const)(double, X&), void (*)(), void(X&&), X& (*)(X&), const X& (*)(const X&), double (*)(const X&, Y), FromY (*)(FromY), ConstFn, const ConstFn, ConstFn&,
          const ConstFn&, MutFn, const MutFn, MutFn&, BothFn, const BothFn, BothFn&, const BothFn&, BothFn&&, RefFn, RefFn&, OnceFn, OnceFn&, const OnceFn, LvalFn, LvalFn&, const LvalFn&, ConstLvalFn, ConstLvalFn&, const ConstLvalFn&, ConstOnceFn, ConstOnceFn&, const ConstOnceFn, const ConstOnceFn&, GenFn, const GenFn&, VarFn, DefFn, NoexFn, OwnFn, AbstractRet, PrivFn, std::function<int(int)>,
          std::function<void(X&)>, std::plus<int>, int, X, void*, int*>
    Fns;
typedef L<int, int&, const int&, double, X, X&, const X&, Y, Y&, const Y&, X*, std::string, const std::string&, const char*, std::unique_ptr<int>, std::unique_ptr<int>&, FromY> Args1;
typedef L<int, int&, double, X, X&, const X&, Y&> Args2;
typedef L<void, int, int&, const int&, double, X, X&, const X&, Y, FromY, std::string, std::unique_ptr<int>, bool, const int> Rets;

template<typename... As>
struct Ok {
    template<typename F>
    static auto test(int) -> decltype(static_cast<void>(std::declval<F>()(std::declval<As>()...)), std::true_type());
    template<typename>
    static std::false_type test(...);
};
template<bool ok, typename F, typename... As>
struct Res {
    typedef decltype(std::declval<F>()(std::declval<As>()...)) R;
    template<typename W>
    static int ret() {
        // a call whose result is discarded satisfies void
        bool want = std::is_void<W>::value || std::is_convertible<R, W>::value;
        // the standard left it open whether binding a reference to a temporary result counts
        if (std::is_reference<W>::value && want && !std::is_convertible<typename std::remove_reference<R>::type*, typename std::remove_reference<W>::type*>::value)
            return 0;
        if (std::is_reference<W>::value && want && !std::is_reference<R>::value)
            return 0;
        SAMEV(bool(efp::IsInvocableR<W, F, As...>::value), want, "IsInvocableR<%s, %s, ...> is %d for a result of %s", Name<W>::get().c_str(), Name<F>::get().c_str(), int(!want), Name<R>::get().c_str());
        return 0;
    }
    template<typename... Ws>
    static void rets(L<Ws...>) {
        int d[] = {ret<Ws>()...};
        (void)d;
    }
    static void run() {
        typedef efp::InvokeResult<F, As...> E;
        SAME(E, R, "InvokeResult", F, As...);
        rets(Rets());
    }
};
template<typename F, typename... As>
struct Res<false, F, As...> {
    template<typename W>
    static int ret() {
        SAMEV(bool(efp::IsInvocableR<W, F, As...>::value), false, "IsInvocableR<%s, %s, ...> is true for a call that is not possible", Name<W>::get().c_str(), Name<F>::get().c_str());
        return 0;
    }
    template<typename... Ws>
    static void rets(L<Ws...>) {
        int d[] = {ret<Ws>()...};
        (void)d;
    }
    static void run() {
        rets(Rets());
    }
};
template<typename F>
struct Call {
    template<typename... As>
    static int with() {
        const bool ok = decltype(Ok<As...>::template test<F>(0))::value;
        SAMEV(bool(efp::IsInvocable<F, As...>::value), ok, "IsInvocable<%s> with %d arguments is %d", Name<L<F, As...>>::get().c_str(), int(sizeof...(As)), int(!ok));
        Res<ok, F, As...>::run();
        return 0;
    }
    template<typename A, typename... Bs>
    static int second(L<Bs...>) {
        int d[] = {with<A, Bs>()...};
        (void)d;
        return 0;
    }
    template<typename... As>
    static void firsts(L<As...>) {
        int d[] = {with<As>()...};
        (void)d;
    }
    template<typename... As>
    static void firsts2(L<As...>) {
        int d[] = {second<As>(Args2())...};
        (void)d;
    }
    static void run() {
        note("calls of %s", Name<F>::get().c_str());
        with<>();
        firsts(Args1());
        firsts2(Args2());
        with<int, int, int>();
    }
};
template<typename A, bool has>
struct HasCall {
    static void check() {
        SAMEV(bool(efp::HasCallOperator<A>::value), has, "HasCallOperator<%s> is %d", Name<A>::get().c_str(), int(!has));
    }
};
static void call_operators() {
    note("call operators");
    HasCall<ConstFn, true>::check();
    HasCall<MutFn, true>::check();
    HasCall<NoexFn, true>::check();
    HasCall<DefFn, true>::check();
    HasCall<std::plus<int>, true>::check();
    HasCall<std::function<int(int)>, true>::check();
    HasCall<X, false>::check();
    HasCall<efp::Unit, false>::check();
    HasCall<efp::String, false>::check();
    auto l0 = []() {};
    auto l1 = [](int) mutable {};
    HasCall<decltype(l0), true>::check();
    HasCall<decltype(l1), true>::check();
    HasCall<int, false>::check();
    HasCall<int (*)(int), false>::check();
}

// ---- 4. signatures -----------------------------------------------------------------------------------
template<typename R, typename... As>
struct Sig {
    struct FnC {
        R operator()(As...) const;
    };
    struct FnM {
        R operator()(As...);
    };
    struct FnN {
        R operator()(As...) const noexcept;
    };
    struct FnMN {
        R operator()(As...) noexcept;
    };
    template<typename F, typename W>
    static void is(const char* what) {
        ++core().st.transitions;
        MC_CHECK((std::is_same<efp::Arguments<F>, W>::value), "Arguments of a %s with signature %s are %s", what, Name<R(As...)>::get().c_str(), Name<efp::Arguments<F>>::get().c_str());
    }
    static void run() {
        note("signature %s", Name<R(As...)>::get().c_str());
        // by value parameters lose their const in the function type itself
        typedef efp::Tuple<As...> T;
        is<R (*)(As...), T>("function pointer");
        is<R (*&)(As...), T>("reference to a function pointer");
        is<FnC, T>("const functor");
        is<FnC&, T>("const functor");
        is<const FnC, T>("const functor");
        is<const FnC&, T>("const functor");
        is<FnM, T>("functor");
        is<FnM&&, T>("functor");
        is<FnN, T>("noexcept functor");
        is<FnMN, T>("noexcept functor");
        is<R (FnC::*)(As...), T>("member function");
        is<R (FnC::*)(As...) const, T>("const member function");
        is<std::function<R(As...)>, T>("std::function");
#if __cplusplus >= 201703L
        is<R (*)(As...) noexcept, T>("noexcept function pointer");
        is<R (FnC::*)(As...) noexcept, T>("noexcept member function");
        is<R (FnC::*)(As...) const noexcept, T>("noexcept const member function");
        typedef R (*PtrN)(As...) noexcept;
        typedef efp::FuncToFuncPtr<R(As...) noexcept> EN;
        SAME(EN, PtrN, "FuncToFuncPtr", R(As...) noexcept);
#endif
        typedef R (*Ptr)(As...);
        typedef efp::FuncToFuncPtr<R(As...)> E;
        SAME(E, Ptr, "FuncToFuncPtr", R(As...));
        typedef efp::FuncToFuncPtr<R (FnC::*)(As...) const> MC;
        typedef R (FnC::*PMC)(As...) const;
        SAME(MC, PMC, "FuncToFuncPtr", R (FnC::*)(As...) const);
        typedef efp::FunctionPointerType<FnC> FPT;
        SAME(FPT, Ptr, "FunctionPointerType", R(As...));
    }
};
template<typename R>
struct Sigs {
    template<typename A>
    struct Two {
        template<typename... Bs>
        static void go(L<Bs...>) {
            typedef void (*P)();
            static const P ps[] = {&Sig<R, A, Bs>::run...};
            for (P p : ps)
                p();
            Sig<R, A>::run();
            Sig<R, A, A, typename std::add_pointer<R>::type>::run();
            Sig<R, A, int, A, X&>::run();
        }
        static int run() {
            go(ParamTypes());
            return 0;
        }
        typedef L<int, int&, const X&, X&&, const char*, std::unique_ptr<int>> ParamTypes;
    };
    template<typename... As>
    static void go(L<As...>) {
        int d[] = {Two<As>::run()...};
        (void)d;
    }
    static void run() {
        Sig<R>::run();
        go(L<int, double&, const X&, X&&, std::string, int*, X (*)(int), int (&)[3]>());
    }
};
// what has no signature of its own is never taken for a callable without parameters
struct TwoCalls {
    void operator()() const;
    void operator()(int) const;
};
struct Generic0 {
    template<typename T>
    void operator()(T) const;
};
template<typename F>
struct Unsigned {
    static void run() {
        note("%s", Name<F>::get().c_str());
        SAMEV((std::is_same<efp::Arguments<F>, efp::Tuple<>>::value), false, "%s is taken for a callable without parameters", Name<F>::get().c_str());
    }
};

// ---- 5. packs ----------------------------------------------------------------------------------------
template<int i>
struct T_ {
    static constexpr int value = i;
};
template<typename S, int n, int from>
struct PackRun;
template<int... is, int n, int from>
struct PackRun<efp::IndexSequence<is...>, n, from> {
    template<int k>
    static int at() {
        typedef efp::PackAt<size_t(k), T_<from + is>...> P;
        SAME(P, T_<from + k>, "PackAt", k, T_...);
        typedef efp::TupleAt<size_t(k), efp::Tuple<T_<from + is>...>> Tu;
        SAME(Tu, T_<from + k>, "TupleAt", k, T_...);
        typedef efp::EnumAt<size_t(k), efp::Enum<T_<from + is>...>> En;
        SAME(En, T_<from + k>, "EnumAt", k, T_...);
        return 0;
    }
    template<int k>
    struct Eq {
        template<typename T>
        struct P {
            static constexpr bool value = T::value == from + k;
        };
        template<typename T>
        struct GE {
            static constexpr bool value = T::value >= from + k;
        };
    };
    template<int k>
    static int find() {
        SAMEV(size_t(efp::Find<Eq<k>::template P, T_<from + is>...>::value), size_t(k), "Find of type %d of %d gives %zu", k, n, size_t(efp::Find<Eq<k>::template P, T_<from + is>...>::value));
        SAMEV(size_t(efp::Find<Eq<k>::template GE, T_<from + is>...>::value), size_t(k), "Find of the first of several of %d is wrong", n);
        return 0;
    }
    static void run() {
        note("packs of %d", n);
        int d[] = {at<is>()..., find<is>()...};
        (void)d;
        typedef efp::MakeIndexSequence<size_t(n)> M;
        typedef efp::IndexSequence<is...> W;
        SAME(M, W, "MakeIndexSequence", n);
        typedef efp::IndexSequenceFor<T_<is>...> MF;
        SAME(MF, W, "IndexSequenceFor", n);
        outcome(n);
    }
};
template<int... is>
struct SI {};
template<int n, int... is>
struct MkSI: MkSI<n - 1, n - 1, is...> {};
template<int... is>
struct MkSI<0, is...> {
    typedef efp::IndexSequence<is...> T;
};
template<int n>
static void packs() {
    PackRun<typename MkSI<n>::T, n, 0>::run();
    PackRun<typename MkSI<n>::T, n, 7>::run();
}

// booleans: every list of length 1..5
template<int bits, int n, typename... Bs>
struct BitList: BitList<bits, n - 1, efp::Bool<((bits >> (n - 1)) & 1) != 0>, Bs...> {};
template<typename T>
struct IsTrue {
    static constexpr bool value = T::value;
};
template<int bits, typename B0, typename... Bs>
struct BitList<bits, 0, B0, Bs...> {
    template<bool any, typename D>
    struct Fi {
        static void run(int) {}
    };
    template<typename D>
    struct Fi<true, D> {
        static void run(int want) {
            SAMEV(int(efp::Find<IsTrue, B0, Bs...>::value), want, "Find in bits %d gives %d", bits, int(efp::Find<IsTrue, B0, Bs...>::value));
        }
    };
    static int run() {
        const int n = 1 + int(sizeof...(Bs));
        bool all = bits == (1 << n) - 1, any = bits != 0;
        SAMEV(bool(efp::All<B0, Bs...>::value), all, "All of bits %d of %d is wrong", bits, n);
        SAMEV(bool(efp::Any<B0, Bs...>::value), any, "Any of bits %d of %d is wrong", bits, n);
        typedef efp::All<B0, Bs...> Al;
        typedef efp::Bool<bits == (1 << (1 + int(sizeof...(Bs)))) - 1> AlW;
        SAME(Al, AlW, "All", bits);
        SAMEV(bool(efp::Negation<B0>::value), !B0::value, "Negation is wrong");
        int first = 0;
        while (any && !((bits >> first) & 1))
            ++first;
        Fi<bits != 0, void>::run(first);
        return 0;
    }
};
template<int n, typename S>
struct Bits;
template<int n, int... bs>
struct Bits<n, efp::IndexSequence<bs...>> {
    static void run() {
        note("all lists of %d booleans", n);
        int d[] = {BitList<bs, n>::run()...};
        (void)d;
        outcome(n);
    }
};
template<int n>
static void bits() {
    Bits<n, typename MkSI<(1 << n)>::T>::run();
}

// integral constants: pairs and triples
template<typename A, A a>
struct ConstRun {
    template<A b>
    static int with() {
        using efp::operator+;
        using efp::operator-;
        using efp::operator*;
        using efp::operator/;
        using efp::operator==;
        using efp::operator!=;
        typedef efp::CtConst<A, a> U;
        typedef efp::CtConst<A, b> W;
        typedef decltype(U {} + W {}) Su;
        typedef decltype(U {} - W {}) Di;
        typedef decltype(U {} * W {}) Pr;
        typedef decltype(U {} == W {}) Eq;
        typedef decltype(U {} != W {}) Ne;
        typedef efp::CtConst<A, A(a + b)> SuW;
        typedef efp::CtConst<A, A(a - b)> DiW;
        typedef efp::CtConst<A, A(a * b)> PrW;
        typedef efp::CtConst<bool, (a == b)> EqW;
        typedef efp::CtConst<bool, (a != b)> NeW;
        SAME(Su, SuW, "+", a, b);
        SAME(Di, DiW, "-", a, b);
        SAME(Pr, PrW, "*", a, b);
        SAME(Eq, EqW, "==", a, b);
        SAME(Ne, NeW, "!=", a, b);
        typedef decltype(U {} / efp::CtConst<A, (b == A(0) ? A(1) : b)> {}) Qu;
        typedef efp::CtConst<A, A(a / (b == A(0) ? A(1) : b))> QuW;
        SAME(Qu, QuW, "/", a, b);
        SAMEV(bool(efp::IsCtConst<Su>::value) && bool(efp::IsCtConst<const Su&>::value) == bool(efp::IsCtConst<const Su>::value), true, "IsCtConst is wrong");
        SAMEV(bool(efp::IsCtConst<U&>::value) && bool(efp::IsCtConst<U&&>::value), true, "IsCtConst is wrong for a reference");
        typedef efp::Mininum<U, W> Mi;
        typedef efp::Maximum<U, W> Ma;
        typedef efp::CtConst<A, (a < b ? a : b)> MiW;
        typedef efp::CtConst<A, (a < b ? b : a)> MaW;
        SAME(Mi, MiW, "Mininum", a, b);
        SAME(Ma, MaW, "Maximum", a, b);
        typedef efp::Maximum<W, U, W> Ma3;
        SAME(Ma3, MaW, "Maximum", b, a, b);
        typedef efp::Mininum<W, W, U> Mi3;
        SAME(Mi3, MiW, "Mininum", b, b, a);
        typedef efp::Maximum<U> Ma1;
        SAME(Ma1, U, "Maximum", a);
        return 0;
    }
};
template<typename A, A... vs>
struct Consts {
    template<A a>
    static int row() {
        int d[] = {ConstRun<A, a>::template with<vs>()...};
        (void)d;
        return 0;
    }
    static void run() {
        note("constants of %s", Name<A>::get().c_str());
        int d[] = {row<vs>()...};
        (void)d;
    }
};

// ---- 6. forwarding -----------------------------------------------------------------------------------
static int cat(X&) { return 0; }
static int cat(const X&) { return 1; }
static int cat(X&&) { return 2; }
static int cat(const X&&) { return 3; }
template<typename T>
static int via(T&& t) {
    int e = cat(efp::forward<T>(t)), s = cat(std::forward<T>(t));
    MC_CHECK(e == s, "forward gives category %d, expected %d", e, s);
    MC_CHECK(&static_cast<const X&>(efp::forward<T>(t)) == &t, "forward gives another object");
    typedef decltype(efp::forward<T>(t)) FE;
    typedef decltype(std::forward<T>(t)) FS;
    SAME(FE, FS, "forward", T);
    typedef decltype(efp::move(t)) ME;
    typedef decltype(std::move(t)) MS;
    SAME(ME, MS, "move", T);
    return e;
}
static void forwarding() {
    note("forwarding");
    X x = {1};
    const X c = {2};
    MC_CHECK(via(x) == 0 && via(c) == 1 && via(std::move(x)) == 2 && via(std::move(c)) == 3 && via(X()) == 2, "a value category is lost");
    typedef decltype(efp::forward<X>(X())) F1;
    SAME(F1, X&&, "forward", X);
    typedef decltype(efp::forward<const X>(std::move(c))) F2;
    SAME(F2, const X&&, "forward", const X);
    MC_CHECK(cat(efp::move(x)) == 2 && cat(efp::move(c)) == 3 && cat(efp::move(X())) == 2, "move gives another category");
    MC_CHECK(efp::unit == efp::Unit() && !(efp::unit != efp::Unit()), "units differ");
    SAMEV((Enabled<int, true>::value), true, "EnableIf<true> is rejected");
    SAMEV((Enabled<int, false>::value), false, "EnableIf<false> is accepted");
    SAMEV(efp::size_of_ptr_v, sizeof(void*), "size_of_ptr_v is wrong");
}

// ---- 7. traits of sequences --------------------------------------------------------------------------
template<typename S, typename A, size_t size, size_t cap>
struct Seq {
    template<typename Q>
    static void one(const char* q) {
        const std::string nm = Name<S>::get();
        ++core().st.transitions;
        MC_CHECK((std::is_same<efp::Element<Q>, A>::value), "Element of a %s %s is %s", q, nm.c_str(), Name<efp::Element<Q>>::get().c_str());
        MC_CHECK(efp::CtSize<Q>::value == size, "CtSize of a %s %s is %zu", q, nm.c_str(), size_t(efp::CtSize<Q>::value));
        MC_CHECK(efp::CtCapacity<Q>::value == cap, "CtCapacity of a %s %s is %zu", q, nm.c_str(), size_t(efp::CtCapacity<Q>::value));
        MC_CHECK(efp::IsStaticSize<Q>::value == (size != efp::dyn), "IsStaticSize of a %s %s is wrong", q, nm.c_str());
        MC_CHECK(efp::IsStaticCapacity<Q>::value == (cap != efp::dyn), "IsStaticCapacity of a %s %s is wrong", q, nm.c_str());
    }
    static void run() {
        note("%s", Name<S>::get().c_str());
        one<S>("");
        one<const S>("const");
        one<volatile S>("volatile");
        one<S&>("reference to a");
        one<const S&>("const reference to a");
        one<S&&>("rvalue");
        one<const S&&>("const rvalue");
    }
};
template<typename A, size_t n>
static void seqs() {
    const size_t d = efp::dyn;
    typedef void (*P)();
    static const P ps[] = {
        &Seq<efp::Array<A, n>, A, n, n>::run, &Seq<efp::ArrVec<A, n>, A, d, n>::run, &Seq<efp::Vector<A>, A, d, d>::run, &Seq<efp::Vector<A, UserAlloc<A>>, A, d, d>::run,
        &Seq<efp::Vcb<A, n>, A, n, n>::run, &Seq<efp::Vcq<A, n>, A, d, n>::run, &Seq<efp::ArrayView<A, n>, A, n, n>::run, &Seq<efp::ArrayView<const A, n>, const A, n, n>::run,
        &Seq<efp::ArrVecView<A, n>, A, d, n>::run, &Seq<efp::ArrVecView<const A, n>, const A, d, n>::run, &Seq<efp::VectorView<A>, A, d, d>::run, &Seq<efp::VectorView<const A>, const A, d, d>::run,
        &Seq<std::array<A, n>, A, n, n>::run, &Seq<std::vector<A>, A, d, d>::run, &Seq<ext::Fixed<A, n>, A, n, n>::run, &Seq<ext::Bounded<A, n>, A, d, n>::run, &Seq<ext::Dynamic<A>, A, d, d>::run,
    };
    int k = choose(int(sizeof ps / sizeof *ps));
    ps[k]();
    outcome(uint64_t(k));
}
template<typename Ch>
static void strings() {
    const size_t d = efp::dyn;
    Seq<efp::BasicString<Ch>, Ch, d, d>::run();
    Seq<std::basic_string<Ch>, Ch, d, d>::run();
}

static void setup() {
#if !defined PART || PART == 1
    add_choice("transformations", Each<Transform, AllTypes>::run, 1);
    add_choice("pairs", Each<Pairs, Some>::run, 1);
    add_choice("default-construction", Each<DefaultCt, DefTypes>::run, 1);
#endif
#if !defined PART || PART == 2
    add_choice("calls", Each<Call, Fns>::run, 1);
#endif
#if !defined PART || PART == 3
    add_choice("call-operators", call_operators, 1);
    add_choice("signatures", Each<Sigs, L<void, int, X&, const X&, std::unique_ptr<int>>>::run, 1);
    add_choice("no-signature", Each<Unsigned, L<int, X, TwoCalls, Generic0, GenFn, BothFn, void*, efp::Unit, int*, std::string>>::run, 1);
#endif
#if !defined PART || PART == 4
    add_choice("pack/1", packs<1>, 1);
    add_choice("pack/2", packs<2>, 1);
    add_choice("pack/3", packs<3>, 1);
    add_choice("pack/4", packs<4>, 1);
    add_choice("pack/5", packs<5>, 1);
    add_choice("pack/8", packs<8>, 1);
    add_choice("pack/9", packs<9>, 1);
    add_choice("pack/16", packs<16>, 1);
    add_choice("pack/33", packs<33>, 1);
    add_choice("bits/1", bits<1>, 1);
    add_choice("bits/2", bits<2>, 1);
    add_choice("bits/3", bits<3>, 1);
    add_choice("bits/4", bits<4>, 1);
    add_choice("bits/5", bits<5>, 1);
    add_choice("constants/int", Consts<int, -3, -1, 0, 1, 2, 7, 100>::run, 1);
    add_choice("constants/size", Consts<size_t, 0, 1, 2, 3, 9, 4294967296ul>::run, 1);
    add_choice("constants/long", Consts<long long, -2147483649ll, -1, 0, 1, 3, 2147483648ll>::run, 1);
    add_choice("constants/unsigned", Consts<unsigned, 0, 1, 5, 4294967295u>::run, 1);
    add_choice("forwarding", forwarding, 1);
    add_choice("traits/int1", seqs<int, 1>, 1);
    add_choice("traits/int3", seqs<int, 3>, 1);
    add_choice("traits/string2", seqs<std::string, 2>, 1);
    add_choice("traits/nested4", seqs<efp::Vector<int>, 4>, 1);
    add_choice("traits/char", strings<char>, 1);
    add_choice("traits/char32", strings<char32_t>, 1);
#endif
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
