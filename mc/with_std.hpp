// A program that uses values of a type of the library, T (with T make(int i), long key(const T&)), in containers,
// algorithms and wrappers of the standard library, and prints what each of them computes.
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <ranges>
#endif
#include <cstdio>

struct ByKey {
    bool operator()(const T& a, const T& b) const { return key(a) < key(b); }
};
struct SameKey {
    bool operator()(const T& a, const T& b) const { return key(a) == key(b); }
};
static std::vector<T> some() {
    std::vector<T> v;
    const int k[] = {3, 1, 4, 1, 5, 9, 2, 6};
    for (int i : k) v.push_back(make(i));
    return v;
}
template<typename V>
static long digits(const V& v) {
    long r = 0;
    for (const T& x : v) r = r * 10 + key(x);
    return r;
}
static void out(const char* what, long got) { std::printf("%s %ld\n", what, got); }
template<typename A>
static void swaps(const char* what, A a, A b, long (*f)(const A&)) {
    using std::swap;
    swap(a, b);
    out(what, f(a) * 100 + f(b));
    std::swap(a, b);
    out(what, f(a) * 100 + f(b));
}
int with_std() {
    { auto v = some(); std::sort(v.begin(), v.end(), ByKey()); out("sort", digits(v)); }
    { auto v = some(); std::stable_sort(v.begin(), v.end(), ByKey()); out("stable_sort", digits(v)); }
    { auto v = some(); std::make_heap(v.begin(), v.end(), ByKey()); std::sort_heap(v.begin(), v.end(), ByKey()); out("heap", digits(v)); }
    { auto v = some(); std::nth_element(v.begin(), v.begin() + 4, v.end(), ByKey()); out("nth_element", key(v[4])); }
    { auto v = some(); std::partial_sort(v.begin(), v.begin() + 4, v.end(), ByKey()); v.erase(v.begin() + 4, v.end()); out("partial_sort", digits(v)); }
    { auto v = some(); std::reverse(v.begin(), v.end()); out("reverse", digits(v)); }
    { auto v = some(); std::rotate(v.begin(), v.begin() + 3, v.end()); out("rotate", digits(v)); }
    { auto v = some(); std::swap_ranges(v.begin(), v.begin() + 4, v.begin() + 4); out("swap_ranges", digits(v)); }
    { auto v = some(); std::iter_swap(v.begin(), v.begin() + 7); out("iter_swap", digits(v)); }
    { auto v = some(); std::next_permutation(v.begin(), v.end(), ByKey()); out("next_permutation", digits(v)); }
    { auto v = some(); v.erase(std::remove_if(v.begin(), v.end(), [](const T& x) { return key(x) == 1; }), v.end()); out("remove_if", digits(v)); }
    { auto v = some(); std::stable_partition(v.begin(), v.end(), [](const T& x) { return key(x) % 2 == 0; }); out("partition", digits(v)); }
    { auto v = some(); std::inplace_merge(v.begin(), v.begin(), v.end(), ByKey()); v.insert(v.begin() + 1, make(7)); v.erase(v.begin()); v.resize(4, make(2)); out("vector", digits(v)); }
    { auto v = some(); v.emplace_back(v[0]); v.emplace(v.begin(), std::move(v[1])); v.assign(3, make(8)); v.shrink_to_fit(); out("vector", digits(v)); }
    { std::deque<T> v; v.push_back(make(1)); v.push_front(make(2)); v.insert(v.begin() + 1, make(3)); std::sort(v.begin(), v.end(), ByKey()); out("deque", digits(v)); }
    { std::list<T> v; v.push_back(make(3)); v.push_front(make(2)); v.push_back(make(1)); v.sort(ByKey()); v.unique(SameKey()); v.reverse(); out("list", digits(v)); }
    { std::map<T, T, ByKey> m; for (const T& x : some()) { m.insert(std::make_pair(x, x)); m.emplace(x, x); } m.erase(make(4)); long r = 0; for (const auto& p : m) r = r * 10 + key(p.second); out("map", r); }
    { std::map<int, T> m; m.emplace(3, make(3)); m.insert(std::make_pair(1, m.at(3))); m.at(1) = make(5); out("map", key(m.at(1)) * 10 + key(m.at(3))); }
    { std::vector<T> v; auto s = some(); std::copy(s.begin(), s.end(), std::back_inserter(v)); std::vector<T> w(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); out("copy", digits(w)); }
    { auto v = some(); std::vector<T> w(v.size(), make(0)); std::transform(v.begin(), v.end(), w.begin(), [](const T& x) { return make(int(key(x)) % 4); }); out("transform", digits(w)); std::fill(w.begin(), w.end(), v[1]); out("fill", digits(w)); }
    { auto v = some(); out("accumulate", std::accumulate(v.begin(), v.end(), 0L, [](long a, const T& x) { return a + key(x); })); out("max", key(*std::max_element(v.begin(), v.end(), ByKey())) + key(std::min(v[0], v[4], ByKey()))); }
    swaps<T>("swap", make(3), make(4), [](const T& x) { return key(x); });
    swaps<std::pair<int, T>>("swap pairs", std::make_pair(1, make(3)), std::make_pair(2, make(4)), [](const std::pair<int, T>& x) { return x.first * 10 + key(x.second); });
    swaps<std::tuple<T, int>>("swap tuples", std::make_tuple(make(3), 1), std::make_tuple(make(4), 2), [](const std::tuple<T, int>& x) { return std::get<1>(x) * 10 + key(std::get<0>(x)); });
    swaps<std::array<T, 2>>("swap arrays", std::array<T, 2> {{make(1), make(2)}}, std::array<T, 2> {{make(3), make(4)}}, [](const std::array<T, 2>& x) { return digits(x); });
    swaps<std::vector<T>>("swap vectors", std::vector<T>(1, make(5)), std::vector<T>(2, make(6)), [](const std::vector<T>& x) { return digits(x); });
    swaps<std::shared_ptr<T>>("swap pointers", std::make_shared<T>(make(5)), std::make_shared<T>(make(6)), [](const std::shared_ptr<T>& x) { return key(*x); });
    swaps<std::function<T(T)>>("swap functions", [](T x) { return x; }, [](T x) { return make(int(key(x)) + 1); }, [](const std::function<T(T)>& f) { return key(f(make(3))); });
    { std::unique_ptr<T> a(new T(make(3))), b; a.swap(b); std::swap(a, b); a.swap(b); b.swap(a); out("unique_ptr", key(*a) + (b ? 1 : 0)); }
    { std::pair<T, T> p(make(1), make(2)), q(make(3), make(4)); p.swap(q); p = q; q = std::make_pair(make(5), make(6)); T a = make(0), b = make(0); std::tie(a, b) = p; out("pair", key(a) * 1000 + key(b) * 100 + key(q.first) * 10 + key(q.second)); }
    { auto f = std::bind([](const T& a, const T& b) { return key(a) * 10 + key(b); }, std::placeholders::_2, make(5)); out("bind", f(1, make(3))); T r = make(7); std::reference_wrapper<T> w = std::ref(r); w.get() = make(8); out("ref", key(r)); }
#if __cplusplus >= 201402L
    { T a = make(3); T b = std::exchange(a, make(4)); out("exchange", key(a) * 10 + key(b)); }
#endif
#if __cplusplus >= 201703L
    { std::optional<T> a = make(3), b; a.swap(b); b.emplace(make(4)); std::swap(a, b); out("optional", key(*a) + (b ? 1 : 0)); }
    { std::variant<int, T> a = 3, b = make(4); std::swap(a, b); a.swap(b); b = make(5); out("variant", std::get<0>(a) * 10 + std::visit([](const auto& x) { if constexpr (std::is_same<const T&, decltype(x)>::value) return key(x); else return long(x); }, b)); }
    { std::any a = make(6); std::any b = a; a.swap(b); out("any", key(std::any_cast<const T&>(a))); }
    { auto [a, b] = std::make_pair(make(1), make(2)); out("binding", key(a) * 10 + key(b)); out("apply", std::apply([](const T& x, const T& y) { return key(x) * 10 + key(y); }, std::make_tuple(make(3), make(4)))); out("invoke", std::invoke(key, make(2))); }
#endif
#if __cplusplus >= 202002L
    { auto v = some(); std::ranges::sort(v, ByKey()); out("ranges::sort", digits(v)); std::ranges::reverse(v); out("ranges::reverse", digits(v)); std::ranges::swap(v[0], v[1]); out("ranges::swap", digits(v)); std::ranges::rotate(v, v.begin() + 2); out("ranges::rotate", digits(v)); }
    { auto v = some(); long r = 0; for (const T& x : v | std::views::filter([](const T& x) { return key(x) > 2; }) | std::views::take(3)) r = r * 10 + key(x); out("views", r); }
#endif
    return 0;
}
