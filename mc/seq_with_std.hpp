// A program that hands a sequence of the library, S (with S make_s() holding 3 1 4 1 5 9 2 6), to algorithms and
// containers of the standard library; FIXED: its elements cannot be changed, GROWS: it has push_back.
#include <algorithm>
#include <functional>
#include <iterator>
#include <numeric>
#include <set>
#include <string>
#include <vector>
#if __cplusplus >= 202002L
#include <ranges>
#endif
#include <cstdio>

template<typename V>
static long digits(const V& v) {
    long r = 0;
    for (const auto& x : v) r = r * 10 + long(x);
    return r;
}
static void out(const char* what, long got) { std::printf("%s %ld\n", what, got); }
int with_std() {
    typedef typename std::iterator_traits<decltype(std::declval<S&>().begin())>::value_type E;
    { S s = make_s(); out("begin", digits(std::vector<E>(std::begin(s), std::end(s)))); out("distance", long(std::distance(s.begin(), s.end()))); }
    { const S s = make_s(); out("const begin", digits(std::vector<E>(std::begin(s), std::end(s)))); out("count", long(std::count(s.begin(), s.end(), E(1)))); }
    { S s = make_s(); out("accumulate", std::accumulate(s.begin(), s.end(), 0L)); out("find", long(std::find(s.begin(), s.end(), E(9)) - s.begin())); }
    { S s = make_s(), t = make_s(); out("equal", std::equal(s.begin(), s.end(), t.begin())); out("max", long(*std::max_element(s.begin(), s.end()))); }
    { S s = make_s(); std::vector<E> v; std::copy(s.begin(), s.end(), std::back_inserter(v)); v.insert(v.begin(), s.begin(), s.end()); out("copy", digits(v)); std::set<E> q(s.begin(), s.end()); out("set", digits(q)); }
    { S s = make_s(); std::vector<E> v(s.size()); std::partial_sum(s.begin(), s.end(), v.begin()); out("partial_sum", long(v.back())); std::transform(s.begin(), s.end(), v.begin(), [](E e) { return E(e + 1); }); out("transform", digits(v)); }
#if __cplusplus >= 201703L
    { S s = make_s(); out("size", long(std::size(s)) * 10 + long(std::empty(s))); out("data", long(std::data(s)[2])); }
#endif
#if __cplusplus >= 202002L
    { S s = make_s(); out("ranges", long(std::ranges::size(s)) * 100 + long(*std::ranges::begin(s)) * 10 + std::ranges::empty(s)); out("ranges::count", long(std::ranges::count(s, E(1)))); long r = 0; for (E e : s | std::views::reverse) r = r * 10 + long(e); out("views", r); }
#endif
#if !FIXED
    { S s = make_s(); std::sort(s.begin(), s.end()); out("sort", digits(s)); out("search", std::binary_search(s.begin(), s.end(), E(5))); }
    { S s = make_s(); std::reverse(s.begin(), s.end()); out("reverse", digits(s)); std::rotate(s.begin(), s.begin() + 3, s.end()); out("rotate", digits(s)); std::fill(s.begin(), s.begin() + 2, E(7)); std::swap(s[0], s[7]); out("fill", digits(s)); }
    { S s = make_s(), t = make_s(); std::swap(s[0], s[1]); using std::swap; swap(s, t); out("swap", digits(s)); out("swap", digits(t)); std::swap_ranges(s.begin(), s.end(), t.begin()); out("swap_ranges", digits(s)); std::next_permutation(s.begin(), s.end(), std::greater<E>()); out("permutation", digits(s)); std::stable_partition(s.begin(), s.end(), [](E e) { return long(e) % 2 == 0; }); out("partition", digits(s)); }
#if __cplusplus >= 202002L
    { S s = make_s(); std::ranges::sort(s); out("ranges::sort", digits(s)); std::ranges::reverse(s); std::ranges::swap(s[0], s[1]); out("ranges::swap", digits(s)); }
#endif
#endif
#if GROWS
    { S s = make_s(); S t; std::copy(s.begin(), s.end(), std::back_inserter(t)); out("back_inserter", digits(t)); typename S::value_type e = s[1]; typename S::const_iterator i = s.begin(); typename S::size_type n = s.size(); out("types", long(e) * 100 + long(*i) * 10 + long(n)); long r = 0; for (std::reverse_iterator<typename S::iterator> b(t.end()), z(t.begin()); b != z; ++b) r = r * 10 + long(*b); out("reverse_iterator", r); }
#endif
    return 0;
}
