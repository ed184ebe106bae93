// iters <seed> <start> <count> <out>: histories of iterators built with kl::iterator_facade
#include "common.hpp"
#include <kl/iterator_facade.hpp>
#include <algorithm>
#include <array>
using hv::rng; using std::string;

struct Pt { int x, y; };
static bool operator==(const Pt& a, const Pt& b) { return a.x == b.x && a.y == b.y; }
static const char* tf(bool b) { return b ? "true" : "false"; }
static string S(long v) { return std::to_string(v); }
// the four kinds of implementation; each remembers its position in a shared store
template <typename Ref, typename Cat> class It : public kl::iterator_facade<It<Ref, Cat>, Ref, Cat>
{
    friend class kl::iterator_facade<It, Ref, Cat>;
public:
    std::vector<Pt>* c = nullptr;
    long k = 0;
    int junk[3] = {1, 2, 3};
    It() = default;
    It(std::vector<Pt>& v, long p) : c(&v), k(p) {}
    Ref dereference() const { return (*c)[std::size_t(k)]; }
    void increment() { ++k; }
    void decrement() { --k; }
    void advance(std::ptrdiff_t n) { k += n; }
    bool equal_to(const It& o) const { return k == o.k; }
    std::ptrdiff_t distance_to(const It& o) const { return k - o.k; }
};
static string O;
static void ev(const string& s) { O += (O.empty() ? "{" : ",{") + s + "}"; }
template <typename I> string poss(const std::array<I, 3>& p) { return ",\"p\":[" + S(p[0].k) + "," + S(p[1].k) + "," + S(p[2].k) + "]"; }
static string store(const std::vector<Pt>& v) { string o = ",\"v\":["; for (auto& e : v) o += (o.back() != '[' ? "," : "") + (e.y == e.x + 1 ? S(e.x) : S(-1)); return o + "]"; }

template <typename I> void run(rng& r, const char* kind)
{
    using Cat = typename I::iterator_category;
    using Ref = typename I::reference;
    constexpr bool ra = std::is_convertible_v<Cat, std::random_access_iterator_tag>;
    constexpr bool bi = std::is_convertible_v<Cat, std::bidirectional_iterator_tag>;
    constexpr bool lv = std::is_lvalue_reference_v<Ref>;
    constexpr bool wr = lv && !std::is_const_v<std::remove_reference_t<Ref>>;
    std::vector<Pt> v;
    long n = r.below(9);
    for (long k = 0; k < n; ++k) { int x = r.below(50); v.push_back({x, x + 1}); }
    std::array<I, 3> p{I{v, 0}, I{v, r.below(int(n) + 1)}, I{v, n}};
    ev(string("\"o\":\"init\",\"kind\":\"") + kind + "\"" + poss(p) + store(v));
    for (int q = 0; q < 24; ++q)
    {
        int ai = r.below(3), bj = r.below(3);
        I &a = p[std::size_t(ai)], &b = p[std::size_t(bj)];
        string who = ",\"a\":" + S(ai + 1) + ",\"b\":" + S(bj + 1);
        auto fin = [&](const string& op, const string& rest) { ev("\"o\":\"" + op + "\"" + who + rest + poss(p) + store(v)); };
        switch (r.below(bi ? (ra ? 16 : 9) : 6))
        {
        case 0: if (a.k < n) { I& x = ++a; fin("preinc", string(",\"self\":") + tf(&x == &a)); } break;
        case 1: if (a.k < n) { I x = a++; fin("postinc", ",\"r\":" + S(x.k)); } break;
        case 2: fin("eq", string(",\"eq\":") + tf(a == b) + ",\"ne\":" + tf(a != b)); break;
        case 3: if (a.k < n)
            {
                Pt d = *a;
                const I& ca = a;
                auto ar = ca.operator->();
                int ax = a->x, ay = ca->y;
                bool same = true;
                if constexpr (lv) same = &*a == &v[std::size_t(a.k)] && ar == &v[std::size_t(a.k)];
                else { ar->x += 1; same = (*a).x == v[std::size_t(a.k)].x; }
                fin("deref", ",\"r\":[" + S(d.x) + "," + S(d.y) + "," + S(ax) + "," + S(ay) + "],\"self\":" + tf(same));
            } break;
        case 4: if constexpr (wr) if (a.k < n) { int x = r.below(50); *a = Pt{x, x + 1}; fin("write", ",\"x\":" + S(x)); } break;
        case 5: { I c{a}; I d; d = std::move(c); b = d; fin("assign", ""); } break;
        case 6: if constexpr (bi) if (a.k > 0) { I& x = --a; fin("predec", string(",\"self\":") + tf(&x == &a)); } break;
        case 7: if constexpr (bi) if (a.k > 0) { I x = a--; fin("postdec", ",\"r\":" + S(x.k)); } break;
        case 8: if constexpr (bi) { auto f = std::find(I{v, 0}, I{v, n}, v.empty() ? Pt{0, 0} : v.back()); fin("find", ",\"r\":" + S(f.k) + ",\"d\":" + S(std::distance(I{v, 0}, f))); } break;
        case 9: if constexpr (ra) { long t = r.below(int(n) + 1) - a.k; I& x = a += t; fin("addeq", ",\"n\":" + S(t) + ",\"self\":" + tf(&x == &a)); } break;
        case 10: if constexpr (ra) { long t = a.k - r.below(int(n) + 1); I& x = a -= t; fin("subeq", ",\"n\":" + S(t) + ",\"self\":" + tf(&x == &a)); } break;
        case 11: if constexpr (ra) { long t = r.below(int(n) + 1) - a.k; I x = a + t, y = t + a, z = a - (-t); fin("plus", ",\"n\":" + S(t) + ",\"r\":[" + S(x.k) + "," + S(y.k) + "," + S(z.k) + "]"); } break;
        case 12: case 13: if constexpr (ra) fin("cmp", ",\"d\":" + S(a - b) + ",\"r\":[" + tf(a < b) + "," + tf(a > b) + "," + tf(a <= b) + "," + tf(a >= b) + "]"); break;
        case 14: if constexpr (ra) if (n > 0) { long t = r.below(int(n)) - a.k; Pt d = a[t]; bool same = true; if constexpr (lv) same = &a[t] == &v[std::size_t(a.k + t)]; fin("idx", ",\"n\":" + S(t) + ",\"r\":" + S(d.x) + ",\"self\":" + tf(same)); } break;
        default: if constexpr (ra) { int x = r.below(50); auto f = std::upper_bound(I{v, 0}, I{v, n}, x, [](int t, const Pt& e) { return t < e.x; }); (void)f; if (std::is_sorted(v.begin(), v.end(), [](const Pt& s, const Pt& t) { return s.x < t.x; })) fin("upper", ",\"x\":" + S(x) + ",\"r\":" + S(f.k)); else if constexpr (wr) { std::sort(I{v, 0}, I{v, n}, [](const Pt& s, const Pt& t) { return s.x < t.x; }); fin("sort", ""); } }
        }
    }
}
int main(int, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        rng r(seed * 1000003 + std::uint64_t(q));
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        O.clear();
        switch (r.below(7))
        {
        case 0: case 1: run<It<Pt&, std::random_access_iterator_tag>>(r, "ra"); break;
        case 2: run<It<const Pt&, std::random_access_iterator_tag>>(r, "ra-const"); break;
        case 3: run<It<Pt, std::random_access_iterator_tag>>(r, "ra-value"); break;
        case 4: run<It<Pt&, std::bidirectional_iterator_tag>>(r, "bi"); break;
        case 5: run<It<Pt, std::forward_iterator_tag>>(r, "fwd-value"); break;
        default: run<It<Pt&, std::forward_iterator_tag>>(r, "fwd");
        }
        std::fprintf(f, ",\"ev\":[%s]}\n", O.c_str());
    }
    std::fclose(f);
}
