// enums <seed> <start> <count> <out>: line k takes the operand pairs 64k.. of all 65536 (in a scrambled order)
#include "common.hpp"
#include <kl/enum_set.hpp>
#include <kl/enum_range.hpp>
#include <kl/enum_traits.hpp>
#include <kl/enum_reflector.hpp>
using hv::rng; using std::string;
static const char* tf(bool b) { return b ? "true" : "false"; }
enum class u8 : std::uint8_t {};
enum class s8 : std::int8_t {};
enum class m8 : std::uint8_t {};
enum class ms8 : std::int8_t {};
enum class e1 { rgb = 2, last = 8 };
enum class e2 { a, b, c, max };
enum class e3 : std::int8_t { lo = -3, hi = 4 };
enum e4 : std::uint8_t { e4_lo = 250, e4_hi = 255 };
enum class e5 : std::uint32_t { lo = 3, hi = 9 };
enum class e6 : std::int64_t { lo = -5, hi = 3 };
enum e7 : short { e7_only = 7, e7_end };
enum class n1 { A, B, C }; KL_REFLECT_ENUM(n1, A, (B, bb), C)
enum class n2 { one = 1, five = 5, nine = 9 }; KL_REFLECT_ENUM(n2, one, five, nine)
enum class n3 { z, t = 3, d = 2 }; KL_REFLECT_ENUM(n3, z, t, d)
enum class n4 : std::uint8_t { a, b, c, d }; KL_REFLECT_ENUM(n4, a, c, b, (d, dd))
enum class n5 : std::int8_t { neg = -1, zero, pos }; KL_REFLECT_ENUM(n5, neg, zero, pos)
enum n6 : int { only }; KL_REFLECT_ENUM(n6, only)
enum class n7 { p, q, r = 1, s = 3 }; KL_REFLECT_ENUM(n7, p, q, r, s)
enum class n8 : std::int16_t { k0, k1, k2, k3, k4, k5 }; KL_REFLECT_ENUM_SEQ(n8, (k0)(k1)(k2)(k3)(k4)(k5))
enum class n9 : std::uint8_t { lo = 0, mid = 100, hi = 200 }; KL_REFLECT_ENUM(n9, hi, mid, lo)
namespace kl {
template <> struct enum_traits<m8> : enum_trait_support_bitmask, enum_trait_support_bitshift, enum_trait_support_indexing { static constexpr bool does_index = true, enable_bitmask = true, enable_bitshift = true, support_range = false; };
template <> struct enum_traits<ms8> : enum_trait_support_bitmask {};
template <> struct enum_traits<e1> : enum_trait_support_range<e1, e1::rgb, e1::last, false> {};
template <> struct enum_traits<e2> : enum_trait_support_range<e2, e2::a, e2::max> {};
template <> struct enum_traits<e3> : enum_trait_support_range<e3, e3::lo, e3::hi, false> {};
template <> struct enum_traits<e4> : enum_trait_support_range<e4, e4_lo, e4_hi> {};
template <> struct enum_traits<e5> : enum_trait_support_range<e5, e5::lo, e5::hi, false> {};
template <> struct enum_traits<e6> : enum_trait_support_range<e6, e6::lo, e6::hi> {};
template <> struct enum_traits<e7> : enum_trait_support_range<e7, e7_only, e7_end> {};
}
static string out;
static void add(const string& s) { out += (out.empty() ? "{" : ",{") + s + "}"; }
static string I(const char* n, long v) { return string(",\"") + n + "\":" + std::to_string(v); }
static string B(const char* n, bool v) { return string(",\"") + n + "\":" + tf(v); }
template <class E> int N(E e) { return int((unsigned char)kl::underlying_cast(e)); }
template <class E> void sets(rng& r, int a, int b, const char* w)
{
    using S = kl::enum_set<E>;
    E ea = E(a), eb = E(b);
    S x{ea}, y{eb}, t;
    const S e;
    int v = r.below(4);
    auto op = [&](auto f, auto g) { S o; switch (v) { case 0: o = f(x, y); break; case 1: o = f(x, eb); break; case 2: o = f(ea, y); break; default: o = x; if (r.chance(50)) g(o, y); else g(o, eb); } return N(o.value()); };
    string s = string("\"o\":\"set\",\"w\":\"") + w + "\"" + I("a", a) + I("b", b);
    s += I("and", op([](auto p, auto q) { return p & q; }, [](auto& p, auto q) { p &= q; }));
    s += I("or", op([](auto p, auto q) { return p | q; }, [](auto& p, auto q) { p |= q; }));
    s += I("xor", op([](auto p, auto q) { return p ^ q; }, [](auto& p, auto q) { p ^= q; }));
    s += I("not", int((unsigned char)(~x).underlying_value()));
    s += B("any", v & 1 ? x.has_any(y) : x.has_any(eb)) + B("all", v & 1 ? x.has_all(y) : x.has_all(eb)) + B("test", x.test(eb));
    s += B("eq", v == 0 ? x == y : v == 1 ? x == eb : ea == y) + B("ne", v == 0 ? x != y : v == 1 ? x != eb : ea != y) + B("lt", v == 0 ? x < y : v == 1 ? x < eb : ea < y);
    s += B("bool", bool(x) && bool(x) != (x == e));
    (void)t;
    add(s);
}
static void mask(rng& r, int a, int b)
{
    m8 x = m8(a), y = m8(b);
    bool q = r.chance(50);
    int n = r.below(9);
    auto inc = x, pi = x, an = x, o = x, xo = x, sl = x, sr = x;
    an &= y; o |= y; xo ^= y; sl <<= n; sr >>= n;
    ++inc;
    m8 old = pi++;
    string s = "\"o\":\"mask\"" + I("a", a) + I("b", b) + I("n", n);
    s += I("and", N(q ? x & y : an)) + I("or", N(q ? x | y : o)) + I("xor", N(q ? x ^ y : xo)) + I("not", N(~x)) + B("chk", check_mask(x, y));
    s += I("shl", N(q ? x << n : sl)) + I("shr", N(q ? x >> n : sr)) + I("plus", old == x ? long(+x) : -1) + I("inc", N(q ? inc : pi));
    add(s);
}
static void smask(rng& r, int a, int b)
{
    ms8 x = ms8(a), y = ms8(b);
    bool q = r.chance(50);
    auto an = x, o = x, xo = x;
    an &= y; o |= y; xo ^= y;
    add("\"o\":\"smask\"" + I("a", a) + I("b", b) + I("and", N(q ? x & y : an)) + I("or", N(q ? x | y : o)) + I("xor", N(q ? x ^ y : xo)) + I("not", N(~x)) + B("chk", check_mask(x, y)));
}
template <class E> long D(kl::enum_iterator<E> it) { return long(kl::underlying_cast(*it)); }
template <class E> void ranges(rng& r, const char* name)
{
    using T = kl::enum_traits<E>; using It = kl::enum_iterator<E>;
    kl::enum_range<E> rg;
    auto list = [](auto&& v) { string s = "["; for (std::size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + std::to_string(v[k]); return s + "]"; };
    std::vector<long> f, bk, each;
    for (auto e : rg) { f.push_back(long(kl::underlying_cast(e))); if (f.size() > 400) break; }
    for (auto it = rg.end(); it != rg.begin() && bk.size() < 400;) { --it; bk.push_back(D<E>(it)); }
    kl::for_each_enum(T::min(), T::max(), [&](E e) { if (each.size() < 400) each.push_back(long(kl::underlying_cast(e))); });
    string inr;
    auto chk = [&](long v, bool res) { inr += (inr.empty() ? "[" : ",[") + std::to_string(v) + "," + tf(res) + "]"; };
    for (long v = -20; v <= 20; ++v)
    {
        long w = v + (T::min_value() > 100 ? 250 : 0);
        chk(w, T::in_range(int(w)));
        chk(w, T::in_range(std::int64_t(w)));
        if (long(std::underlying_type_t<E>(w)) == w) chk(w, T::in_range(E(w)));
        if (w >= 0) { chk(w, T::in_range(unsigned(w))); chk(w, T::in_range(std::size_t(w))); }
        if (w >= -128 && w <= 127) chk(w, T::in_range(std::int8_t(w)));
        if (w >= 0 && w <= 255) chk(w, T::in_range(std::uint8_t(w)));
    }
    for (long long big : {(long long)INT64_MAX, (long long)INT64_MIN, 4294967296LL + 3, -4294967296LL + 3, 258LL + 255}) chk(big > 0 ? 1000000 : -1000000, T::in_range(big));
    chk(1000000, T::in_range(UINT64_MAX)); chk(1000000, T::in_range(UINT32_MAX));
    add(string("\"o\":\"rng\",\"E\":\"") + name + "\",\"vals\":" + list(f) + ",\"back\":" + list(bk) + ",\"each\":" + list(each) + I("cnt", long(T::count())) + I("min", long(kl::underlying_cast(T::min()))) + I("max", long(kl::underlying_cast(T::max())))
        + I("dist", std::distance(rg.begin(), rg.end())) + ",\"inr\":[" + inr + "]");
    long lo = long(T::min_value()), hi = long(T::max_value());
    for (int k = 0; k < 6; ++k)
    {
        long p = lo + r.below(int(hi - lo + 1)), q = lo + r.below(int(hi - lo + 1));
        bool inner = p > lo && p < hi;
        if (!inner) p = lo + (hi - lo) / 2;
        if (p == lo && std::is_unsigned_v<std::underlying_type_t<E>> && lo == 0) continue;
        It x{E(p)}, y{E(q)};
        long n = lo - p + r.below(int(hi - lo + 1));
        if (p - n > 255 && hi == 255) n = p - 255;
        if (p - n < -100 || (p - n < 0 && lo >= 0)) n = 0;
        auto two = [&](const char* nm, long a, long b) { return string(",\"") + nm + "\":[" + std::to_string(a) + "," + std::to_string(b) + "]"; };
        string s = string("\"o\":\"it\"") + I("p", p) + I("q", q) + I("n", n) + I("d", x - y) + I("rd", y - x);
        s += B("lt", x < y) + B("gt", x > y) + B("le", x <= y) + B("ge", x >= y) + B("eq", x == y) + B("ne", x != y);
        s += I("at", D<E>(x)) + I("add", D<E>(x + n)) + I("radd", D<E>(n + x)) + I("idx", long(kl::underlying_cast(x[n]))) + I("sub", D<E>(x - n));
        It a = x, b = x;
        a += n; b -= n;
        s += I("addeq", D<E>(a)) + I("subeq", D<E>(b));
        It c = x, d = x, e = x, f2 = x;
        It c2 = ++c, d2 = d++, e2_ = --e, f3 = f2--;
        s += two("pre", D<E>(c2), D<E>(c)) + two("post", D<E>(d2), D<E>(d)) + two("pred", D<E>(e2_), D<E>(e)) + two("postd", D<E>(f3), D<E>(f2));
        add(s);
    }
}
template <class E> void names(rng& r, const char* name)
{
    using R = kl::enum_reflector<E>;
    auto vals = R::values();
    string v, ts, fs;
    bool same = true; std::size_t cnt = 0;
    auto cv = R::constexpr_values();
    for (auto e : vals) { v += (v.empty() ? "" : ",") + std::to_string(long(kl::underlying_cast(e))); same = same && cnt < cv.size() && cv[cnt] == e; ++cnt; }
    same = same && cnt == R::count() && vals.size() == cnt;
    for (long k = -8; k <= 260; k += (k < 12 || (k > 95 && k < 105) || (k > 195 && k < 205)) ? 1 : 7)
    {
        if (long(std::underlying_type_t<E>(k)) != k) continue;
        bool q = r.chance(50);
        ts += (ts.empty() ? "[" : ",[") + std::to_string(k) + "," + hv::jstr(R::to_string(E(k), "zz")) + "," + hv::jstr(q ? kl::to_string(E(k)) : kl::reflect_enum<E>().to_string(E(k))) + "]";
    }
    std::vector<string> cand = {"", "A", "B", "bb", "C", "one", "five", "nine", "z", "t", "d", "a", "b", "c", "dd", "neg", "zero", "pos", "only", "p", "q", "r", "s", "k0", "k1", "k2", "k3", "k4", "k5", "hi", "mid", "lo", "zz", "unknown", "aa", "ONE", "fiv", "fivee", "k", "0", "A "};
    for (auto& s : cand)
    {
        std::unique_ptr<char[]> x(new char[s.size()]);
        std::memcpy(x.get(), s.data(), s.size());
        std::string_view sv{x.get(), s.size()};
        auto o = r.chance(50) ? R::from_string(sv) : kl::from_string<E>(sv);
        fs += (fs.empty() ? "[" : ",[") + hv::jstr(s) + "," + (o ? "[" + std::to_string(long(kl::underlying_cast(*o))) + "]" : string("[]")) + "]";
    }
    add(string("\"o\":\"name\",\"E\":\"") + name + "\",\"def\":\"zz\",\"vals\":[" + v + "]" + I("cnt", same ? long(cnt) : -1) + ",\"ts\":[" + ts + "],\"fs\":[" + fs + "]");
}
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7);
        out.clear();
        for (unsigned k = 0; k < 64; ++k)
        {
            unsigned z = ((64u * unsigned(q) + k) * 40503u + unsigned(seed)) & 65535u;
            int a = int(z & 255), b = int(z >> 8);
            if (k % 3 == 0) sets<s8>(r, a, b, "s"); else sets<u8>(r, a, b, "u");
            if (k % 2) mask(r, a, b); else if (k % 4 == 0) smask(r, a, b);
        }
        switch (q % 7) { case 0: ranges<e1>(r, "e1"); break; case 1: ranges<e2>(r, "e2"); break; case 2: ranges<e3>(r, "e3"); break; case 3: ranges<e4>(r, "e4"); break; case 4: ranges<e5>(r, "e5"); break; case 5: ranges<e6>(r, "e6"); break; default: ranges<e7>(r, "e7"); }
        switch (q % 9) { case 0: names<n1>(r, "n1"); break; case 1: names<n2>(r, "n2"); break; case 2: names<n3>(r, "n3"); break; case 3: names<n4>(r, "n4"); break; case 4: names<n5>(r, "n5"); break; case 5: names<n6>(r, "n6"); break; case 6: names<n7>(r, "n7"); break; case 7: names<n8>(r, "n8"); break; default: names<n9>(r, "n9"); }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
