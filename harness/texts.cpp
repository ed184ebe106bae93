// texts <ex|rnd> <seed> <start> <count> <out>
#include "common.hpp"
#include <kl/range.hpp>
#include <kl/split.hpp>
#include <kl/stream_join.hpp>
#include <kl/zip.hpp>
using hv::rng; using std::string; using std::vector;
static const char* tf(bool b) { return b ? "true" : "false"; }
static string out;
static void add(const string& s) { out += (out.empty() ? "{" : ",{") + s + "}"; }
static string strs(const vector<string>& v) { string o = "["; for (auto& s : v) o += (o.size() > 1 ? "," : "") + hv::jbytes(s); return o + "]"; }
template <class C> string ints(const C& v) { string o = "["; for (auto x : v) o += (o.size() > 1 ? "," : "") + std::to_string(x); return o + "]"; }
static void split(const string& t, const string& d, bool skip, int how)
{
    vector<string> v;
    string eff = d;
    switch (how)
    {
    case 0: v = kl::split(t, d, skip); break;
    case 1: v = kl::split(std::string_view{t}, d, skip); break;
    case 2: v = kl::split(vector<char>(t.begin(), t.end()), vector<char>(d.begin(), d.end()), skip); break;
    case 3: v = skip ? kl::split(t, ",") : kl::split(t, ",", false); eff = string(",\0", 2); break;      // a literal brings its terminator along
    case 4: v = kl::split(std::list<char>(t.begin(), t.end()), std::list<char>(d.begin(), d.end()), skip); break;
    default:
    {
        kl::for_each_token(t.begin(), t.end(), d.begin(), d.end(), [&](auto a, auto b) { v.emplace_back(a, b); });
        add("\"o\":\"tok\",\"t\":" + hv::jbytes(t) + ",\"d\":" + hv::jbytes(eff) + ",\"out\":" + strs(v));
        return;
    }
    }
    add("\"o\":\"split\",\"t\":" + hv::jbytes(t) + ",\"d\":" + hv::jbytes(eff) + ",\"skip\":" + tf(skip) + ",\"out\":" + strs(v));
}
static string nth(unsigned long k, const string& alpha)
{
    unsigned long b = alpha.size(), len = 0, cnt = 1;
    while (k >= cnt) { k -= cnt; cnt *= b; ++len; }
    string s(len, 0);
    for (auto i = len; i-- > 0; k /= b) s[i] = alpha[k % b];
    return s;
}
static vector<int> nums(rng& r) { vector<int> v; for (int n = r.below(6); n > 0; --n) v.push_back(r.below(50)); v.shrink_to_fit(); return v; }
static void join(rng& r)
{
    vector<string> xs;
    for (int n = r.below(6); n > 0; --n) xs.push_back(string(std::size_t(r.below(3)), char('a' + r.below(3))));
    static const char* dels[] = {", ", ",", "", "--", ";"};
    const char* d = dels[r.below(5)];
    const char* em = r.chance(50) ? "." : "none";
    std::ostringstream os;
    string pre = r.chance(30) ? "x=" : "";
    os << pre;
    bool defd = string(d) == ", ", defe = string(em) == ".";
    std::list<string> lst(xs.begin(), xs.end());
    std::set<string> st(xs.begin(), xs.end());
    int how = r.below(3);
    auto go = [&](auto& c) { auto j = kl::stream_join(c); if (!defd || r.chance(30)) j.set_delimiter(d); if (!defe || r.chance(30)) j.set_empty_string(em); os << j; };
    if (how == 0) go(xs); else if (how == 1) go(lst); else { xs.assign(st.begin(), st.end()); go(st); }
    add("\"o\":\"join\",\"xs\":" + strs(xs) + ",\"del\":" + hv::jbytes(d) + ",\"emp\":" + hv::jbytes(em) + ",\"pre\":" + hv::jbytes(pre) + ",\"out\":" + hv::jbytes(os.str()));
    std::ostringstream o2;
    if (how == 0) std::copy(xs.begin(), xs.end(), kl::make_outstream_joiner(o2, d));
    else if (how == 1) { string ds = d; auto it = kl::make_outstream_joiner(o2, ds); for (auto& x : xs) *it++ = x; }
    else { auto it = kl::make_outstream_joiner(o2, string(d)); for (auto& x : xs) { auto cp = it; *cp = x; it = cp; ++it; } }
    add("\"o\":\"ojoin\",\"xs\":" + strs(xs) + ",\"del\":" + hv::jbytes(d) + ",\"out\":" + hv::jbytes(o2.str()));
}
static void zip(rng& r)
{
    auto a = nums(r), b = nums(r), c = nums(r);
    auto a0 = a;
    string o, src;
    auto row = [&](std::initializer_list<long> l) { o += o.empty() ? "[" : ",["; bool f = true; for (auto x : l) { o += (f ? "" : ",") + std::to_string(x); f = false; } o += "]"; };
    switch (r.below(7))
    {
    case 0: for (auto t : kl::zipped(a, b)) { row({std::get<0>(t), std::get<1>(t)}); std::get<0>(t) += 100; } src = ints(a0) + "," + ints(b); break;
    case 1: { const auto& cb = b; for (auto&& [x, y, z] : kl::zipped(a, cb, c)) { row({x, y, z}); x += 100; } src = ints(a0) + "," + ints(b) + "," + ints(c); break; }
    case 2: { std::list<int> lb(b.begin(), b.end()); for (auto [x, y] : kl::zipped(a, lb)) { row({x, y}); x += 100; } src = ints(a0) + "," + ints(b); break; }
    case 3: { int arr[3] = {7, 8, 9}; for (auto&& [x, y] : kl::zipped(a, arr)) { row({x, y}); x += 100; } src = ints(a0) + ",[7,8,9]"; break; }
    case 4: { kl::iota_range<int> io{5, 5 + int(b.size())}; for (auto&& [x, y] : kl::zipped(a, io)) { row({x, y}); x += 100; } vector<int> w; for (int k = 0; k < int(b.size()); ++k) w.push_back(5 + k); src = ints(a0) + "," + ints(w); break; }
    case 5: { for (auto&& [x] : kl::zipped(a)) { row({x}); x += 100; } src = ints(a0); break; }
    default:
    {
        for (auto&& [i, x] : kl::enumerated(a)) { row({long(i), x}); x += 100; }
        add("\"o\":\"enum\",\"x\":" + ints(a0) + ",\"out\":[" + o + "],\"first\":" + ints(a));
        return;
    }
    }
    add("\"o\":\"zip\",\"xs\":[" + src + "],\"out\":[" + o + "],\"first\":" + ints(a));
}
static void misc(rng& r)
{
    auto a = nums(r);
    if (r.chance(50))
    {
        int lo = r.below(9) - 4, hi = lo + r.below(6);
        vector<int> v;
        for (auto x : kl::iota_range<int>{lo, hi}) { v.push_back(x); if (v.size() > 20) break; }
        add("\"o\":\"iota\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"out\":" + ints(v));
        return;
    }
    vector<int> v;
    std::size_t n = 0;
    const auto& ca = a;
    std::list<int> l(a.begin(), a.end());
    switch (r.below(4))
    {
    case 0: { kl::range g{a.begin(), a.end()}; n = g.size(); for (auto x : g) v.push_back(x); break; }
    case 1: { kl::range g{ca}; n = g.size(); for (auto x : g) v.push_back(x); break; }
    case 2: { kl::range g{l}; n = g.size(); for (auto x : g) v.push_back(x); break; }
    default: { int arr[4] = {1, 2, 3, 4}; a.assign(arr, arr + 4); kl::range g{arr}; n = g.size(); for (auto x : g) v.push_back(x); }
    }
    add("\"o\":\"range\",\"x\":" + ints(a) + ",\"n\":" + std::to_string(n) + ",\"out\":" + ints(v));
}
int main(int argc, char** argv)
{
    string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), cnt = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + fam[0]);
        out.clear();
        if (fam == "ex")
            for (unsigned long k = 0; k < 32; ++k) { string t = nth(32ul * (unsigned long)q + k, "a,;b"); split(t, ",;", k & 1, r.below(6)); split(t, k % 3 ? "," : "", !(k & 1), r.below(6)); }
        else
            for (int k = 0; k < 20; ++k)
            {
                int c = r.below(10);
                if (c < 3) { string t, d; for (int n = r.below(20); n > 0; --n) t += r.chance(70) ? ",; a"[r.below(5)] : char(r.next()); for (int n = r.below(4); n > 0; --n) d += r.chance(70) ? ",; "[r.below(3)] : char(r.next()); split(t, d, r.chance(50), r.below(6)); }
                else if (c < 5) join(r);
                else if (c < 8) zip(r);
                else misc(r);
            }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
