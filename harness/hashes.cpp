// hashes <seed> <start> <count> <out>
#include "common.hpp"
#include <kl/hash.hpp>
using hv::rng; using std::string;
static string out;
static void add(const string& s) { out += (out.empty() ? "{" : ",{") + s + "}"; }
static string word(std::uint32_t h) { return "[" + std::to_string(h >> 16) + "," + std::to_string(h & 0xffff) + "]"; }
static void ev(const char* o, const char* how, const string& in, std::uint32_t h)
{
    add(string("\"o\":\"") + o + "\",\"how\":\"" + how + "\",\"in\":" + hv::jbytes(in) + ",\"h\":" + word(h));
}
using namespace kl::hash::operators;
#define LITS(X) X("") X("a") X("b") X("ab") X("abc") X("abcd") X("foobar") X("\xff") X("\x80\x7f") X("\x80\x81\x82\x83\x84") X("a\0b") X("\0") X("\xff\xff\xff") \
    X("\x01\x02\xf3\x04\xf5\x06\xf7\x08\xf9\x0a\xfb") X("The quick brown fox jumps over the lazy dog") X("QWEASDZXC") X("\xe2\x82\xac") X("chongo was here!\n")
struct lit { const char* s; std::size_t n; std::uint32_t arr, op, ptr, hs; };
#define X(s) lit{s, sizeof(s) - 1, kl::hash::fnv1a(s), s##_h, kl::hash::fnv1a(s, sizeof(s) - 1), kl::hash::hsieh(s, sizeof(s) - 1)},
static constexpr lit lits[] = {LITS(X)};     // all evaluated by the compiler
#undef X
template <std::size_t N> void arr(const string& t)
{
    if (t.size() != N) return;
    std::unique_ptr<char[]> keep(new char[N + 1]);
    auto& a = *reinterpret_cast<char(*)[N + 1]>(keep.get());
    std::copy(t.begin(), t.end(), a);
    a[N] = 0;
    ev("fnv", "array", t, kl::hash::fnv1a(a));
    a[N] = 'x';
    bool threw = false;
    try { kl::hash::fnv1a(a); } catch (const std::logic_error&) { threw = true; }
    add("\"o\":\"nonul\",\"threw\":" + string(threw ? "true" : "false"));
}
static void one(const string& t)
{
    std::unique_ptr<char[]> buf(new char[t.size()]);   // exact size: a stray read is seen by the sanitizer
    std::copy(t.begin(), t.end(), buf.get());
    ev("fnv", "ptr", t, kl::hash::fnv1a(buf.get(), t.size()));
    ev("fnv", "string", t, kl::hash::fnv1a(t));
    ev("hsieh", "ptr", t, kl::hash::hsieh(buf.get(), t.size()));
    arr<1>(t); arr<2>(t); arr<3>(t); arr<4>(t); arr<5>(t); arr<8>(t); arr<13>(t);
}
static void sw(const string& t)
{
    int hit = 0;
    switch (kl::hash::fnv1a(t))
    {
    case "on"_h: hit = 1; break;
    case "off"_h: hit = 2; break;
    case ""_h: hit = 3; break;
    case "\xc3\xbc"_h: hit = 4; break;
    }
    add("\"o\":\"switch\",\"in\":" + hv::jbytes(t) + ",\"cases\":[[111,110],[111,102,102],[],[195,188]],\"hit\":" + std::to_string(hit));
}
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + 5);
        out.clear();
        if (q == 0)
        {
            for (auto& l : lits) { string t(l.s, l.n); ev("fnv", "constexpr", t, l.arr); ev("fnv", "literal", t, l.op); ev("fnv", "constexpr", t, l.ptr); ev("hsieh", "constexpr", t, l.hs); one(t); }
            ev("hsieh", "null", "", kl::hash::hsieh(nullptr, 0));
            for (auto t : {"on", "off", "", "\xc3\xbc", "o", "ON", "offf", "\xc3"}) sw(t);
        }
        else if (q == 9)
        {   // longer than 16 bits can count
            string t;
            for (int j = 0, n = 65536 + 1 + r.below(900); j < n; ++j) t += char(r.next());
            ev("fnv", "ptr", t, kl::hash::fnv1a(t.data(), t.size()));
            ev("hsieh", "ptr", t, kl::hash::hsieh(t.data(), t.size()));
        }
        else if (q <= 8) for (int b = 0; b < 32; ++b) { char c = char((q - 1) * 32 + b); one(string(1, c)); one(string("ab") + c); one(string("abcd") + c); one(string(1, c) + "b"); one(string("ab") + c + "d"); one(string("abcd") + c + c + c); }
        else
            for (int k = 0; k < 16; ++k)
            {
                string t;
                int n = r.chance(70) ? r.below(20) : r.below(90), m = r.below(3);
                for (int j = 0; j < n; ++j) t += m == 0 ? char(r.next()) : m == 1 ? "\x7f\x80\xff\x00"[r.below(4)] : char('a' + r.below(26));
                one(t);
            }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
