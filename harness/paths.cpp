// path <ex|rnd> <seed> <start> <count> <out>: uses of kl::path, one line per path object
// ex: line k holds texts 30k.. of the enumeration of all texts over ALPHA, shortest first
#include "common.hpp"
#include <kl/path.hpp>
using hv::rng; using std::string; using std::string_view;

static string by(string_view s) { return hv::jbytes(string(s)); }
static const char* tf(bool b) { return b ? "true" : "false"; }
static const char ALPHA[] = "/.%2Ea";
static string nth(unsigned long k)
{
    const unsigned long b = sizeof(ALPHA) - 1;
    unsigned long len = 0, cnt = 1;
    while (k >= cnt) { k -= cnt; cnt *= b; ++len; }
    string s(len, 0);
    for (auto i = len; i-- > 0; k /= b) s[i] = ALPHA[k % b];
    return s;
}
static string view_dump(rng& r, const kl::path& p)
{
    auto v = p.view();
    int a = 0, b = 0;
    for (int k = r.below(int(p.size()) + 1); k > 0; --k)
        if (r.chance(50)) { v = v.drop_front(); ++a; } else { v = v.drop_back(); ++b; }
    string o = "{\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"n\":" + std::to_string(v.size()) + ",\"emp\":" + tf(v.empty()) + ",\"segs\":[";
    for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + by(v[i]);
    o += "],\"front\":" + (v.empty() ? string("[]") : by(v.front())) + ",\"pre\":[";
    for (std::size_t i = 0; i <= v.size(); ++i) o += (i ? "," : "") + by(v.prefix(i));
    return o + "]}";
}
static string dump(rng& r, const kl::path& p)
{
    string o = ",\"d\":{\"n\":" + std::to_string(p.size()) + ",\"emp\":" + tf(p.empty()) + ",\"segs\":[";
    for (std::size_t i = 0; i < p.size(); ++i) o += (i ? "," : "") + by(p[i]);
    o += "],\"j\":[";
    for (std::size_t i = 0; i <= p.size() + 1; ++i) o += (i ? "," : "") + by(p.joined(i));
    return o + "],\"v\":[" + view_dump(r, p) + "," + view_dump(r, p) + "]}";
}
static string text(rng& r)
{
    static const char* bits[] = {"a", "b", ".", "..", "...", "%2E", "%2e%2E", ".%2e", "%2F", "%2f", "%", "%4", "%zz", "%41", "%25", "%00", "a%20b", "%252F", "%ff", "longer-segment-name", "%C3%A9", "/", "a.", "..a", "%a", "%:0", "%0:", "%g1", "%@1", "%`1", "0"};
    string s;
    int n = r.chance(10) ? 18 + r.below(8) : r.below(7);
    for (int k = 0; k < n; ++k)
    {
        if (k || r.chance(70)) s += '/';
        if (r.chance(n > 10 ? 10 : 25)) s += ".."; else if (n > 10 || r.chance(40)) s += char('a' + r.below(3)); else s += bits[r.below(31)];
        if (r.chance(4)) for (int m = 40 + r.below(260); m > 0; --m) { if (r.chance(5)) s += "%61"; else s += 'a'; }
        if (r.chance(6)) s += char(r.below(256));
        if (r.chance(6)) { char b[4]; std::snprintf(b, 4, r.chance(50) ? "%%%02x" : "%%%02X", r.below(256)); s += b; }
    }
    if (r.chance(20)) s += '/';
    return s;
}
int main(int argc, char** argv)
{
    string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), cnt = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + fam[0]);
        kl::path p;
        string out;
        auto ev = [&](const string& s, bool ok) { out += (out.empty() ? "{" : ",{") + s + ",\"ok\":" + tf(ok) + dump(r, p) + "}"; };
        auto set = [&](const string& in) {
            std::unique_ptr<char[]> exact(new char[in.size()]);     // a sanitizer sees any byte outside
            std::memcpy(exact.get(), in.data(), in.size());
            bool ok = true, other = false;
            int via = r.below(4);
            try
            {
                string_view sv{exact.get(), in.size()};
                if (via == 0) p = kl::path{sv}; else p.set(sv);
            }
            catch (const kl::path_parse_error& e) { ok = false; other = !e.what() || !*e.what(); }
            catch (...) { other = true; }
            exact.reset();
            ev((other ? "\"o\":\"exc\",\"in\":" : "\"o\":\"set\",\"in\":") + by(in), ok);
        };
        if (fam == "esc")
        {   // every byte as either digit of an escape
            for (char d : string("0279afAF"))
            {
                set(string("/x%") + char(q) + d + "y");
                set(string("%") + d + char(q));
            }
            set(string("a/%") + char(q));
        }
        else if (fam == "ex")
            for (unsigned long k = 0; k < 30; ++k) set(nth(30ul * (unsigned long)q + k));
        else
            for (int k = 3 + r.below(10); k > 0; --k)
            {
                int c = r.below(100);
                if (c < 70) set(text(r));
                else if (c < 85)
                {
                    int j = r.below(3);
                    bool ok = true;
                    try { p.set(p.joined(std::size_t(j))); } catch (const kl::path_parse_error&) { ok = false; }
                    ev("\"o\":\"self\",\"k\":" + std::to_string(j), ok);
                }
                else if (c < 90) { p.clear(); ev("\"o\":\"clear\"", true); }
                else { if (r.chance(50)) { kl::path t{p}; p.clear(); p = t; } else { kl::path t{std::move(p)}; p = kl::path{}; p = std::move(t); } ev("\"o\":\"copy\"", true); }
            }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
