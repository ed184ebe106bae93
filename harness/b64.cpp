// b64 <ex|rnd> <seed> <start> <count> <out>
// ex: line k encodes the byte strings 64k.. of the enumeration of all of length 0, 1, 2, ... (k < 1029),
//     then decodes the texts 64k.. over CHARS, then puts every byte value into every position of base texts
#include "common.hpp"
#include <kl/base64.hpp>
using hv::rng; using std::string;
static const char* tf(bool b) { return b ? "true" : "false"; }
static string out;
template <class T> string by(const T* p, std::size_t n) { return hv::jbytes(string(reinterpret_cast<const char*>(p), n)); }
static void add(const string& s) { out += (out.empty() ? "{" : ",{") + s + "}"; }
static void enc(const string& s, bool u)
{
    std::unique_ptr<std::byte[]> x(new std::byte[s.size()]);
    std::memcpy(x.get(), s.data(), s.size());
    gsl::span<const std::byte> sp{x.get(), s.size()};
    string t;
    try { t = u ? kl::base64url_encode(sp) : kl::base64_encode(sp); }
    catch (...) { add("\"o\":\"exc\""); return; }
    add(string("\"o\":\"enc\",\"u\":") + tf(u) + ",\"b\":" + hv::jbytes(s) + ",\"t\":" + hv::jbytes(t));
}
static void dec(const string& s, bool u)
{
    std::unique_ptr<char[]> x(new char[s.size()]);
    std::memcpy(x.get(), s.data(), s.size());
    std::optional<std::vector<std::byte>> r;
    try { r = u ? kl::base64url_decode({x.get(), s.size()}) : kl::base64_decode({x.get(), s.size()}); }
    catch (...) { add("\"o\":\"exc\""); return; }
    add(string("\"o\":\"dec\",\"u\":") + tf(u) + ",\"t\":" + hv::jbytes(s) + ",\"ok\":" + tf(!!r) + ",\"b\":" + (r ? by(r->data(), r->size()) : string("[]")));
}
static string nth(unsigned long k, const string& alpha)
{
    unsigned long b = alpha.size(), len = 0, cnt = 1;
    while (k >= cnt) { k -= cnt; cnt *= b; ++len; }
    string s(len, 0);
    for (auto i = len; i-- > 0; k /= b) s[i] = alpha[k % b];
    return s;
}
int main(int argc, char** argv)
{
    string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), cnt = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    string all;
    for (int i = 0; i < 256; ++i) all += char(i);
    static const char* base[] = {"AAAA", "QUJD", "AAA=", "AA==", "AAA", "AA", "AAAAQUI=", "AAAAQQ==", "AAAAQQ", "AAAAQUI", "A", "AAAAA", "____", "////", ""};
    const string std_ab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + fam[0]);
        out.clear();
        if (fam == "ex")
        {
            for (unsigned long k = 0; k < 64; ++k) { string s = nth(64ul * (unsigned long)q + k, all); enc(s, k & 1); if (s.size() < 2) enc(s, !(k & 1)); }
            for (unsigned long k = 0; k < 16; ++k) { string s = nth(16ul * (unsigned long)q + k, "AQ/-=!z"); dec(s, true); dec(s, false); }
            const char* b = base[q % 15];
            for (std::size_t p = 0; p < std::strlen(b); ++p) for (int k = 0; k < 4; ++k) { string s = b; s[p] = char((q / 15 * 4 + k) & 255); dec(s, true); dec(s, false); }
        }
        else
            for (int k = 0; k < 12; ++k)
            {
                bool u = r.chance(50);
                string s;
                for (int n = r.chance(15) ? 30 + r.below(40) : r.below(14); n > 0; --n) s += char(r.next());
                if (r.chance(40)) { enc(s, u); continue; }
                string t;
                {
                    gsl::span<const std::byte> sp{reinterpret_cast<const std::byte*>(s.data()), s.size()};
                    t = r.chance(50) ? kl::base64url_encode(sp) : kl::base64_encode(sp);
                }
                for (int m = r.below(3); m > 0; --m)
                {
                    int c = r.below(7);
                    auto at = t.empty() ? std::size_t(0) : std::size_t(r.below(int(t.size())));
                    if (c == 0) t.insert(t.begin() + std::ptrdiff_t(at), '=');
                    else if (c == 1 && !t.empty()) t.erase(at, 1);
                    else if (c == 2 && !t.empty()) t[at] = char(r.next());
                    else if (c == 3) t += '=';
                    else if (c == 4 && !t.empty()) t.pop_back();
                    else if (c == 5 && !t.empty()) t[at] = std_ab[std::size_t(r.below(62))];
                    else t += std_ab[std::size_t(r.below(62))];
                }
                dec(t, u);
            }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
