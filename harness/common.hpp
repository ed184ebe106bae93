// Shared by all drivers: choice source, event log.
#pragma once
#include <bits/stdc++.h>

namespace hv {
struct rng
{
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed)
    {
        // hash the seed: consecutive seeds must not give shifted copies of one stream
        s = next() * 0xD6E8FEB86659FD93ull;
        s = next() ^ (s << 32);
        next();
    }
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : int(next() % std::uint64_t(n)); }
    bool chance(int pct) { return below(100) < pct; }
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
inline std::string jbytes(const std::string& s)
{
    std::string o = "[";
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (i) o += ',';
        o += std::to_string((unsigned char)s[i]);
    }
    return o + "]";
}
} // namespace hv
