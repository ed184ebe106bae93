// serde <family enc|dec|attr|patch> <seed> <start> <count> <out>
#include "serde_part.hpp"
const std::vector<std::string>& doc_names()
{
    static const std::vector<std::string> n{"renamed", "ren", "al", "al2", "al3", "r2", "r2old", "both", "oal", "oal2", "def", "sdef", "odef", "miss", "omiss", "defmiss", "a_def", "adef", "adef2",
    "idef", "vmiss", "plain", "amiss", "amiss2", "sk", "sks", "skd", "sin", "en", "sie", "vie", "mie", "eni", "eni_r", "rng", "ge", "le", "ne", "v_ne", "eng", "fa", "fb", "fc", "fd", "fdd", "fdz", "fe",
    "a", "b", "bb", "z", "q", "p", "ex", "hidden", "silent", "id", "x", "y", "o", "in", "k1", "k2", "k3", "extra", "c", "m", "mo", "oi", "t"};
    return n;
}
int main(int argc, char** argv)
{
    std::string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), count = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    for (int p = start; p < start + count; ++p)
    {
        std::fprintf(f, "{\"idx\":%d,\"ev\":[", p);
        std::fflush(f);
        hv::rng r(seed * 1000003 + std::uint64_t(p) * 7 + fam[0]);
        std::vector<std::string> ev;
        for (part_fn fn : {part0, part1, part2, part3}) fn(fam, r, ev);
        for (std::size_t i = 0; i < ev.size(); ++i) std::fprintf(f, "%s%s", i ? "," : "", ev[i].c_str());
        std::fprintf(f, "]}\n");
        std::fflush(f);
    }
    std::fclose(f);
}
