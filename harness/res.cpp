// res <roots e.g. 1234> <hist|sys> <seed> <start> <count> <out>
#include "res_part.hpp"
int main(int argc, char** argv)
{
    std::string roots = argv[1], mode = argv[2];
    std::uint64_t seed = std::strtoull(argv[3], 0, 10);
    int start = std::atoi(argv[4]), count = std::atoi(argv[5]);
    std::FILE* f = std::fopen(argv[6], "w");
    std::string (*fn[])(const std::string&, hv::rng&) = {run_R1, run_R2, run_R3, run_R4};
    for (int p = start; p < start + count; ++p)
    {
        std::fprintf(f, "{\"idx\":%d", p);
        std::fflush(f);
        hv::rng r(seed * 1000003 + std::uint64_t(p) * 7 + mode[0]);
        std::fprintf(f, "%s\n", fn[roots[p % roots.size()] - '1'](mode, r).c_str());
        std::fflush(f);
    }
    std::fclose(f);
}
