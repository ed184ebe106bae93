// Free-running threads over the real kl::signal, built with ThreadSanitizer: no data race, no use of a destroyed
// callable.  (The order of events is decided by SignalConc.tla under the controlled scheduler; this run only looks
// for missing synchronisation, which a sequentially consistent schedule cannot show.)
#include "common.hpp"
#include <kl/signal.hpp>
#include <thread>
#include <unistd.h>
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
    int rounds = std::atoi(argv[2]);
    alarm(300);
    for (int round = 0; round < rounds; ++round)
    {
        kl::signal<void(long&)> s;
        std::vector<kl::connection> shared;
        for (int i = 0; i < 3; ++i)
        {
            auto p = std::make_unique<long>(i);
            auto sp = std::shared_ptr<long>(std::move(p));
            shared.push_back(s.connect([sp](long& a) { a += *sp; }));
        }
        std::vector<std::thread> th;
        for (int t = 0; t < 4; ++t)
            th.emplace_back([&, t, mine = shared]() mutable {
                hv::rng r(seed * 31 + round * 7 + t);
                long acc = 0;
                std::deque<kl::connection> own;
                for (int i = 0; i < 120; ++i)
                {
                    switch (r.below(9))
                    {
                    case 0: case 1: case 2: s(acc); break;
                    case 3: case 4:
                    {
                        long* raw = new long(i);
                        std::shared_ptr<long> sp(raw, [](long* p) { *p = -1; delete p; });
                        own.push_back(s.connect([sp](long& a) { a += *sp; }, r.chance(50) ? kl::at_front : kl::at_back));
                        break;
                    }
                    case 5: if (!own.empty()) { own.front().disconnect(); own.pop_front(); } break;
                    case 6: if (!mine.empty() && r.chance(10)) { mine.back().disconnect(); mine.pop_back(); } break;
                    case 7: if (!mine.empty()) { auto b = mine.back().get_blocker(); acc += s.num_slots(); } break;
                    default: if (r.chance(8)) s.disconnect_all_slots(); else if (!own.empty() && r.chance(30)) own.clear(); break;
                    }
                }
            });
        for (auto& t : th) t.join();
        shared.clear();
    }
    std::puts("tsan-ok");
}
