// defers <seed> <start> <count> <out>: random walks through code that uses KL_DEFER
#include "common.hpp"
#include <kl/defer.hpp>
using hv::rng; using std::string;
static string out;
static int ids, budget;
static void ev(const char* o, int id = 0, int v = 0) { out += string(out.empty() ? "{" : ",{") + "\"o\":\"" + o + "\",\"id\":" + std::to_string(id) + ",\"v\":" + std::to_string(v) + "}"; }
// first thing declared in a block: reports its end after everything else of the block is gone
struct block { block() { ev("enter"); } ~block() { ev("leave"); } };
struct boom {};
static void walk(rng& r, int depth);
static void some(rng& r, int depth) { if (depth < 4 && budget > 0 && r.chance(60)) walk(r, depth + 1); }
static int fresh() { int id = ++ids; ev("reg", id); return id; }
static void change(rng& r, int& x) { if (r.chance(50)) { x = 1 + r.below(9); ev("set", 0, x); } }
// ways out of a block
static void fall(rng& r, int depth)
{
    block b; int x = 0;
    int i1 = 0, i2 = 0;
    KL_DEFER(ev("run", i1, x));
    i1 = fresh();
    change(r, x);
    some(r, depth);
    KL_DEFER(ev("run", i2, x); x += 10; ev("set", 0, x));          // several statements, changes what the earlier one sees
    i2 = fresh();
    change(r, x);
    ev("exit");
}
static int ret(rng& r, int depth)
{
    block b; int x = 0, i1 = 0, i2 = 0, i3 = 0;
    KL_DEFER(ev("run", i1, x)); i1 = fresh();
    if (r.chance(33)) { ev("exit"); return 1; }
    change(r, x);
    KL_DEFER({ ev("run", i2, x); }) i2 = fresh();
    if (r.chance(50)) { change(r, x); ev("exit"); return 2; }
    some(r, depth);
    KL_DEFER(ev("run", i3, x), x = x + 1, ev("set", 0, x)); i3 = fresh();
    ev("exit");
    return 3;
}
static void loop(rng& r, int depth)
{
    block o; int y = 0, j = 0;
    KL_DEFER(ev("run", j, y)); j = fresh();
    for (int k = 0; k < 3; ++k)
    {
        block b; int x = 0, i1 = 0, i2 = 0;
        KL_DEFER(ev("run", i1, x)); i1 = fresh();
        change(r, x);
        if (r.chance(30)) { ev("exit"); continue; }
        KL_DEFER(ev("run", i2, x)); i2 = fresh();
        if (r.chance(30)) { ev("exit"); break; }
        some(r, depth);
        ev("exit");
    }
    change(r, y);
    ev("exit");
}
static void jump(rng& r, int depth)
{
    block o; int y = 0, j = 0;
    KL_DEFER(ev("run", j, y)); j = fresh();
    {
        block b; int x = 0, i1 = 0;
        KL_DEFER(ev("run", i1, x)); i1 = fresh();
        some(r, depth);
        change(r, x);
        if (r.chance(50)) { ev("exit"); goto done; }
        ev("exit");
    }
    change(r, y);
done:
    switch (r.below(2))
    {
    case 0: { block b; int x = 0, i1 = 0; KL_DEFER(ev("run", i1, x)); i1 = fresh(); change(r, x); ev("exit"); break; }
    default: { block b; ev("exit"); }
    }
    ev("exit");
}
static void catcher(rng& r, int depth);
static void thrower(rng& r, int depth)
{
    block b; int x = 0, i1 = 0, i2 = 0, i3 = 0;
    KL_DEFER(ev("run", i1, x)); i1 = fresh();
    // while the exception is on its way, the action opens blocks, throws and catches
    KL_DEFER(ev("run", i3, x); if (depth < 7 && --budget > 0 && r.chance(50)) { if (r.chance(60)) catcher(r, depth + 2); else fall(r, 9); }) i3 = fresh();
    KL_DEFER(ev("run", i2, x)); i2 = fresh();
    change(r, x);
    if (depth < 4 && r.chance(40)) { thrower(r, depth + 1); }
    ev("throw");
    throw boom{};
}
static void catcher(rng& r, int depth)
{
    block b; int x = 0, i1 = 0, i2 = 0;
    KL_DEFER(ev("run", i1, x)); i1 = fresh();
    ev("try");
    try { some(r, depth); change(r, x); thrower(r, depth + 1); }
    catch (const boom&) { ev("endtry"); }
    KL_DEFER(ev("run", i2, x)); i2 = fresh();
    change(r, x);
    ev("exit");
}
// an action that itself opens blocks with actions
static void inner(rng& r, int depth)
{
    block b; int x = 0, i1 = 0, i2 = 0;
    KL_DEFER(ev("run", i1, x)); i1 = fresh();
    KL_DEFER(ev("run", i2, x); if (depth < 4) { fall(r, 9); catcher(r, 9); }) i2 = fresh();
    change(r, x);
    if (r.chance(40)) { ev("exit"); return; }
    some(r, depth);
    ev("exit");
}
static void lambda(rng& r, int depth)
{
    block b; int x = 0, i1 = 0;
    KL_DEFER(ev("run", i1, x)); i1 = fresh();
    auto f = [&](int z) { block c; int w = z, i2 = 0; ev("set", 0, w); KL_DEFER(ev("run", i2, w)); i2 = fresh(); change(r, w); ev("exit"); return w; };
    f(1); if (r.chance(50)) f(2);
    some(r, depth);
    ev("exit");
}
static void walk(rng& r, int depth)
{
    --budget;
    switch (r.below(7))
    {
    case 0: fall(r, depth); break;
    case 1: ret(r, depth); break;
    case 2: loop(r, depth); break;
    case 3: jump(r, depth); break;
    case 4: catcher(r, depth); break;
    case 5: inner(r, depth); break;
    default: lambda(r, depth);
    }
}
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + 11);
        out.clear(); ids = 0; budget = 12;
        walk(r, 0);
        walk(r, 0);
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
}
