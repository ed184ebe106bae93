// matches <seed> <start> <count> <out>: kl::match, kl::overloader, kl::func_overload and the tuple utilities
#include "common.hpp"
#include <kl/match.hpp>
#include <kl/tuple.hpp>
#include <memory>
#include <optional>
using hv::rng; using std::string;
struct Base { int b; };
struct Der : Base { explicit Der(int k) : Base{k} {} };
struct Odd { int v; explicit Odd(int k) : v(k) { if (k < 0) throw 1; } Odd(const Odd& o) noexcept(false) : v(o.v) {} Odd& operator=(const Odd& o) noexcept(false) { v = o.v; return *this; } };
using V = std::variant<int, double, string, Base, Der, bool, std::unique_ptr<int>, Odd>;
static const char* tf(bool b) { return b ? "true" : "false"; }
static string S(long v) { return std::to_string(v); }
static int un(int k) { return k; }
static int un(double k) { return int(k); }
static int un(const string& s) { return s.empty() ? -1 : std::atoi(s.c_str()); }
static int un(const Base& b) { return b.b; }
static int un(bool b) { return b; }
static int un(const std::unique_ptr<int>& p) { return p ? *p : -1; }
static int un(const Odd& o) { return o.v; }
static void set(Odd& x, int k) { x.v = k; }
static void set(int& x, int k) { x = k; }
static void set(double& x, int k) { x = k; }
static void set(string& x, int k) { x = S(k); }
static void set(Base& x, int k) { x.b = k; }
static void set(bool& x, int k) { x = k % 2; }
static void set(std::unique_ptr<int>& x, int k) { x = std::make_unique<int>(k); }
static V make(int alt, int k)
{
    switch (alt)
    {
    case 0: return V{std::in_place_index<0>, k};
    case 1: return V{std::in_place_index<1>, double(k)};
    case 2: return V{std::in_place_index<2>, S(k)};
    case 3: return V{std::in_place_index<3>, Base{k}};
    case 4: return V{std::in_place_index<4>, Der{k}};
    case 5: return V{std::in_place_index<5>, k % 2 == 1};
    case 7: return V{std::in_place_index<7>, k};
    default: return V{std::in_place_index<6>, std::make_unique<int>(k)};
    }
}
static string L;            // calls made by handlers
static const void* g_where; // address of the stored alternative
static void call(const char* h, int seen, const void* p) { L += (L.empty() ? "[\"" : ",[\"") + string(h) + "\"," + S(seen) + "," + tf(p == g_where) + "]"; }
template <typename T> void call(const char* h, const T& x) { call(h, un(x), std::addressof(x)); }
static const void* where(const V& v) { return v.valueless_by_exception() ? nullptr : std::visit([](auto& x) -> const void* { return std::addressof(x); }, v); }
static int val(const V& v) { return v.valueless_by_exception() ? -1 : std::visit([](auto& x) { return un(x); }, v); }
static int f_base(const Base& b) { call("base", b); return 1000 + b.b; }
static int f_intv(int k) { call("intv", k, g_where); return 2000 + k; }
static int f_strm(string& s) { call("str", s); s = "77"; return 77; }
int main(int, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        rng r(seed * 1000003 + std::uint64_t(q));
        std::fprintf(f, "{\"idx\":%d,\"ev\":[", q);
        std::fflush(f);
        V v = make(r.below(8), r.below(90));
        std::fprintf(f, "{\"o\":\"init\",\"alt\":%d,\"v\":%d}", int(v.index()), val(v));
        for (int k = 0; k < 10; ++k)
        {
            int c = r.below(100), add = r.below(90), ret = 0;
            bool bad = false, thrown = false, wr = r.chance(50);
            string how;
            L.clear();
            g_where = where(v);
            auto guard = [&](const char* name, auto&& fn) {
                how = name;
                try { ret = fn(); } catch (const std::bad_variant_access&) { bad = true; } catch (const string&) { thrown = true; }
            };
            if (c < 8) { v = make(r.below(8), r.below(90)); std::fprintf(f, ",{\"o\":\"init\",\"alt\":%d,\"v\":%d}", int(v.index()), val(v)); continue; }
            if (c < 11)
            {
                V t{std::in_place_index<0>, 0};
                try { t.emplace<7>(-1); } catch (int) {}
                if (!t.valueless_by_exception()) continue;  // the library kept the old value
                v = std::move(t);
                std::fprintf(f, ",{\"o\":\"init\",\"alt\":-1,\"v\":-1}");
                continue;
            }
            auto H = [&](const char* n) { return [&, n](auto& x) { call(n, x); if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) if (wr) set(x, add); return 10000 + add; }; };
            if (c < 30)
                guard("exact", [&] { return kl::match(v, [&](int& x) { return H("int")(x); }, [&](double& x) { return H("double")(x); }, [&](string& x) { return H("str")(x); }, [&](Base& x) { return H("base")(x); },
                                                      [&](Der& x) { return H("der")(x); }, [&](bool& x) { return H("bool")(x); }, [&](std::unique_ptr<int>& x) { return H("ptr")(x); }, [&](Odd& x) { return H("odd")(x); }); });
            else if (c < 45)
                guard("generic", [&] { return kl::match(v, [&](string& x) { return H("str")(x); }, [&](auto& x) { return H("any")(x); }, [&](Base& x) { return H("base")(x); }); });
            else if (c < 55)
            {
                wr = false;
                guard("const", [&] { return kl::match(std::as_const(v), [&](const string& x) { return H("str")(x); }, [&](const Base& x) { return H("base")(x); }, [&](const auto& x) { return H("any")(x); }); });
            }
            else if (c < 65)
            {
                wr = false;
                guard("func", [&] { return kl::match(v, kl::func_overload{f_base}, kl::func_overload{f_intv}, kl::func_overload{f_strm}, [&](std::unique_ptr<int>& x) { return H("ptr")(x); }, [&](Odd& x) { return H("odd")(x); }, [&](double x) { call("dblv", un(x), g_where); return 3000; }, [&](bool x) { call("boolv", x, g_where); return 4000; }); });
            }
            else if (c < 75)
            {
                auto tok = std::make_unique<int>(add);
                guard("moveonly", [&] { return kl::match(v, [t = std::move(tok), &r](auto& x) { (void)r; call("any", x); return 10000 + *t; }); });
                wr = false;
            }
            else if (c < 82)
            {
                wr = false;
                guard("throw", [&] { return kl::match(v, [&](string& x) -> int { call("str", x); throw string("boom"); }, [&](auto& x) -> int { return H("any")(x); }); });
            }
            else
            {
                // tuples
                std::tuple<int, string, double, int> t{r.below(90), S(r.below(90)), double(r.below(90)), r.below(90)};
                const void* ad[4] = {&std::get<0>(t), &std::get<1>(t), &std::get<2>(t), &std::get<3>(t)};
                string in = "[" + S(std::get<0>(t)) + "," + S(un(std::get<1>(t))) + "," + S(un(std::get<2>(t))) + "," + S(std::get<3>(t)) + "]", seen;
                int pos = 0;
                if (c < 88)
                {
                    kl::tuple::for_each_fn::call(t, [&](auto& x) { seen += (seen.empty() ? "[" : ",[") + S(un(x)) + "," + tf(pos < 4 && ad[pos] == std::addressof(x)) + "]"; set(x, un(x) + 100 * ++pos); });
                    std::fprintf(f, ",{\"o\":\"each\",\"in\":%s,\"seen\":[%s],\"out\":[%d,%d,%d,%d]}", in.c_str(), seen.c_str(), std::get<0>(t), un(std::get<1>(t)), un(std::get<2>(t)), std::get<3>(t));
                }
                else if (c < 93)
                {
                    auto d = std::make_tuple(&std::get<0>(t), std::optional<string>(std::get<1>(t)), static_cast<const double*>(&std::get<2>(t)), &std::get<3>(t));
                    auto ref = kl::tuple::transform_ref_fn::call(d);
                    static_assert(std::is_same_v<decltype(ref), std::tuple<int&, string&, const double&, int&>>);
                    bool same = &std::get<0>(ref) == ad[0] && &std::get<1>(ref) == &*std::get<1>(d) && &std::get<2>(ref) == ad[2] && &std::get<3>(ref) == ad[3];
                    std::fprintf(f, ",{\"o\":\"ref\",\"in\":%s,\"same\":%s,\"out\":[%d,%d,%d,%d]}", in.c_str(), tf(same), std::get<0>(ref), un(std::get<1>(ref)), un(std::get<2>(ref)), std::get<3>(ref));
                }
                else
                {
                    std::tuple<int, string, double, int> u = t;
                    if (r.chance(70)) std::get<0>(u) = r.below(90);
                    if (r.chance(70)) std::get<1>(u) = S(r.below(90));
                    if (r.chance(70)) std::get<2>(u) = r.below(90);
                    if (r.chance(70)) std::get<3>(u) = r.below(90);
                    std::fprintf(f, ",{\"o\":\"ne\",\"in\":%s,\"u\":[%d,%d,%d,%d],\"r\":%s}", in.c_str(), std::get<0>(u), un(std::get<1>(u)), un(std::get<2>(u)), std::get<3>(u), tf(kl::tuple::not_equal_fn::call(t, u)));
                }
                continue;
            }
            std::fprintf(f, ",{\"o\":\"match\",\"how\":\"%s\",\"calls\":[%s],\"r\":%d,\"add\":%d,\"wr\":%s,\"bad\":%s,\"thrown\":%s,\"alt\":%d,\"v\":%d,\"same\":%s}", how.c_str(), L.c_str(), ret, add, tf(wr), tf(bad), tf(thrown),
                         v.valueless_by_exception() ? -1 : int(v.index()), val(v), tf(where(v) == g_where));
        }
        std::fprintf(f, "]}\n");
    }
    std::fclose(f);
}
