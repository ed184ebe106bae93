// builders <seed> <start> <count> <out>: documents put together with the builders and taken apart with the extractors (KV_YAML: kl::yaml)
#ifdef KV_YAML
#include "ytree.hpp"
#endif
#include "serde_types.hpp"
using namespace jt;
using std::string;
#ifdef KV_YAML
namespace kj = kl::yaml;
using Node = YAML::Node;
struct holder { Node n; };
static string show(const Node& n) { return ydoc(n); }
#else
namespace kj = kl::json;
using Node = rapidjson::Value;
static string show(const Node& n) { return doc(n, true); }
#endif
static string O;
static void ev(const string& s) { O += (O.empty() ? "{" : ",{") + s + "}"; }
template <class Fn> void some_type(rng& r, Fn f)
{
    switch (r.below(12))
    {
    case 0: return f("i32", int{});
    case 1: return f("str", string{});
    case 2: return f("bool", false);
    case 3: return f("oi", std::optional<int>{});
    case 4: return f("vi", std::vector<std::int16_t>{});
    case 5: return f("u8", std::uint8_t{});
    case 6: return f("Inner", st::Inner{});
    case 7: return f("mo", std::map<string, std::optional<int>>{});
    case 8: return f("Color", st::Color{});
    case 9: return f("u64", std::uint64_t{});
    case 10: return f("dbl", double{});
    default: return f("tup", std::tuple<int, std::optional<string>, std::uint8_t>{});
    }
}
static const char* pool[] = {"a", "b", "c", "dd", "e e", "f1", "g", "0", "1"};
static const char fixed_names[] = "abcdde ef1g01";      // names as views into a text that does not end with them
// Runs one building session; the result is left in the given document.
#ifdef KV_YAML
static Node build(rng& r, int depth, string& log)
#else
template <class Ctx> static Node build(rng& r, int depth, string& log, Ctx& ctx)
#endif
{
#ifdef KV_YAML
    kj::serialize_context ctx{r.chance(50)};
    auto make_arr = [&] { return kj::to_sequence(ctx); };
    auto make_obj = [&] { return kj::to_map(ctx); };
    auto sub = [&](string& l) { return build(r, depth + 1, l); };
#else
    auto make_arr = [&] { return kj::to_array(ctx); };
    auto make_obj = [&] { return kj::to_object(ctx); };
    auto sub = [&](string& l) { return build(r, depth + 1, l, ctx); };
#endif
    bool arr = r.chance(50);
    auto a = make_arr();
    auto o = make_obj();
    string items;
    std::vector<string> left(std::begin(pool), std::end(pool));
#ifndef KV_YAML
    left.push_back(string("g\0h", 3));
    left.push_back("");
#endif
    for (int n = r.below(depth ? 3 : 6); n > 0; --n)
    {
        std::size_t k = std::size_t(r.below(int(left.size())));
        string name = left[k];
        left.erase(left.begin() + long(k));
        bool is_fixed = std::find(std::begin(pool), std::end(pool), name) != std::end(pool);
        std::string_view fixed{fixed_names + string(fixed_names).find(name.c_str()), name.size()};
        string T, v;
        auto put = [&](auto&& x) {
            using X = std::decay_t<decltype(x)>;
            if (arr) { if constexpr (std::is_same_v<X, Node>) a.add(std::move(x)); else a.add(x); return; }
#ifdef KV_YAML
            if ((name == "0" || name == "1") && r.chance(50)) { int num = name[0] - '0'; if constexpr (std::is_same_v<X, Node>) o.add(num, std::move(x)); else o.add(num, x); }
            else { auto tmp = std::make_unique<string>(name); if constexpr (std::is_same_v<X, Node>) o.add(*tmp, std::move(x)); else o.add(*tmp, x); *tmp = "zzz"; }
#else
            if (!is_fixed || r.chance(50))
            {   // the name does not outlive the call
                auto tmp = std::make_unique<char[]>(name.size());
                std::copy(name.begin(), name.end(), tmp.get());
                std::string_view nm{tmp.get(), name.size()};
                if constexpr (std::is_same_v<X, Node>) o.add_dynamic_name(nm, std::move(x)); else o.add_dynamic_name(nm, x);
                std::fill(tmp.get(), tmp.get() + name.size(), '#');
            }
            else { if constexpr (std::is_same_v<X, Node>) o.add(fixed, std::move(x)); else o.add(fixed, x); }
#endif
        };
        if (depth < 2 && r.chance(20)) { string l; Node s = sub(l); T = "doc"; v = show(s); put(std::move(s)); }
        else some_type(r, [&](const char* tn, auto x) { gen(r, x, 1); T = tn; v = val(x); put(x); });
        items += (items.empty() ? "[" : ",[") + jstr(arr ? "" : name) + ",\"" + T + "\"," + v + "]";
    }
    log = "\"o\":\"build\",\"arr\":" + string(arr ? "true" : "false") + ",\"items\":[" + items + "]";
    bool conv = r.chance(50);
    if (arr) { if (conv) return a; return a.done(); }
    if (conv) return o;
    return o.done();
}
template <class X, class Fn> string tried(const string& doc, X& out, Fn f)
{
    try { f(); return "[true," + val(out) + "]"; }
    catch (const kl::serialization::deserialize_error& e) { return failure(e.what(), doc); }
    catch (...) { return "[\"exc\"]"; }
}
static void take(rng& r, const Node& n)
{
    kj::deserialize_context ctx;
    string before = show(n), xs;
    bool arr = r.chance(50), ok = false;
    // mostly take the document for what it is
#ifdef KV_YAML
    if (r.chance(80)) arr = n.IsSequence();
#else
    if (r.chance(80)) arr = n.IsArray();
#endif
    try
    {
#ifdef KV_YAML
        if (arr)
        {
            auto e = kj::from_sequence(n, ctx);
#else
        if (arr)
        {
            auto e = kj::from_array(n, ctx);
#endif
            ok = true;
            for (int k = 1 + r.below(8); k > 0; --k)
                some_type(r, [&](const char* tn, auto x) {
                    int at = r.chance(25) ? r.below(9) : -1;
                    string res = tried(before, x, [&] { if (at < 0) e.extract(x); else e.extract(x, unsigned(at)); });
                    xs += (xs.empty() ? "[" : ",[") + std::to_string(at) + ",\"" + tn + "\"," + res + "]";
                });
        }
        else
        {
#ifdef KV_YAML
            auto e = kj::from_map(n, ctx);
#else
            auto e = kj::from_object(n, ctx);
#endif
            ok = true;
            for (int k = 1 + r.below(6); k > 0; --k)
                some_type(r, [&](const char* tn, auto x) {
                    const char* nm = r.chance(10) ? "zz" : pool[r.below(9)];
#ifdef KV_YAML
                    string res = tried(before, x, [&] {
                        if ((*nm == '0' || *nm == '1') && r.chance(50)) e.extract(*nm - '0', x);
                        else if (r.chance(50)) e.extract(string(nm), x);
                        else e.extract(nm, x);
                    });
#else
                    string res = tried(before, x, [&] { e.extract(nm, x); });
#endif
                    xs += (xs.empty() ? "[" : ",[") + jstr(nm) + ",\"" + tn + "\"," + res + "]";
                });
        }
    }
    catch (const kl::serialization::deserialize_error&) {}
    ev(string("\"o\":\"take\",\"arr\":") + (arr ? "true" : "false") + ",\"ok\":" + (ok ? "true" : "false") + ",\"j\":" + before + ",\"x\":[" + xs + "],\"kept\":" + (show(n) == before ? "true" : "false"));
}
static void look(rng& r, Node& n)
{
    string before = show(n), xs;
#ifdef KV_YAML
    bool arr = n.IsSequence();
#else
    bool arr = n.IsArray();
#endif
    for (int k = 0; k < 4; ++k)
        if (arr)
        {
            unsigned at = r.chance(5) ? 4294967295u : unsigned(r.below(8));
#ifdef KV_YAML
            Node f = kj::at(n, std::size_t(at));
            string s = show(f);
            if (f.IsNull() && s == "[\"n\"]" && at >= n.size()) f = "scribble";     // what absent elements are looked up as is nobody's
#else
            string s = show(kj::at(std::as_const(n).GetArray(), at));
#endif
            xs += (xs.empty() ? "[" : ",[") + std::to_string(at > 1000 ? 1000 : at) + "," + s + "]";
        }
        else
        {
            const char* nm = r.chance(20) ? "zz" : pool[r.below(9)];
#ifdef KV_YAML
            Node f = kj::at(n, nm);
            string s = show(f);
            if (!n[nm]) f = "scribble";
#else
            string s = show(kj::at(std::as_const(n).GetObject(), nm));
#endif
            xs += (xs.empty() ? "[" : ",[") + jstr(nm) + "," + s + "]";
        }
    ev(string("\"o\":\"look\",\"arr\":") + (arr ? "true" : "false") + ",\"j\":" + before + ",\"x\":[" + xs + "],\"kept\":" + (show(n) == before ? "true" : "false"));
}
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + 13);
        O.clear();
        for (int k = 0; k < 4; ++k)
        {
            string log;
#ifdef KV_YAML
            Node n = build(r, 0, log);
#else
            rapidjson::Document d;
            bool skip = r.chance(50);
            kj::serialize_context c1{d, skip}, c2{d.GetAllocator(), skip};
            kj::owning_serialize_context c3{skip};
            Node n;
            switch (r.below(3)) { case 0: n = build(r, 0, log, c1); break; case 1: n = build(r, 0, log, c2); break; default: n = build(r, 0, log, c3); }
#endif
            ev(log + ",\"r\":" + show(n));
            for (int m = r.below(3); m >= 0; --m) if (r.chance(70)) take(r, n); else look(r, n);
        }
        std::fprintf(f, ",\"ev\":[%s]}\n", O.c_str());
    }
    std::fclose(f);
}
