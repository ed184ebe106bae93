// Random and systematic requests on one resource type (ROOT); driven by res.cpp.
#include "res_types.hpp"
#include "res_part.hpp"
using namespace jt;
namespace kj = kl::json;
namespace kr = kl::resources;
using segs_t = std::vector<std::string>;

template <class T, class = void> struct has_key : std::false_type {};
template <class T> struct has_key<T, std::void_t<decltype(kv_key(std::declval<const T&>()))>> : std::true_type {};
template <class T> constexpr bool is_cont = std::is_class_v<T> && !std::is_convertible_v<T, std::string> && !has_each<T>::value && !is_opt<T>::value && !is_eset<T>::value && !is_tup<T>::value && !is_map<T>::value;

// calls f(node, segments) for every node of the tree; elements of sequences once by index, once by key
template <class T, class Fn> void each_node(T& x, segs_t& s, Fn& f)
{
    f(x, s);
    if constexpr (has_each<T>::value)
        kv_each(x, [&](const char* n, auto& m) { s.push_back(rt::kv_jname(n)); each_node(m, s, f); s.pop_back(); });
    else if constexpr (is_opt<T>::value)
    {
        // the value of an optional has the optional's own path: only what is below it is new
        if (x)
        {
            bool self = true;
            auto g = [&](auto& n, segs_t& p) { if (!self) f(n, p); self = false; };
            each_node(*x, s, g);
        }
    }
    else if constexpr (is_map<T>::value)
    {
        for (auto& p : x)
            if (!p.first.empty() && p.first.find('/') == std::string::npos) { s.push_back(p.first); each_node(p.second, s, f); s.pop_back(); }
    }
    else if constexpr (is_cont<T>)
    {
        std::size_t k = 0;
        for (auto& e : x)
        {
            bool once = true;
            auto leaf = [&](auto& n, segs_t& p) { if (once) f(n, p); once = false; };
            s.push_back(std::to_string(k++));
            if constexpr (has_key<typename T::value_type>::value)
            {
                std::string key = kv_key(e);
                if (!key.empty() && key.find('/') == std::string::npos)
                {
                    each_node(e, s, leaf);
                    s.back() = key;
                    each_node(e, s, f);
                    s.pop_back();
                    continue;
                }
            }
            each_node(e, s, f);
            s.pop_back();
        }
    }
}
// a small change somewhere inside
template <class T> void tweak(rng& r, T& x)
{
    if constexpr (has_each<T>::value)
    {
        int n = 0;
        kv_each(x, [&](const char*, auto&) { ++n; });
        int k = r.below(n);
        kv_each(x, [&](const char*, auto& m) { if (k-- == 0) tweak(r, m); });
    }
    else if constexpr (is_opt<T>::value) { if (x && r.chance(60)) tweak(r, *x); else gen(r, x, 2); }
    else if constexpr (is_map<T>::value)
    {
        if (!x.empty() && r.chance(60)) { auto it = x.begin(); std::advance(it, r.below(int(x.size()))); if (r.chance(40)) x.erase(it); else tweak(r, it->second); }
        else { typename T::mapped_type e{}; gen(r, e, 2); x[rt::pick_name(r)] = e; }
    }
    else if constexpr (is_arr<T>::value) { tweak(r, x[r.below(int(x.size()))]); }
    else if constexpr (is_cont<T>)
    {
        int c = x.empty() ? 0 : r.below(4);
        auto it = x.begin();
        if (!x.empty()) std::advance(it, r.below(int(x.size())));
        if (c == 0) { typename T::value_type e{}; gen(r, e, 2); x.push_back(e); }
        else if (c == 1) x.erase(it);
        else if (c == 2) { auto e = *it; x.push_back(e); }
        else tweak(r, *it);
    }
    else gen(r, x);
}
inline const std::vector<std::string>& names()
{
    static const std::vector<std::string> n{"x", "y", "min", "max", "q", "w", "id", "n", "pt", "tags", "name", "lim", "a", "b", "bee", "k", "s", "m", "items", "by", "plain", "i", "wire", "named", "older", "aliased",
        "fx", "fy", "fl", "rest", "k1", "k2", "bag", "xs", "ms", "need", "v", "o", "p", "ro", "sro", "both", "ri", "free", "rov", "sum", "must", "groups", "nums", "two", "vec", "lims", "ov", "li", "aux", "kvs", "kvl", "kvm"};
    return n;
}
template <class T> void to_doc(rng& r, T& x, rapidjson::Document& d)
{
    try { kj::serialize_context ctx{d, r.chance(50)}; auto v = kj::serialize(x, ctx); static_cast<rapidjson::Value&>(d) = std::move(v); }
    catch (std::exception&) { d.SetObject(); }
}
template <class T> void body(rng& r, const T& cur, const std::string& m, rapidjson::Document& d)
{
    if (m == "post")
    {
        if constexpr (is_cont<T>)
        {
            typename T::value_type e{};
            if (!cur.empty() && r.chance(30)) { auto it = cur.begin(); std::advance(it, r.below(int(cur.size()))); e = *it; tweak(r, e); }
            else gen(r, e, 2);
            to_doc(r, e, d);
        }
        else { T e{}; gen(r, e, 2); to_doc(r, e, d); }
    }
    else
    {
        T x = cur;
        if (r.chance(60)) { tweak(r, x); if (r.chance(30)) tweak(r, x); } else gen(r, x, 1);
        to_doc(r, x, d);
        if (m == "patch" && d.IsObject())
            for (auto it = d.MemberBegin(); it != d.MemberEnd();) if (r.chance(65)) it = d.EraseMember(it); else ++it;
    }
    for (int n = r.chance(78) ? 0 : 1 + r.below(2); n > 0; --n) mutate(r, d, d.GetAllocator(), names());
}
struct Req { std::string m; segs_t p; rapidjson::Document d; };

static std::string raw_path(rng& r, const segs_t& p)
{
    auto junk = [&] { return r.chance(94) ? "" : r.chance(40) ? "/." : r.chance(50) ? "/" : "/zz/.."; };
    std::string o = junk();
    for (auto& s : p)
    {
        bool dots = s == "." || s == "..";
        o += "/";
        for (unsigned char c : s)
            if (c == '%' || c == '/' || dots || r.chance(5)) { char b[4]; std::snprintf(b, 4, r.chance(50) ? "%%%02x" : "%%%02X", c); o += b; }
            else o += char(c);
        o += junk();
    }
    if (r.chance(15)) o += "/";
    if (r.chance(20) && !o.empty() && o[0] == '/' && o.size() > 1) o.erase(0, 1);
    return o;
}
static std::string segs_json(const segs_t& p)
{
    std::string o = "[";
    for (auto& s : p)
    {
        long v = 0;
        bool dig = !s.empty();
        for (char c : s) if (c < '0' || c > '9') dig = false;
        if (dig)
        {   // a number that std::size_t cannot hold is not an index
            errno = 0;
            unsigned long long u = std::strtoull(s.c_str(), nullptr, 10);
            if (errno == ERANGE) dig = false;
            v = u > 9999999 ? 9999999 : long(u);
        }
        o += (o.size() > 1 ? ",[" : "[") + jstr(s) + "," + std::to_string(dig ? v : -1) + "]";
    }
    return o + "]";
}
static std::string texts_json(const segs_t& p)
{
    std::string o = "[";
    for (auto& s : p) { if (o.size() > 1) o += ','; o += jstr(s); }
    return o + "]";
}
template <class Root> struct session
{
    rng& r;
    kr::resource<Root> res = kr::make_resource(Root{});
    std::string cur, out;
    explicit session(rng& r_) : r(r_) { cur = val(res.value); }

    void alter(segs_t& p)
    {
        static const char* bogus[] = {"zz", "0", "1", "99999999999999999999999", "-1", "+0", " 0", "1x", "00", "k1", "k2", "id", ".", "..", "x%y", "named", "older", "aliased", "b", "fl", "wire", "7", "18446744073709551616"};
        int c = r.below(8);
        if (c > 4 && !p.empty())
        {   // almost the right name, key or index
            auto& t = p[c == 5 ? p.size() - 1 : std::size_t(r.below(int(p.size())))];
            switch (r.below(6))
            {
            case 0: if (t.size() > 1) t.pop_back(); else t += t; break;
            case 1: if (t.size() > 1) t.erase(0, 1); else t += ' '; break;
            case 2: t += "0x k1"[r.below(5)]; break;
            case 3: t = "0" + t; break;
            case 4: for (auto& ch : t) ch = char(std::isupper((unsigned char)ch) ? std::tolower((unsigned char)ch) : std::toupper((unsigned char)ch)); break;
            default: t += std::string(1, 0); break;
            }
            return;
        }
        std::string b = bogus[r.below(int(sizeof bogus / sizeof *bogus))];
        if (c == 0 || p.empty()) p.push_back(b);
        else if (c == 1) p[r.below(int(p.size()))] = b;
        else if (c == 2) p.back() = b;
        else if (c == 3) p.erase(p.begin() + r.below(int(p.size())));
        else p.push_back(p.back());
    }
    std::string queries(const kr::resource<Root>& x, const segs_t& p)
    {
        std::string o = "[";
        int n = 1 + r.below(4);
        std::uint64_t top = std::uint64_t(x.state.modifications.current());
        for (int k = 0; k < n; ++k)
        {
            segs_t q = p;
            int c = r.below(6);
            if (c == 0) q.clear();
            else if (c == 1) { segs_t t; pick(t); q = t; }
            else if (c == 2 && !q.empty()) q.pop_back();
            else if (c == 3) { static const char* e[] = {"0", "k1", "x", "zz", "min", "v", "a", "items"}; q.push_back(e[r.below(8)]); if (r.chance(30)) q.push_back("x"); }
            else if (c == 4 && !q.empty()) { q.back() += r.chance(50) ? "1" : "x"; }
            kl::path kp{raw_path(r, q)};
            auto& mt = x.state.modifications;
            std::uint64_t g = std::uint64_t(r.below(int(top) + 2));
            auto at = std::uint64_t(r.chance(50) ? mt.changed_at(kp) : mt.changed_at(kp.view()));
            bool since = r.chance(50) ? mt.changed_since(kp, kr::modification_tracker::generation{g}) : mt.changed_since(kp.view(), kr::modification_tracker::generation{g});
            o += (k ? ",[" : "[") + texts_json(q) + "," + std::to_string(at) + "," + std::to_string(g) + "," + (since ? "true" : "false") + "]";
        }
        return o + "]";
    }
    void pick(segs_t& p)
    {
        int n = 0;
        segs_t s;
        auto cnt = [&](auto&, segs_t&) { ++n; };
        each_node(res.value, s, cnt);
        int k = r.below(n);
        auto get = [&](auto&, segs_t& q) { if (k-- == 0) p = q; };
        each_node(res.value, s, get);
    }
    Req make()
    {
        Req q;
        int c = r.below(100);
        q.m = c < 8 ? "get" : c < 38 ? "put" : c < 60 ? "patch" : c < 78 ? "post" : "delete";
        int n = 0;
        segs_t s;
        // half of the POSTs go to nodes that are sequences
        bool seqs = q.m == "post" && r.chance(75);
        auto ok = [&](auto& x) { return !seqs || is_cont<std::decay_t<decltype(x)>>; };
        auto cnt = [&](auto& x, segs_t&) { if (ok(x)) ++n; };
        each_node(res.value, s, cnt);
        int k = r.below(n);
        auto get = [&](auto& x, segs_t& p) { if (ok(x) && k-- == 0) { q.p = p; body(r, x, q.m, q.d); } };
        each_node(res.value, s, get);
        if (r.chance(10)) alter(q.p);
        return q;
    }
    void emit(const std::string& e) { out += (out.empty() ? "" : ",") + e; }
    void perform(Req& q, bool copy)
    {
        kr::resource<Root> dup = copy ? res : kr::resource<Root>{};
        kr::resource<Root>& x = copy ? dup : res;
        std::string raw = raw_path(r, q.p);
        std::string e = "{\"o\":\"" + std::string(copy ? "try" : "req") + "\",\"m\":\"" + q.m + "\",\"p\":" + segs_json(q.p) + ",\"raw\":" + jstr(raw) + ",\"j\":" + doc(q.d, true);
        kl::path kp{raw};
        int st = 0;
        std::string bd;
        bool parsed = false;
        try
        {
            kj::deserialize_context ctx;
            kr::operation_result o{};
            const rapidjson::Value& d = q.d;
            if (q.m == "get") o = kr::get(x, kp, [](const auto& v) -> std::string { try { return kj::dump(v); } catch (std::logic_error&) { return "!"; } });
            else if (q.m == "put") o = kr::put(x, kp, d, ctx);
            else if (q.m == "patch") o = kr::patch(x, kp, d, ctx);
            else if (q.m == "post") o = kr::post(x, kp, d, ctx);
            else o = kr::del(x, kp, ctx);
            st = int(o.status);
            bd = o.body;
            parsed = q.m == "get" && st == 200;
        }
        catch (std::runtime_error& ex) { st = std::string(ex.what()) == "boom" ? 999 : 998; }
        catch (std::exception&) { st = 998; }
        if (parsed && bd != "!")
        {
            rapidjson::Document b;
            b.Parse(bd.data(), bd.size());
            bd = b.HasParseError() ? "[\"bad\"]" : doc(b, false);
        }
        else bd = parsed ? "[\"err\"]" : "[\"s\"," + jstr(bd) + "]";
        std::string now = val(x.value);
        e += ",\"st\":" + std::to_string(st) + ",\"body\":" + bd + ",\"v\":" + (now == cur ? "[\"same\"]" : now) + ",\"gen\":" + std::to_string(std::uint64_t(x.state.modifications.current())) +
             ",\"q\":" + queries(x, q.p) + "}";
        if (!copy) cur = now;
        emit(e);
    }
    void look()
    {
        Req q = make();
        kl::path kp{raw_path(r, q.p)};
        std::string e = "{\"o\":\"see\",\"p\":" + segs_json(q.p) + ",\"r\":";
        try
        {
            rapidjson::Document a;
            kj::serialize_context ctx{a, true};
            auto v = r.chance(50) ? kr::serialize_at_path(res.value, kp.view(), ctx)
                                  : kr::visit_at_path<rapidjson::Value>(std::as_const(res.value), kp.view(), [&](auto f, auto&) { return kj::serialize(f.value(), ctx); });
            e += "[true," + doc(v, false) + "]";
        }
        catch (kr::resource_error&) { e += "[false]"; }
        catch (std::logic_error&) { e += "[true,[\"err\"]]"; }
        emit(e + "}");
        q.m = "put";
        Root c = res.value;
        e = "{\"o\":\"dat\",\"p\":" + segs_json(q.p) + ",\"j\":" + doc(q.d, true) + ",\"r\":";
        try
        {
            kj::deserialize_context ctx;
            kr::deserialize_at_path(c, kp.view(), static_cast<const rapidjson::Value&>(q.d), ctx);
            e += "[\"ok\"," + val(c) + "]";
        }
        catch (kr::resource_error&) { e += "[\"nf\"]"; }
        catch (kl::serialization::deserialize_error&) { e += "[\"bad\"]"; }
        emit(e + "}");
    }
    // the owner of the resource changes the value behind its back, to anything; then requests on copies
    void poke()
    {
        Root keep = res.value;
        tweak(r, res.value);
        if (r.chance(30)) tweak(r, res.value);
        auto set = [&] { cur = val(res.value); emit("{\"o\":\"set\",\"v\":" + cur + "}"); };
        set();
        std::vector<segs_t> opts;
        segs_t p;
        auto get = [&](auto& x, segs_t& q) { if (is_opt<std::decay_t<decltype(x)>>::value) opts.push_back(q); };
        each_node(res.value, p, get);
        for (int k = 0; k < 3; ++k) { Req q = make(); perform(q, true); }
        for (auto& o : opts) if (r.chance(opts.size() > 6 ? 25 : 70)) { Req q; q.m = "delete"; q.p = o; perform(q, true); }
        res.value = keep;
        set();
    }
    // a first value, by replacing the whole resource
    void seed()
    {
        for (int k = 0; k < 12; ++k)
        {
            Req q;
            q.m = "put";
            Root x{};
            gen(r, x);
            to_doc(r, x, q.d);
            auto g = res.state.modifications.current();
            perform(q, false);
            if (g != res.state.modifications.current()) return;
        }
    }
};
#define KV_CAT2(a, b) a##b
#define KV_CAT(a, b) KV_CAT2(a, b)
std::string KV_CAT(run_, ROOT)(const std::string& mode, hv::rng& r)
{
    using Root = rt::ROOT;
    session<Root> s(r);
    bool any = r.chance(15);               // start from any value at all, even one the validators refuse
    if (any) { gen(r, s.res.value); s.cur = val(s.res.value); }
    std::string init = s.cur;
    if (!any) s.seed();
    int n = mode == "sys" ? r.below(12) : 20 + r.below(25);
    for (int k = 0; k < n; ++k)
    {
        if (r.chance(5)) s.look();
        if (r.chance(5)) s.poke();
        Req q = s.make();
        s.perform(q, false);
        if (mode != "sys" && r.chance(10)) { Req t = s.make(); s.perform(t, true); }
    }
    if (mode == "sys")
    {   // every node, every method, each from the same state
        std::vector<Req> todo;
        segs_t p;
        auto add = [&](auto& x, segs_t& q) {
            for (const char* m : {"get", "put", "patch", "post", "delete"})
                if (r.chance(std::string(m) == "get" ? 20 : 60)) { todo.emplace_back(); todo.back().m = m; todo.back().p = q; body(r, x, m, todo.back().d); }
        };
        each_node(s.res.value, p, add);
        for (auto& q : todo) { if (r.chance(3)) s.alter(q.p); s.perform(q, true); }
    }
    return ",\"root\":\"" BOOST_PP_STRINGIZE(ROOT) "\",\"v\":" + init + ",\"ev\":[" + s.out + "]}";
}
