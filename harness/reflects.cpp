// reflects <seed> <start> <count> <out>: uses of struct reflection on the generated types, one line per program
#include "common.hpp"
#include <kl/ctti.hpp>
#include <optional>
#include <set>
using hv::rng; using std::string;

namespace rt {
static int g_next = 0;
static int next() { return ++g_next % 2 ? (g_next * 7) % 120 : (g_next * 11) % 120; }
enum class E : int {};
struct Pt { int x, y; };
template <typename T> struct tr;
template <> struct tr<int> { static int mk(int k) { return k; } static int un(int v) { return v; } static constexpr const char* n = "i"; };
template <> struct tr<unsigned char> { static unsigned char mk(int k) { return (unsigned char)k; } static int un(unsigned char v) { return v; } static constexpr const char* n = "u"; };
template <> struct tr<double> { static double mk(int k) { return k; } static int un(double v) { return int(v); } static constexpr const char* n = "d"; };
template <> struct tr<string> { static string mk(int k) { return "s" + std::to_string(k); } static int un(const string& v) { return v.empty() ? -1 : std::atoi(v.c_str() + 1); } static constexpr const char* n = "s"; };
template <> struct tr<bool> { static bool mk(int k) { return k % 2; } static int un(bool v) { return v; } static constexpr const char* n = "b"; };
template <> struct tr<E> { static E mk(int k) { return E(k); } static int un(E v) { return int(v); } static constexpr const char* n = "e"; };
template <> struct tr<std::vector<int>> { static std::vector<int> mk(int k) { return {k, k + 1}; } static int un(const std::vector<int>& v) { return v.size() == 2 && v[1] == v[0] + 1 ? v[0] : -1; } static constexpr const char* n = "v"; };
template <> struct tr<std::pair<int, int>> { static std::pair<int, int> mk(int k) { return {k, -k}; } static int un(const std::pair<int, int>& v) { return v.second == -v.first ? v.first : -1; } static constexpr const char* n = "p"; };
template <> struct tr<Pt> { static Pt mk(int k) { return {k, k + 5}; } static int un(const Pt& v) { return v.y == v.x + 5 ? v.x : -1; } static constexpr const char* n = "n"; };
template <> struct tr<std::optional<int>> { static std::optional<int> mk(int k) { return k; } static int un(const std::optional<int>& v) { return v ? *v : -1; } static constexpr const char* n = "o"; };
template <typename T> T mk(int k) { return tr<T>::mk(k); }
template <typename T> int un(const T& v) { return tr<T>::un(v); }
struct places
{
    std::vector<std::pair<string, std::pair<const void*, int>>> v;
    template <typename T> void add(const char* n, const T& m) { v.push_back({n, {std::addressof(m), un(m)}}); }
    string id(const void* p) const { for (auto& e : v) if (e.second.first == p) return e.first; return "?"; }
    string dump() const { string o = "["; for (auto& e : v) o += (o.size() > 1 ? "," : "") + string("[\"") + e.first + "\"," + std::to_string(e.second.second) + "]"; return o + "]"; }
};
// attributes: A2 -> A1 -> A0; AB -> A0, B0; PV hides its A0
static std::set<string> g_ev;
struct A0 { int v; explicit A0(int k, const char* who = "A0") : v(k) { g_ev.insert(who); } };
struct A1 : A0 { explicit A1(int k, const char* who = "A1") : A0(k, who) {} };
struct A2 : A1 { explicit A2(int k) : A1(k, "A2") {} };
struct B0 { int w; explicit B0(int k, const char* who = "B0") : w(k) { g_ev.insert(who); } };
struct AB : A0, B0 { explicit AB(int k) : A0(k, "AB"), B0(k + 1000, "AB") {} };
struct PV : private A0 { int own; explicit PV(int k) : A0(-7, "PV"), own(k) {} };
struct RT { string s; explicit RT(string t) : s(std::move(t)) { g_ev.insert("RT"); } };
static int ev_int(int k) { g_ev.insert("int"); return k; }
static int av(const A0& a) { return a.v; }
static int av(const B0& b) { return b.w; }
static int av(const AB& b) { return b.v; }
static int av(const PV& p) { return p.own; }
static int av(const RT& t) { return std::atoi(t.s.c_str()); }
static int av(const int& k) { return k; }
static const char* an(const A0&) { return "A0"; }
static const char* an(const A1&) { return "A1"; }
static const char* an(const A2&) { return "A2"; }
static const char* an(const B0&) { return "B0"; }
static const char* an(const AB&) { return "AB"; }
static const char* an(const PV&) { return "PV"; }
static const char* an(const RT&) { return "RT"; }
static const char* an(const int&) { return "int"; }
struct boom {};
}

#include TYPES

static const char* tf(bool b) { return b ? "true" : "false"; }
static string L;        // the record being written
static void sep(char open) { if (!L.empty() && L.back() != open) L += ','; }
static void put_attr(const char* n, int v) { sep('['); L += string("[\"") + n + "\"," + std::to_string(v) + "]"; }
static void put_query(const char* n, bool has, int get) { sep('['); L += string("[\"") + n + "\"," + tf(has) + "," + std::to_string(get) + ",["; }
static void put_val(int v) { sep('['); L += std::to_string(v); }
struct all_attrs { template <typename A> void operator()(const A& a) const { put_attr(rt::an(a), rt::av(a)); } };
template <typename Q> struct q_attrs { void operator()(const Q& a) const { put_val(rt::av(a)); } };
template <typename Q, typename Field> void query(const Field& f, const char* n)
{
    const Q* g = f.template get<Q>();
    put_query(n, f.template has<Q>(), g ? rt::av(*g) : -1);
    f.template visit_attributes<Q>(q_attrs<Q>{});
    L += "]]";
}
template <bool Full, typename Field> void attrs_of(const Field& f)
{
    L += ",\"a\":[";
    f.visit_attributes(all_attrs{});
    L += "],\"q\":[";
    if constexpr (Full)
    {
        query<rt::A0>(f, "A0"); query<rt::A1>(f, "A1"); query<rt::A2>(f, "A2"); query<rt::B0>(f, "B0");
        query<rt::AB>(f, "AB"); query<rt::PV>(f, "PV"); query<rt::RT>(f, "RT"); query<int>(f, "int");
    }
    L += "]";
}
static void put_head(const char* name, const char* ty) { sep('['); L += string("{\"n\":\"") + name + "\",\"ty\":\"" + ty + "\""; }
static void put_tail(bool c, bool l, int v, const string& id) { L += string(",\"c\":") + tf(c) + ",\"l\":" + tf(l) + ",\"v\":" + std::to_string(v) + ",\"id\":\"" + id + "\"}"; }
template <bool Full, typename Field> void head_of(const Field& f)
{
    put_head(f.name(), rt::tr<typename Field::value_type>::n);
    attrs_of<Full>(f);
}
struct vis_state { rt::places before, after; int k = 0, w = 0, val = 0, stop = 0; bool wrote = false, thrown = false; };
template <bool Full> struct vis_fn
{
    vis_state& s;
    template <typename Field> void operator()(Field field) const
    {
        ++s.k;
        head_of<Full>(field);
        decltype(auto) v = field.value();
        using V = decltype(field.value());
        using U = std::remove_reference_t<V>;
        string id;
        if constexpr (std::is_lvalue_reference_v<V>) id = s.before.id(std::addressof(v));
        put_tail(std::is_const_v<U>, std::is_lvalue_reference_v<V>, rt::un(v), id);
        if constexpr (std::is_lvalue_reference_v<V> && !std::is_const_v<U>)
            if (s.k == s.w) { v = rt::mk<U>(s.val); s.val = rt::un(v); s.wrote = true; }
        if (s.k == s.stop) throw rt::boom{};
    }
};
static void vis_begin(rng& r, vis_state& s, int n, bool co)
{
    s.w = r.chance(60) ? 1 + r.below(n + 1) : 0;
    s.val = r.below(120);
    s.stop = r.chance(15) ? 1 + r.below(n + 1) : 0;
    L += string(",{\"o\":\"vis\",\"co\":") + tf(co) + ",\"f\":[";
}
static void vis_end(const vis_state& s)
{
    L += "],\"w\":" + std::to_string(s.w) + ",\"val\":" + std::to_string(s.val) + ",\"wrote\":" + tf(s.wrote) + ",\"stop\":" + std::to_string(s.stop) + ",\"thrown\":" + tf(s.thrown) + ",\"s\":" + s.after.dump() + "}";
}
template <typename O> void visit(rng& r, O&& obj)
{
    constexpr bool co = std::is_const_v<std::remove_reference_t<O>>;
    vis_state s;
    obj.where(s.before);
    vis_begin(r, s, int(kl::ctti::num_fields<O>()), co);
    try { kl::ctti::reflect_object(std::forward<O>(obj), vis_fn<co>{s}); }
    catch (const rt::boom&) { s.thrown = true; }
    obj.where(s.after);
    vis_end(s);
}
template <bool Full> struct type_fn { template <typename Field> void operator()(const Field& f) const { head_of<Full>(f); L += "}"; } };
static void type_begin(const char* flt) { rt::g_ev.clear(); L += string(",{\"o\":\"type\",\"flt\":[") + flt + "],\"f\":["; }
static void type_end() { L += "],\"ev\":["; for (auto& e : rt::g_ev) { sep('['); L += "\"" + e + "\""; } L += "]}"; }
template <typename T, typename Filter, bool Full = false> void by_type(const char* flt) { type_begin(flt); kl::ctti::reflect_type<T, Filter>(type_fn<Full>{}); type_end(); }
static void put_any(const char* qs, bool r) { L += string(",{\"o\":\"any\",\"qs\":[") + qs + "],\"r\":" + tf(r) + "}"; }
template <typename T, typename... Q> void any(const char* qs) { put_any(qs, kl::ctti::has_any_attribute<T, Q...>()); }
using kl::ctti::any_attribute_filter;
template <typename T> void use(rng& r, const char* name)
{
    L += string(",{\"o\":\"num\",\"t\":\"") + name + "\",\"n\":" + std::to_string(kl::ctti::num_fields<T>()) + ",\"is\":" + tf(kl::ctti::is_reflectable_v<T>) + ",\"not\":" + tf(kl::ctti::is_reflectable_v<rt::Pt>) + ",\"name\":\"" + kl::ctti::name<const T&>() + "\"}";
    T obj;
    rt::places p;
    obj.where(p);
    L += ",{\"o\":\"new\",\"s\":" + p.dump() + "}";
    for (int k = 0; k < 4; ++k)
        switch (r.below(9))
        {
        case 0: case 1: visit(r, obj); break;
        case 2: visit(r, std::as_const(obj)); break;
        case 3: visit(r, std::move(obj)); break;
        case 4: by_type<T, kl::ctti::all_attributes_filter, true>("\"*\""); break;
        case 5: by_type<T, any_attribute_filter<rt::B0, int>>("\"B0\",\"int\""); break;
        case 6: if (r.chance(30)) by_type<T, any_attribute_filter<>>(""); else by_type<const T&, any_attribute_filter<rt::A1>>("\"A1\""); break;
        case 7: any<T, rt::A0>("\"A0\""); break;
        default: any<T, rt::RT, rt::AB>("\"RT\",\"AB\"");
        }
}
struct each_fn { rng& r; template <typename T> void operator()(kl::type_t<T>, const char* name) const { use<T>(r, name); } };
int main(int, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        rng r(seed * 1000003 + std::uint64_t(q));
        rt::g_next = r.below(1000);
        std::fprintf(f, "{\"idx\":%d,\"ev\":[%s", q, DECLS);
        std::fflush(f);
        L.clear();
        each_type(each_fn{r});
        std::fprintf(f, "%s]}\n", L.c_str());
    }
    std::fclose(f);
}
