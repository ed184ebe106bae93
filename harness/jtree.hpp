// Writes C++ values and JSON documents as the tagged tuples of Serde.tla, without using kl's
// reflection or serialization, and draws random values and documents.
#pragma once
#include "common.hpp"
#include <rapidjson/document.h>
#include <rapidjson/writer.h>
#include <rapidjson/stringbuffer.h>
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/stringize.hpp>
#include <kl/enum_set.hpp>

namespace jt {
using hv::rng; using hv::jstr;

inline std::string limbs(bool neg, std::uint64_t m)
{
    const std::uint64_t M = (1u << 24) - 1;
    return "[" + std::string(neg && m ? "1" : "0") + "," + std::to_string(m >> 48) + "," + std::to_string((m >> 24) & M) + "," + std::to_string(m & M) + "]";
}
template <class I> std::string ilimbs(I x)
{
    bool neg = x < 0;
    std::uint64_t m = neg ? ~std::uint64_t(std::int64_t(x)) + 1 : std::uint64_t(x);
    return limbs(neg, m);
}
inline std::string dbits(double d)
{
    if (d == 0) d = 0;
    std::uint64_t u; std::memcpy(&u, &d, 8);
    char b[20]; std::snprintf(b, 20, "%016llx", (unsigned long long)u);
    return b;
}
inline std::string bits2(double d, double f) { return ",\"" + dbits(d) + "\",\"" + dbits(f) + "\""; }
// ------------------------------------------------------------------ documents
inline std::string doc(const rapidjson::Value& j, bool input)
{
    if (j.IsNull()) return "[\"n\"]";
    if (j.IsBool()) return j.GetBool() ? "[\"b\",true]" : "[\"b\",false]";
    if (j.IsString()) return "[\"s\"," + jstr(std::string(j.GetString(), j.GetStringLength())) + "]";
    if (j.IsUint64()) return "[\"i\"," + ilimbs(j.GetUint64()) + (input ? bits2((double)j.GetUint64(), (float)(double)j.GetUint64()) : "") + "]";
    if (j.IsInt64()) return "[\"i\"," + ilimbs(j.GetInt64()) + (input ? bits2((double)j.GetInt64(), (float)(double)j.GetInt64()) : "") + "]";
    if (j.IsDouble()) return "[\"d\",\"" + dbits(j.GetDouble()) + "\"" + (input ? ",\"" + dbits((float)j.GetDouble()) + "\"]" : "]");
    std::string o;
    if (j.IsArray())
    {
        o = "[\"a\",[";
        bool first = true;
        for (auto& x : j.GetArray()) { if (!first) o += ','; first = false; o += doc(x, input); }
        return o + "]]";
    }
    o = "[\"m\",[";
    bool first = true;
    for (auto& m : j.GetObject())
    {
        if (!first) o += ',';
        first = false;
        o += "[" + jstr(std::string(m.name.GetString(), m.name.GetStringLength())) + "," + doc(m.value, input) + "]";
    }
    return o + "]]";
}
// ------------------------------------------------------------------ values
struct any_fn { template <class... X> void operator()(X&&...) const {} };
template <class T, class = void> struct has_each : std::false_type {};
template <class T> struct has_each<T, std::void_t<decltype(kv_each(std::declval<T&>(), any_fn{}))>> : std::true_type {};
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};
template <class T> struct is_eset : std::false_type {};
template <class T> struct is_eset<kl::enum_set<T>> : std::true_type {};
template <class T, class = void> struct is_map : std::false_type {};
template <class T> struct is_map<T, std::void_t<typename T::mapped_type>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <class A, class B> struct is_tup<std::pair<A, B>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, std::size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
// enumerations: names(E) gives a vector of (value, name); empty: written by underlying value
template <class E> std::vector<std::pair<E, std::string>> kv_names(E) { return {}; }

template <class T> std::string val(const T& x)
{
    if constexpr (has_each<T>::value)
    {
        std::string o = "[\"r\",[";
        bool first = true;
        kv_each(const_cast<T&>(x), [&](const char* n, auto& m) {
            if (!first) o += ',';
            first = false;
            o += "[" + jstr(n) + "," + val(m) + "]";
        });
        return o + "]]";
    }
    else if constexpr (std::is_same_v<T, bool>) return x ? "[\"b\",true]" : "[\"b\",false]";
    else if constexpr (std::is_integral_v<T>) return "[\"i\"," + ilimbs(x) + "]";
    else if constexpr (std::is_floating_point_v<T>) return "[\"d\",\"" + dbits(x) + "\"]";
    else if constexpr (std::is_enum_v<T>)
    {
        for (auto& p : kv_names(T{})) if (p.first == x) return "[\"s\"," + jstr(p.second) + "]";
        return "[\"i\"," + ilimbs(std::underlying_type_t<T>(x)) + "]";
    }
    else if constexpr (std::is_convertible_v<T, std::string>) return "[\"s\"," + jstr(x) + "]";
    else if constexpr (is_opt<T>::value) return x ? "[\"o\"," + val(*x) + "]" : "[\"n\"]";
    else if constexpr (is_eset<T>::value)
    {
        std::string o = "[\"a\",[";
        bool first = true;
        using E = typename T::enum_type;
        for (auto& p : kv_names(E{}))
            if (std::underlying_type_t<E>(x.underlying_value()) & std::underlying_type_t<E>(p.first))
            { if (!first) o += ','; first = false; o += "[\"s\"," + jstr(p.second) + "]"; }
        return o + "]]";
    }
    else if constexpr (is_tup<T>::value)
    {
        std::string o = "[\"a\",[";
        bool first = true;
        std::apply([&](auto&... e) { (((first ? "" : o += ","), first = false, o += val(e)), ...); }, x);
        return o + "]]";
    }
    else if constexpr (is_map<T>::value)
    {
        std::string o = "[\"m\",[";
        bool first = true;
        for (auto& p : x) { if (!first) o += ','; first = false; o += "[" + jstr(p.first) + "," + val(p.second) + "]"; }
        return o + "]]";
    }
    else
    {
        std::string o = "[\"a\",[";
        bool first = true;
        for (auto& e : x) { if (!first) o += ','; first = false; o += val(e); }
        return o + "]]";
    }
}
// ------------------------------------------------------------------ random values
inline std::uint64_t rand_u64(rng& r)
{
    switch (r.below(5))
    {
    case 0: return std::uint64_t(r.below(4));
    case 1: { int b = r.below(64); return (std::uint64_t(1) << b) + std::uint64_t(r.below(3)) - 1; }
    case 2: return std::uint64_t(0) - std::uint64_t(r.below(3)) ;
    case 3: return std::uint64_t(r.below(300));
    default: return r.next();
    }
}
inline std::string rand_str(rng& r)
{
    static const char* v[] = {"", "a", "b", "red", "x1", "x7", "quote\"back\\slash", "tab\tnl\n", "\x01\x1f", "\xc3\xa9\xe2\x82\xac", "/", "0", "null", "key with space"};
    if (r.chance(6)) return std::string("nul\0in", 6);
    return v[r.below(int(sizeof v / sizeof *v))];
}
inline double rand_dbl(rng& r)
{
    static const double v[] = {0, 1, -1, 0.5, -2.25, 1024, 1e10, -0.125, 3, 255, 65536, 0.1, 123456.789};
    return v[r.below(int(sizeof v / sizeof *v))];
}
inline std::vector<std::string>& key_pool() { static std::vector<std::string> k{"k1", "k2", "k3", "a", "x", ""}; return k; }
inline std::string rand_key(rng& r) { auto& k = key_pool(); return k[r.below(int(k.size()))]; }

template <class T, class = void> struct has_gen : std::false_type {};
template <class T> struct has_gen<T, std::void_t<decltype(std::declval<T&>().kv_gen(std::declval<rng&>()))>> : std::true_type {};
template <class T> void gen(rng& r, T& x, int d = 0)
{
    if constexpr (has_gen<T>::value) x.kv_gen(r);
    else if constexpr (has_each<T>::value) kv_each(x, [&](const char*, auto& m) { gen(r, m, d + 1); });
    else if constexpr (std::is_same_v<T, bool>) x = r.chance(50);
    else if constexpr (std::is_integral_v<T>) { x = r.chance(40) ? T(r.below(12) - 2) : static_cast<T>(rand_u64(r)); }
    else if constexpr (std::is_floating_point_v<T>) x = T(rand_dbl(r));
    else if constexpr (std::is_enum_v<T>)
    {
        auto n = kv_names(T{});
        if (n.empty()) x = T(r.below(100) - 50); else x = n[r.below(int(n.size()))].first;
    }
    else if constexpr (std::is_same_v<T, std::string>) x = rand_str(r);
    else if constexpr (is_opt<T>::value)
    {
        if (r.chance(35)) x.reset(); else { typename T::value_type e{}; gen(r, e, d + 1); x = e; }
    }
    else if constexpr (is_eset<T>::value)
    {
        x = T{};
        for (auto& p : kv_names(typename T::enum_type{})) if (r.chance(50)) x |= p.first;
    }
    else if constexpr (is_tup<T>::value) std::apply([&](auto&... e) { (gen(r, e, d + 1), ...); }, x);
    else if constexpr (is_map<T>::value)
    {
        x.clear();
        for (int n = r.below(d > 2 ? 2 : 4); n > 0; --n) { typename T::mapped_type e{}; gen(r, e, d + 1); x[r.chance(12) ? rand_str(r) : rand_key(r)] = e; }
    }
    else if constexpr (is_arr<T>::value) { for (auto& e : x) gen(r, e, d + 1); }
    else if constexpr (std::is_class_v<T>)
    {
        x.clear();
        for (int n = r.below(d > 2 ? 2 : 4); n > 0; --n) { typename T::value_type e{}; gen(r, e, d + 1); x.push_back(e); }
    }
}
// ------------------------------------------------------------------ random documents by mutation
using A = rapidjson::Document::AllocatorType;
inline rapidjson::Value sv(const std::string& s, A& a) { return rapidjson::Value(s.data(), rapidjson::SizeType(s.size()), a); }
inline rapidjson::Value rand_scalar(rng& r, A& a)
{
    switch (r.below(9))
    {
    case 0: return rapidjson::Value();
    case 1: return rapidjson::Value(r.chance(50));
    case 2: case 3: { std::uint64_t u = rand_u64(r); return r.chance(50) ? rapidjson::Value(u) : rapidjson::Value(std::int64_t(u)); }
    case 4: return rapidjson::Value(r.below(12) - 2);
    case 5: return rapidjson::Value(rand_dbl(r));
    case 6: return sv(rand_str(r), a);
    case 7: return r.chance(50) ? rapidjson::Value(rapidjson::kObjectType) : rapidjson::Value(rapidjson::kArrayType);
    default:
    {
        static const std::int64_t e[] = {127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL};
        return rapidjson::Value(e[r.below(18)]);
    }
    }
}
inline void collect(rapidjson::Value& j, std::vector<rapidjson::Value*>& out)
{
    out.push_back(&j);
    if (j.IsArray()) for (auto& x : j.GetArray()) collect(x, out);
    else if (j.IsObject()) for (auto& m : j.GetObject()) collect(m.value, out);
}
inline bool has(const rapidjson::Value& o, const std::string& k) { return o.FindMember(sv(k, *std::make_unique<A>())) != o.MemberEnd(); }
inline void mutate(rng& r, rapidjson::Value& root, A& a, const std::vector<std::string>& names)
{
    std::vector<rapidjson::Value*> n;
    collect(root, n);
    // containers and the root are picked as often as leaves
    rapidjson::Value* x = n[r.below(int(n.size()))];
    if (r.chance(25)) x = &root;
    auto fresh = [&](rapidjson::Value& o) {
        std::string k = r.chance(75) && !names.empty() ? names[r.below(int(names.size()))] : rand_key(r);
        for (auto& m : o.GetObject()) if (k == std::string(m.name.GetString(), m.name.GetStringLength())) return std::string("\xff");
        return k;
    };
    static const char* other[][2] = {{"al", "al2"}, {"al", "al3"}, {"al2", "al3"}, {"r2", "r2old"}, {"r2", "both"}, {"oal", "oal2"}, {"a_def", "adef2"}, {"amiss", "amiss2"}, {"fdd", "fdz"}, {"b", "bb"}};
    if (x->IsObject() && r.chance(15))
    {   // a member under two of its names at once
        for (int k = r.below(10), n = 0; n < 10; ++n, k = (k + 1) % 10)
        {
            auto at = x->FindMember(rapidjson::StringRef(other[k][0]));
            if (at == x->MemberEnd() || x->FindMember(rapidjson::StringRef(other[k][1])) != x->MemberEnd()) continue;
            rapidjson::Value copy(at->value, a);
            if (r.chance(50)) at->value = r.chance(60) ? rapidjson::Value() : rand_scalar(r, a);
            x->AddMember(sv(other[k][1], a), r.chance(60) ? std::move(copy) : rand_scalar(r, a), a);
            return;
        }
    }
    if (x->IsObject() && r.chance(85))
    {
        int c = x->MemberCount() ? r.below(10) : 4;
        auto it = x->MemberBegin();
        if (x->MemberCount()) it += r.below(int(x->MemberCount()));
        if (c < 3) x->RemoveMember(it);
        else if (c == 3) it->value = rapidjson::Value();
        else if (c == 4) { std::string k = fresh(*x); if (k != "\xff") x->AddMember(sv(k, a), rand_scalar(r, a), a); }
        else if (c < 7) { std::string k = fresh(*x); if (k != "\xff") it->name = sv(k, a); }
        else if (c == 7 || c == 8)
        {   // positional form
            rapidjson::Value arr(rapidjson::kArrayType);
            for (auto& m : x->GetObject()) arr.PushBack(m.value, a);
            *x = std::move(arr);
        }
        else it->value = rand_scalar(r, a);
    }
    else if (x->IsArray() && r.chance(85))
    {
        int c = r.below(4);
        if (c == 0 && !x->Empty()) x->PopBack();
        else if (c == 1) x->PushBack(rand_scalar(r, a), a);
        else if (c == 2 && !x->Empty()) (*x)[rapidjson::SizeType(r.below(int(x->Size())))] = rand_scalar(r, a);
        else if (c == 3 && !x->Empty()) x->Erase(x->Begin() + r.below(int(x->Size())));
    }
    else *x = rand_scalar(r, a);
}
// what an error says: its words, and the words of each of its lines ("*": a quoted NUL cuts the text short, nothing can be said)
inline std::string words(const std::string& w)
{
    std::set<std::string> t;
    std::string cur;
    for (char c : w + " ")
        if (std::isalnum((unsigned char)c) || c == '_') cur += c;
        else { if (!cur.empty()) t.insert(cur); cur.clear(); }
    std::string o = "[";
    for (auto& s : t) { if (o.size() > 1) o += ","; o += jstr(s); }
    return o + "]";
}
inline std::string failure(const char* what, const std::string& doc)
{
    if (doc.find("\\u0000") != std::string::npos) return "[false,[\"*\"],[]]";
    std::string o = "[false," + words(what) + ",[", line;
    std::istringstream in{std::string(what)};
    for (bool first = true; std::getline(in, line); first = false) o += (first ? "" : ",") + words(line);
    return o + "]]";
}
} // namespace jt

#define KV_EACH_ONE(r, data, m) f(BOOST_PP_STRINGIZE(m), x.m);
#define KV_EACH(T, seq) template <class Fn> void kv_each(T& x, Fn f) { BOOST_PP_SEQ_FOR_EACH(KV_EACH_ONE, _, seq) }
