// The declared types whose serialization is specified in spec/SerdeTypes.tla.
#pragma once
#include "jtree.hpp"
#ifdef KV_YAML
#include <kl/yaml.hpp>
#else
#include <kl/json.hpp>
#endif
#include <kl/reflect_enum.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <deque>
#include <list>

namespace st {
namespace at = kl::serialization::attributes;
using std::optional; using std::string; using std::vector; using std::map;

enum class Color { red, green, blue };
KL_REFLECT_ENUM(Color, red, green, (blue, navy))
inline std::vector<std::pair<Color, string>> kv_names(Color) { return {{Color::red, "red"}, {Color::green, "green"}, {Color::blue, "navy"}}; }
enum class Flag { fa = 1, fb = 2, fc = 4 };
KL_REFLECT_ENUM(Flag, fa, fb, fc)
inline std::vector<std::pair<Flag, string>> kv_names(Flag) { return {{Flag::fa, "fa"}, {Flag::fb, "fb"}, {Flag::fc, "fc"}}; }
enum class Raw : std::int8_t { zero };
inline std::vector<std::pair<Raw, string>> kv_names(Raw) { return {}; }

struct Hex
{
    int v = 0;
    operator string() const { return "x" + std::to_string(v); }
    void kv_gen(hv::rng& r) { v = r.below(10); }
};
} // namespace st

template <> struct kl::serialization::serializer<st::Hex>
{
    template <class Context> static auto serialize(const st::Hex& h, Context& ctx) { return serialization::serialize(std::string(h), ctx); }
    template <class Context> static void dump(const st::Hex& h, Context& ctx) { serialization::dump(std::string(h), ctx); }
    template <class Value, class Context> static void deserialize(st::Hex& h, const Value& v, Context& ctx)
    {
        auto s = serialization::deserialize<std::string>(v, ctx);
        if (s.size() != 2 || s[0] != 'x' || s[1] < '0' || s[1] > '9') throw deserialize_error{"not a hex"};
        h.v = s[1] - '0';
    }
    template <class Value, class Context> static void patch(st::Hex& h, const Value& v, Context& ctx) { deserialize(h, v, ctx); }
};

namespace st {
// hand-written serializers made of the builder and extractor helpers
struct ExtO { int num = 0; optional<string> txt; vector<int> nums; };
KV_EACH(ExtO, (num)(txt)(nums))
struct ExtA { int first = 0; optional<string> second; std::uint8_t third = 0; };
KV_EACH(ExtA, (first)(second)(third))
} // namespace st
#ifdef KV_YAML
template <> struct kl::serialization::serializer<st::ExtO>
{
    template <class Context> static auto serialize(const st::ExtO& x, Context& ctx)
    {
        std::string dyn = std::string("t") + "xt";
        return yaml::to_map(ctx).add("num", x.num).add(dyn, x.txt).add("nums", x.nums).done();
    }
    template <class Context> static void dump(const st::ExtO& x, Context& ctx)
    {
        yaml::serialize_context c{false};
        yaml::dump(yaml::view{serialize(x, c)}, ctx);
    }
    template <class Value, class Context> static void deserialize(st::ExtO& x, const Value& v, Context& ctx)
    {
        yaml::from_map(v, ctx).extract("num", x.num).extract("txt", x.txt).extract("nums", x.nums);
    }
    template <class Value, class Context> static void patch(st::ExtO& x, const Value& v, Context& ctx) { deserialize(x, v, ctx); }
};
template <> struct kl::serialization::serializer<st::ExtA>
{
    template <class Context> static auto serialize(const st::ExtA& x, Context& ctx) { return yaml::to_sequence(ctx).add(x.first).add(x.second).add(x.third).done(); }
    template <class Context> static void dump(const st::ExtA& x, Context& ctx)
    {
        yaml::serialize_context c{false};
        yaml::dump(yaml::view{serialize(x, c)}, ctx);
    }
    template <class Value, class Context> static void deserialize(st::ExtA& x, const Value& v, Context& ctx)
    {
        yaml::from_sequence(v, ctx).extract(x.second, 1).extract(x.third).extract(x.first, 0);
    }
    template <class Value, class Context> static void patch(st::ExtA& x, const Value& v, Context& ctx) { deserialize(x, v, ctx); }
};
#else
template <> struct kl::serialization::serializer<st::ExtO>
{
    template <class Context> static auto serialize(const st::ExtO& x, Context& ctx)
    {
        std::string dyn = std::string("t") + "xt";
        return json::to_object(ctx).add("num", x.num).add_dynamic_name(dyn, x.txt).add("nums", x.nums).done();
    }
    template <class Context> static void dump(const st::ExtO& x, Context& ctx)
    {
        json::owning_serialize_context c{false};
        rapidjson::Value v = serialize(x, c);
        json::dump(json::view{v}, ctx);
    }
    template <class Value, class Context> static void deserialize(st::ExtO& x, const Value& v, Context& ctx)
    {
        json::from_object(v, ctx).extract("num", x.num).extract("txt", x.txt).extract("nums", x.nums);
    }
    template <class Value, class Context> static void patch(st::ExtO& x, const Value& v, Context& ctx) { deserialize(x, v, ctx); }
};
template <> struct kl::serialization::serializer<st::ExtA>
{
    template <class Context> static auto serialize(const st::ExtA& x, Context& ctx) { return json::to_array(ctx).add(x.first).add(x.second).add(x.third).done(); }
    template <class Context> static void dump(const st::ExtA& x, Context& ctx)
    {
        json::owning_serialize_context c{false};
        rapidjson::Value v = serialize(x, c);
        json::dump(json::view{v}, ctx);
    }
    template <class Value, class Context> static void deserialize(st::ExtA& x, const Value& v, Context& ctx)
    {
        json::from_array(v, ctx).extract(x.second, 1).extract(x.third).extract(x.first, 0);
    }
    template <class Value, class Context> static void patch(st::ExtA& x, const Value& v, Context& ctx) { deserialize(x, v, ctx); }
};
#endif
namespace st {
struct Scalars
{
    bool b = false; std::int8_t i8 = 0; std::uint8_t u8 = 0; std::int16_t i16 = 0; std::uint16_t u16 = 0;
    std::int32_t i32 = 0; std::uint32_t u32 = 0; std::int64_t i64 = 0; std::uint64_t u64 = 0;
    double d = 0; float f = 0; string s; Color c = Color::red; Raw r = Raw::zero; Hex h;
};
KL_REFLECT_STRUCT(Scalars, b, i8, u8, i16, u16, i32, u32, i64, u64, d, f, s, c, r, h)
KV_EACH(Scalars, (b)(i8)(u8)(i16)(u16)(i32)(u32)(i64)(u64)(d)(f)(s)(c)(r)(h))

struct Boxes
{
    optional<int> oi; optional<string> os; vector<int> v; vector<optional<int>> vo; map<string, int> m;
    map<string, optional<int>> mo; std::unordered_map<string, int> um; std::tuple<int, string, optional<int>> t{};
    std::pair<int, bool> p{}; std::array<int, 3> a{}; std::array<optional<int>, 2> ao{}; kl::enum_set<Flag> es;
    std::deque<std::uint8_t> dq; std::list<bool> li;
};
KL_REFLECT_STRUCT(Boxes, oi, os, v, vo, m, mo, um, t, p, a, ao, es, dq, li)
KV_EACH(Boxes, (oi)(os)(v)(vo)(m)(mo)(um)(t)(p)(a)(ao)(es)(dq)(li))

struct Inner { int x = 0; optional<string> y; };
KL_REFLECT_STRUCT(Inner, x, y)
KV_EACH(Inner, (x)(y))

struct Nest
{
    Inner in; vector<Inner> vi; map<string, Inner> mi; optional<Inner> oi; std::tuple<Inner, int> ti{};
    vector<vector<int>> vv; map<string, vector<Inner>> mv; optional<vector<optional<Inner>>> ov; std::array<Inner, 2> ai{};
};
KL_REFLECT_STRUCT(Nest, in, vi, mi, oi, ti, vv, mv, ov, ai)
KV_EACH(Nest, (in)(vi)(mi)(oi)(ti)(vv)(mv)(ov)(ai))

struct Base1 { int ba = 0; string bs; };
KL_REFLECT_STRUCT(Base1, ba, bs)
struct Base2 { optional<int> bo; };
KL_REFLECT_STRUCT(Base2, bo)
struct Derived : Base1, Base2 { int dx = 0; };
KL_REFLECT_STRUCT_DERIVED(Derived, (Base1, Base2), dx)
KV_EACH(Derived, (ba)(bs)(bo)(dx))

struct Names
{
    int ren = 0; int al = 0; int both = 0; optional<int> oal;
};
KL_REFLECT_STRUCT(Names, (ren, at::rename("renamed")), (al, at::aliases("al2", "al3")), (both, at::rename("r2"), at::aliases("r2old", "both")),
                  (oal, at::aliases("oal2")))
KV_EACH(Names, (ren)(al)(both)(oal))

struct Defs
{
    int def = 1; string sdef = "init"; optional<int> odef; int miss = 11; optional<int> omiss = 12; int defmiss = 13; int adef = 14;
    Inner idef{}; vector<int> vmiss{1, 2}; int plain = 0; int amiss = 15;
};
KL_REFLECT_STRUCT(Defs, (def, at::default_value(42)), (sdef, at::default_value(string("dflt"))), (odef, at::default_value(7)), (miss, at::allow_missing),
                  (omiss, at::allow_missing), (defmiss, at::default_value(5), at::allow_missing), (adef, at::default_value(6), at::aliases("adef2"), at::rename("a_def")),
                  (idef, at::default_value(Inner{3, string("dd")})), (vmiss, at::allow_missing), plain, (amiss, at::allow_missing, at::aliases("amiss2")))
KV_EACH(Defs, (def)(sdef)(odef)(miss)(omiss)(defmiss)(adef)(idef)(vmiss)(plain)(amiss))

struct Skips
{
    int sk = 3; int sks = 4; int skd = 5; optional<int> sin; optional<int> en; string sie; vector<int> vie; map<string, int> mie;
    optional<int> plain; optional<Inner> eni; optional<string> both;
};
KL_REFLECT_STRUCT(Skips, (sk, at::skip), (sks, at::skip_serialization, at::allow_missing), (skd, at::skip_deserialization), (sin, at::skip_if_null), (en, at::emit_null),
                  (sie, at::skip_if_empty, at::default_value(string())), (vie, at::skip_if_empty, at::allow_missing), (mie, at::skip_if_empty, at::allow_missing), plain,
                  (eni, at::emit_null, at::rename("eni_r")), (both, at::emit_null, at::default_value(string("bd"))))
KV_EACH(Skips, (sk)(sks)(skd)(sin)(en)(sie)(vie)(mie)(plain)(eni)(both))

struct nonempty_v { template <class T> void operator()(const T& t) const { if (t.empty()) throw kl::serialization::deserialize_error{"empty"}; } };
struct engaged_v { template <class T> void operator()(const T& t) const { if (!t) throw kl::serialization::deserialize_error{"unset"}; } };
struct not4_v { void operator()(int t) const { if (t == 4) throw kl::serialization::deserialize_error{"four"}; } };
struct Vals
{
    int rng = 0; int ge = 0; int le = 0; string ne = "q"; int rngdef = 1; optional<int> eng = 1; int two = 1; int rngmiss = 50; vector<int> vne{1}; std::int64_t big = 0;
    void kv_gen(hv::rng& r)
    {   // mostly inside or just at the bounds
        rng = r.chance(8) ? (r.chance(50) ? -6 : 11) : r.below(16) - 5;
        ge = r.chance(8) ? -1 : r.below(3);
        le = r.chance(8) ? 101 : 100 - r.below(3);
        ne = r.chance(8) ? "" : "t";
        rngdef = r.chance(10) ? 6 * r.below(2) : 1 + r.below(5);
        if (r.chance(10)) eng.reset(); else eng = r.below(3);
        two = r.chance(15) ? 4 * r.below(2) : 1 + r.below(3);
        rngmiss = r.chance(10) ? 10 : r.below(10);
        vne.assign(r.chance(10) ? 0 : 1 + r.below(2), 7);
        big = (r.chance(50) ? 1 : -1) * (std::int64_t(4294967296) - r.below(3) + r.chance(8));
    }
};
KL_REFLECT_STRUCT(Vals, (rng, at::range(-5, 10)), (ge, at::greater_equal(0)), (le, at::less_equal(100)), (ne, at::validate(nonempty_v{})),
                  (rngdef, at::range(1, 5), at::default_value(99)), (eng, at::validate(engaged_v{})), (two, at::greater_equal(1), at::validate(not4_v{})),
                  (rngmiss, at::range(0, 9), at::allow_missing), (vne, at::validate(nonempty_v{}), at::rename("v_ne")), (big, at::range(std::int64_t(-4294967296), std::int64_t(4294967296))))
KV_EACH(Vals, (rng)(ge)(le)(ne)(rngdef)(eng)(two)(rngmiss)(vne)(big))

struct FlatIn
{
    int fa = 0; optional<int> fb; int fc = 0; int fd = 0; int fe = 21;
    void kv_gen(hv::rng& r) { fa = r.below(9); if (r.chance(40)) fb.reset(); else fb = r.below(9); fc = r.below(9); fd = r.below(9); fe = r.chance(10) ? 51 : r.below(51); }
};
KL_REFLECT_STRUCT(FlatIn, fa, fb, (fc, at::default_value(8)), (fd, at::rename("fdd"), at::aliases("fdz")), (fe, at::allow_missing, at::range(0, 50)))
KV_EACH(FlatIn, (fa)(fb)(fc)(fd)(fe))
struct Flat { int a = 0; FlatIn in; int z = 31; };
KL_REFLECT_STRUCT(Flat, a, (in, at::flatten), (z, at::allow_missing))
KV_EACH(Flat, (a)(in)(z))
struct FlatMid { optional<int> q; FlatIn deep; };
KL_REFLECT_STRUCT(FlatMid, q, (deep, at::flatten))
KV_EACH(FlatMid, (q)(deep))
struct FlatDeep { FlatMid mid; int p = 0; };
KL_REFLECT_STRUCT(FlatDeep, (mid, at::flatten), p)
KV_EACH(FlatDeep, (mid)(p))

struct Extra { int a = 0; int b = 0; map<string, int> ex; int hidden = 41; int silent = 42; };
KL_REFLECT_STRUCT(Extra, a, (b, at::aliases("bb")), (ex, at::extra_fields), (hidden, at::skip_deserialization), (silent, at::skip_serialization, at::allow_missing))
KV_EACH(Extra, (a)(b)(ex)(hidden)(silent))
struct ExtraRec { string id; map<string, Inner> ex; };
KL_REFLECT_STRUCT(ExtraRec, id, (ex, at::extra_fields))
KV_EACH(ExtraRec, (id)(ex))
struct ExtraOpt { map<string, optional<int>> ex; optional<int> o; };
KL_REFLECT_STRUCT(ExtraOpt, (ex, at::extra_fields, at::skip_if_empty), o)
KV_EACH(ExtraOpt, (ex)(o))
struct FlatExtra { int a = 0; FlatIn in; map<string, int> ex; };
KL_REFLECT_STRUCT(FlatExtra, a, (in, at::flatten), (ex, at::extra_fields))
KV_EACH(FlatExtra, (a)(in)(ex))
// the catch-all sits inside a flattened member
struct InnerExtra { int b = 0; map<string, int> ex; };
KL_REFLECT_STRUCT(InnerExtra, b, (ex, at::extra_fields))
KV_EACH(InnerExtra, (b)(ex))
struct FlatInnerExtra { int a = 0; InnerExtra ie; };
KL_REFLECT_STRUCT(FlatInnerExtra, a, (ie, at::flatten))
KV_EACH(FlatInnerExtra, (a)(ie))

struct Combo { Names names; optional<Defs> defs; vector<Vals> vals; map<string, Skips> skips; Flat flat; optional<Extra> extra; };
KL_REFLECT_STRUCT(Combo, names, defs, vals, skips, flat, extra)
KV_EACH(Combo, (names)(defs)(vals)(skips)(flat)(extra))

template <int Part, class Fn> void all_types(Fn f)
{
    if constexpr (Part == 0)
    {
        f("Scalars", Scalars{}, 1); f("Boxes", Boxes{}, 1); f("Derived", Derived{}, 1); f("Names", Names{}, 2); f("Vals", Vals{}, 2);
    }
    else if constexpr (Part == 1)
    {
        f("Nest", Nest{}, 1); f("Defs", Defs{}, 2); f("Skips", Skips{}, 2); f("Flat", Flat{}, 2); f("FlatDeep", FlatDeep{}, 2);
        f("i64", std::int64_t{}, 1); f("u64", std::uint64_t{}, 1); f("dbl", double{}, 1);
    }
    else if constexpr (Part == 2)
    {
        f("Extra", Extra{}, 2); f("ExtraRec", ExtraRec{}, 2); f("ExtraOpt", ExtraOpt{}, 2); f("FlatExtra", FlatExtra{}, 2); f("FlatInnerExtra", FlatInnerExtra{}, 2);
        f("i8", std::int8_t{}, 1); f("u8", std::uint8_t{}, 1); f("i16", std::int16_t{}, 1); f("u16", std::uint16_t{}, 1); f("i32", std::int32_t{}, 1); f("u32", std::uint32_t{}, 1);
    }
    else
    {
        f("Combo", Combo{}, 2); f("ExtO", ExtO{}, 1); f("ExtA", ExtA{}, 1); f("str", string{}, 1); f("bool", false, 1); f("Color", Color{}, 1);
        f("es", kl::enum_set<Flag>{}, 1); f("oi", optional<int>{}, 1); f("vi", vector<std::int16_t>{}, 1); f("mo", map<string, optional<int>>{}, 1);
        f("tup", std::tuple<int, optional<string>, std::uint8_t>{}, 1); f("arr", std::array<optional<std::int8_t>, 2>{}, 1);
    }
}
} // namespace st
