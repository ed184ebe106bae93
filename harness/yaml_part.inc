// One group of the types of serde_types.hpp (PART 0..3), through kl::yaml; driven by serde.cpp.
#define KV_YAML
#include "ytree.hpp"
#include "serde_types.hpp"
#include "serde_part.hpp"
using namespace jt;
namespace ky = kl::yaml;

// the positional form of a value: one element per member that is read
template <class T> bool positional(rng& r, T& x, rapidjson::Document& d)
{
    if constexpr (has_each<T>::value)
    {
        auto& a = d.GetAllocator();
        rapidjson::Value arr(rapidjson::kArrayType);
        bool all = r.chance(15);
        try
        {
            ky::serialize_context ctx{true};
            kv_each(x, [&](const char* n, auto& m) {
                if (!all && std::set<std::string>{"sk", "skd", "hidden"}.count(n)) return;
                arr.PushBack(rapidjson::Value(to_rj(ky::serialize(m, ctx), a), a), a);
            });
        }
        catch (std::exception&) { return false; }
        if (r.chance(30)) for (int n = 1 + r.below(3); n > 0; --n) arr.PushBack(rand_scalar(r, a), a);
        else if (r.chance(20)) for (int n = 1 + r.below(3); n > 0 && !arr.Empty(); --n) arr.PopBack();
        static_cast<rapidjson::Value&>(d) = std::move(arr);
        return true;
    }
    else { (void)r; (void)x; (void)d; return false; }
}
template <class T> std::string shape(rng& r, bool partial)
{
    T x{};
    gen(r, x);
    rapidjson::Document d;
    auto& a = d.GetAllocator();
    if (r.chance(12) && positional(r, x, d)) { if (r.chance(30)) mutate(r, d, a, doc_names()); return render(r, d); }
    for (int tries = 0;; ++tries)
    {
        try { ky::serialize_context ctx{r.chance(50)}; static_cast<rapidjson::Value&>(d) = to_rj(ky::serialize(x, ctx), a); break; }
        catch (std::exception&) { gen(r, x); if (tries > 20) { d.SetObject(); break; } }
    }
    if (partial && d.IsObject())
        for (auto it = d.MemberBegin(); it != d.MemberEnd();) if (r.chance(55)) it = d.EraseMember(it); else ++it;
    int n = r.chance(15) ? 0 : r.chance(50) ? 1 : r.below(5);
    for (; n > 0; --n) mutate(r, d, a, doc_names());
    return render(r, d);
}
template <class Fn> std::string guarded(Fn f)
{
    try { return f(); }
    catch (std::logic_error&) { return "[\"err\"]"; }
    catch (std::exception&) { return "[\"exc\"]"; }
}
static std::string text_doc(const std::string& t) { return ydoc(YAML::Load(t)); }
template <class T> std::string ev_enc(rng& r, const char* name)
{
    T x{};
    gen(r, x);
    bool sk = r.chance(60);
    std::string o = "{\"o\":\"enc\",\"T\":\"" + std::string(name) + "\",\"v\":" + val(x) + ",\"sk\":" + (sk ? "true" : "false");
    auto stream = [&] { YAML::Emitter e; ky::dump_context ctx{e, sk}; ky::dump(x, ctx); return std::string(e.c_str(), e.size()); };
    o += ",\"dump\":" + guarded([&] { return text_doc(stream()); });
    o += ",\"tree\":" + guarded([&] { ky::serialize_context ctx{sk}; return ydoc(ky::serialize(x, ctx)); });
    // the tree written out by yaml-cpp itself; or the one-call form
    o += ",\"text\":" + guarded([&] {
        if (sk && r.chance(50)) return text_doc(ky::dump(x));
        ky::serialize_context ctx{sk};
        return text_doc(YAML::Dump(ky::serialize(x, ctx))); });
    o += ",\"rt\":" + guarded([&] {
        T y{};
        if (r.chance(50)) { auto d = ky::parse(ky::dump(x).c_str()); ky::deserialize(y, d); }
        else { auto d = ky::serialize(x); ky::deserialize_context ctx; ky::deserialize(y, d, ctx); }
        return "[true," + val(y) + "]"; });
    return o + "}";
}
template <class T> std::string ev_dec(rng& r, const char* name, bool patch)
{
    T x{};
    if (patch || r.chance(50)) gen(r, x);
    std::string text = shape<T>(r, patch);
    YAML::Node in = ky::parse(text.c_str());
    std::string before = ydoc(in);
    std::string o = "{\"o\":\"" + std::string(patch ? "pat" : "dec") + "\",\"T\":\"" + name + "\",\"old\":" + val(x) + ",\"j\":" + before + ",\"text\":" + jstr(text) + ",\"r\":";
    try
    {
        if (patch) { if (r.chance(50)) ky::patch(x, in); else { ky::deserialize_context ctx; ky::patch(x, in, ctx); } }
        else { if (r.chance(50)) ky::deserialize(x, in); else { ky::deserialize_context ctx; ky::deserialize(x, in, ctx); } }
        o += "[true," + val(x) + "]";
    }
    catch (kl::serialization::deserialize_error& e) { o += failure(e.what(), o.substr(o.find("\"j\":"))); }
    catch (std::exception& e) { o += "[\"exc\"]"; }
    return o + ",\"kept\":" + (ydoc(in) == before ? "true" : "false") + "}";
}

#define KV_CAT2(a, b) a##b
#define KV_CAT(a, b) KV_CAT2(a, b)
void KV_CAT(part, PART)(const std::string& fam, hv::rng& r, std::vector<std::string>& out)
{
    st::all_types<PART>([&](const char* name, auto x, int kind) {
        using T = decltype(x);
        int reps = kind == 1 && fam != "dec" ? 1 : 2;
        for (int k = 0; k < reps; ++k)
            out.push_back(fam == "enc" ? ev_enc<T>(r, name) : ev_dec<T>(r, name, fam == "patch"));
    });
}
