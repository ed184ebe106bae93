// One group of the types of serde_types.hpp (PART 0..3); driven by serde.cpp.
#include "serde_types.hpp"
#include "serde_part.hpp"
using namespace jt;
namespace kj = kl::json;

// the positional form of a value: one element per member that is read
template <class T> bool positional(rng& r, T& x, rapidjson::Document& d)
{
    if constexpr (has_each<T>::value)
    {
        auto& a = d.GetAllocator();
        rapidjson::Value arr(rapidjson::kArrayType);
        bool all = r.chance(15);
        try
        {
            kj::serialize_context ctx{d, true};
            kv_each(x, [&](const char* n, auto& m) {
                if (!all && std::set<std::string>{"sk", "skd", "hidden"}.count(n)) return;
                arr.PushBack(rapidjson::Value(kj::serialize(m, ctx), a), a);
            });
        }
        catch (std::exception&) { return false; }
        if (r.chance(30)) for (int n = 1 + r.below(3); n > 0; --n) arr.PushBack(rand_scalar(r, a), a);
        else if (r.chance(20)) for (int n = 1 + r.below(3); n > 0 && !arr.Empty(); --n) arr.PopBack();
        static_cast<rapidjson::Value&>(d) = std::move(arr);
        return true;
    }
    else { (void)r; (void)x; (void)d; return false; }
}
// a document of roughly the right shape for T
template <class T> void shape(rng& r, rapidjson::Document& d, bool partial)
{
    T x{};
    gen(r, x);
    if (r.chance(12) && positional(r, x, d)) { if (r.chance(30)) mutate(r, d, d.GetAllocator(), doc_names()); return; }
    for (int tries = 0;; ++tries)
    {
        try { kj::serialize_context ctx{d, r.chance(50)}; auto v = kj::serialize(x, ctx); static_cast<rapidjson::Value&>(d) = std::move(v); break; }
        catch (std::exception&) { gen(r, x); if (tries > 20) { d.SetObject(); break; } }
    }
    auto& a = d.GetAllocator();
    if (partial && d.IsObject())
        for (auto it = d.MemberBegin(); it != d.MemberEnd();) if (r.chance(55)) it = d.EraseMember(it); else ++it;
    int n = r.chance(15) ? 0 : r.chance(50) ? 1 : r.below(5);
    for (; n > 0; --n) mutate(r, d, a, doc_names());
}
static rapidjson::Document via_text(const rapidjson::Document& d)
{
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w(b);
    d.Accept(w);
    return kj::parse(std::string_view(b.GetString(), b.GetSize()));
}
static std::string text_doc(const std::string& t)
{
    rapidjson::Document d;
    d.Parse(t.data(), t.size());
    if (d.HasParseError()) return "[\"bad\"]";
    return doc(d, false);
}
template <class Fn> std::string guarded(Fn f)
{
    try { return f(); }
    catch (std::logic_error&) { return "[\"err\"]"; }
    catch (std::exception&) { return "[\"exc\"]"; }
}
template <class T> std::string ev_enc(rng& r, const char* name)
{
    T x{};
    gen(r, x);
    bool sk = r.chance(60);
    std::string o = "{\"o\":\"enc\",\"T\":\"" + std::string(name) + "\",\"v\":" + val(x) + ",\"sk\":" + (sk ? "true" : "false");
    o += ",\"dump\":" + guarded([&] {
        rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b);
        kj::dump_context<rapidjson::Writer<rapidjson::StringBuffer>> ctx{w, sk};
        kj::dump(x, ctx);
        return text_doc(std::string(b.GetString(), b.GetSize())); });
    bool owning = r.chance(40);
    o += ",\"tree\":" + guarded([&] {
        rapidjson::Document d;
        if (owning) { kj::owning_serialize_context ctx{sk}; return doc(kj::serialize(x, ctx), false); }
        kj::serialize_context ctx{d, sk};
        return doc(kj::serialize(x, ctx), false); });
    o += ",\"text\":" + (sk ? guarded([&] { return text_doc(r.chance(50) ? kj::dump(x) : kj::pretty_dump(x)); })
                            : guarded([&] { rapidjson::StringBuffer b; rapidjson::PrettyWriter<rapidjson::StringBuffer> w(b);
                                            kj::dump_context<rapidjson::PrettyWriter<rapidjson::StringBuffer>> ctx{w, false}; kj::dump(x, ctx); return text_doc(b.GetString()); }));
    bool bytext = r.chance(50);
    std::string err;
    o += ",\"rt\":" + guarded([&] {
        T y{};
        if (bytext) { auto d = kj::parse(kj::dump(x)); kj::deserialize(y, d); }
        else if (r.chance(50)) { auto d = kj::serialize(x); kj::deserialize(y, d); }
        else { auto d = kj::serialize(x); kj::deserialize_context ctx; y = T{}; kj::deserialize(y, d, ctx); }
        return "[true," + val(y) + "]"; });
    return o + "}";
}
template <class T> std::string ev_dec(rng& r, const char* name, bool patch)
{
    T x{};
    if (patch || r.chance(50)) gen(r, x);
    rapidjson::Document d;
    shape<T>(r, d, patch);
    bool txt = r.chance(50);
    rapidjson::Document pd = via_text(d);
    std::string o = "{\"o\":\"" + std::string(patch ? "pat" : "dec") + "\",\"T\":\"" + name + "\",\"old\":" + val(x) + ",\"j\":" + doc(txt ? pd : d, true) + ",\"r\":";
    const rapidjson::Value& in = txt ? pd : d;
    try
    {
        if (patch) { if (r.chance(50)) kj::patch(x, in); else { kj::deserialize_context ctx; kj::patch(x, in, ctx); } }
        else { if (r.chance(50)) kj::deserialize(x, in); else { kj::deserialize_context ctx; kj::deserialize(x, in, ctx); } }
        o += "[true," + val(x) + "]";
    }
    catch (kl::serialization::deserialize_error& e) { o += failure(e.what(), o.substr(o.find("\"j\":"))); }
    catch (std::exception& e) { o += "[\"exc\"]"; }
    return o + "}";
}

#define KV_CAT2(a, b) a##b
#define KV_CAT(a, b) KV_CAT2(a, b)
void KV_CAT(part, PART)(const std::string& fam, hv::rng& r, std::vector<std::string>& out)
{
    st::all_types<PART>([&](const char* name, auto x, int kind) {
        using T = decltype(x);
        int reps = kind == 1 && fam != "dec" ? 1 : 2;
        if (fam == "dec" && kind != 1) return;
        if (fam == "attr" && kind != 2) return;
        for (int k = 0; k < reps; ++k)
            out.push_back(fam == "enc" || (fam == "attr" && k == 1 && r.chance(50)) ? ev_enc<T>(r, name) : ev_dec<T>(r, name, fam == "patch"));
    });
}
