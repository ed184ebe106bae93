// views <seed> <start> <count> <out>: histories of kl::json::view and kl::yaml::view over parsed documents
#include "ytree.hpp"
#include <kl/json.hpp>
#include <kl/yaml.hpp>
#include <kl/reflect_struct.hpp>
using namespace jt;
struct JS { kl::json::view a; kl::json::view b; };
KL_REFLECT_STRUCT(JS, a, b)
struct YS { kl::yaml::view a; kl::yaml::view b; };
KL_REFLECT_STRUCT(YS, a, b)

static void rand_tree(rng& r, rapidjson::Value& v, A& a, int depth)
{
    static const char* keys[] = {"a", "b", "c"};
    int c = depth > 2 ? 9 : r.below(10);
    if (c < 4)
    {
        v.SetObject();
        for (auto k : keys) if (r.chance(65)) { rapidjson::Value x; rand_tree(r, x, a, depth + 1); v.AddMember(sv(k, a), x, a); }
    }
    else if (c < 7)
    {
        v.SetArray();
        for (int n = r.below(4); n > 0; --n) { rapidjson::Value x; rand_tree(r, x, a, depth + 1); v.PushBack(x, a); }
    }
    else if (c == 7) v.SetNull();
    else if (r.chance(50)) v.SetInt(r.below(100));
    else v = sv("t" + std::to_string(r.below(50)), a);
}
struct J
{
    using view = kl::json::view; using S = JS; using node = const rapidjson::Value*;
    std::vector<std::unique_ptr<rapidjson::Document>> docs;
    void add(const rapidjson::Document& d, rng&)
    {
        docs.push_back(std::make_unique<rapidjson::Document>());
        docs.back()->CopyFrom(d, docs.back()->GetAllocator());
    }
    std::string show(std::size_t k) const { return doc(*docs[k], false); }
    static std::string show(const view& v) { return v ? doc(*v, false) : "[\"n\"]"; }
    node root(std::size_t k) const { return docs[k].get(); }
    static std::vector<std::string> keys(node n) { std::vector<std::string> o; if (n->IsObject()) for (auto& m : n->GetObject()) o.push_back(m.name.GetString()); return o; }
    static int size(node n) { return n->IsArray() ? int(n->Size()) : -1; }
    static node down(node n, const std::string& k) { return &(*n)[k.c_str()]; }
    static node down(node n, int i) { return &(*n)[rapidjson::SizeType(i)]; }
    template <class T> static void load(T& t, node n) { kl::json::deserialize(t, *n); }
    static std::string write(const view& v) { rapidjson::Document d; d.Parse(kl::json::dump(v).c_str()); return doc(d, false); }
    static std::string write2(const view& v) { return doc(kl::json::serialize(v), false); }
    static bool can_member(const view& v) { return v && v->IsObject(); }
    static view member(const view& v, const std::string& k)
    {
        kl::json::deserialize_context ctx;
        view o;
        kl::json::from_object(*v, ctx).extract(k.c_str(), o);
        return o;
    }
};
struct Y
{
    using view = kl::yaml::view; using S = YS; using node = YAML::Node;
    std::vector<YAML::Node> docs;
    void add(const rapidjson::Document& d, rng& r) { docs.push_back(kl::yaml::parse(render(r, d).c_str())); }
    std::string show(std::size_t k) const { return ydoc(docs[k]); }
    static std::string show(const view& v) { return ydoc(v.value()); }
    node root(std::size_t k) const { return docs[k]; }
    static std::vector<std::string> keys(const node& n) { std::vector<std::string> o; if (n.IsMap()) for (const auto& m : n) if (m.first.IsScalar()) o.push_back(m.first.Scalar()); return o; }
    static int size(const node& n) { return n.IsSequence() ? int(n.size()) : -1; }
    static node down(const node& n, const std::string& k) { return n[k]; }
    static node down(const node& n, int i) { return n[i]; }
    template <class T> static void load(T& t, const node& n) { kl::yaml::deserialize(t, n); }
    static std::string write(const view& v) { return ydoc(YAML::Load(kl::yaml::dump(v))); }
    static std::string write2(const view& v) { return ydoc(kl::yaml::serialize(v)); }
    static bool can_member(const view& v) { return v->IsMap(); }
    static view member(const view& v, const std::string& k)
    {
        kl::yaml::deserialize_context ctx;
        view o;
        kl::yaml::from_map(*v, ctx).extract(k.c_str(), o);
        return o;
    }
};
static void rebind(const rapidjson::Value*& n, const rapidjson::Value* m) { n = m; }
static void rebind(YAML::Node& n, const YAML::Node& m) { n.reset(m); }
template <class B> std::string program(rng& r, int idx)
{
    B b;
    for (int k = 0; k < 2; ++k)
    {
        rapidjson::Document d;
        do rand_tree(r, d, d.GetAllocator(), 0); while (!d.IsObject() && !d.IsArray());
        b.add(d, r);
    }
    auto docs = [&] { return "[" + b.show(0) + "," + b.show(1) + "]"; };
    std::string out = "{\"idx\":" + std::to_string(idx) + ",\"docs\":" + docs() + ",\"ev\":[";
    typename B::S s;
    typename B::view free[2];
    auto named = [&](int v) -> typename B::view& { return v == 0 ? s.a : v == 1 ? s.b : free[v - 2]; };
    std::vector<typename B::view> list;
    auto pick = [&](std::string& where, auto want) {
        for (int tries = 0;; ++tries)
        {
            int k = r.below(2);
            typename B::node n = b.root(k);
            std::string p = "[";
            while (r.chance(55))
            {
                auto ks = B::keys(n);
                int m = B::size(n);
                if (!ks.empty()) { auto key = ks[r.below(int(ks.size()))]; rebind(n, B::down(n, key)); p += (p.size() > 1 ? "," : "") + ("[\"k\"," + jstr(key) + "]"); }
                else if (m > 0) { int e = r.below(m); rebind(n, B::down(n, e)); p += (p.size() > 1 ? "," : "") + ("[\"e\"," + std::to_string(e + 1) + "]"); }
                else break;
            }
            if (tries < 6 && !want(n) && r.chance(90)) continue;
            where = "\"d\":" + std::to_string(k + 1) + ",\"p\":" + p + "]";
            return n;
        }
    };
    for (int step = 0, n = 4 + r.below(8); step < n; ++step)
    {
        std::string e, w;
        bool ok = true;
        int v = r.below(4), u = r.below(4);
        auto vs = std::to_string(v + 1), us = std::to_string(u + 1);
        int c = r.below(20);
        try
        {
            if (c < 6) { auto nd = pick(w, [](auto&) { return true; }); e = "\"o\":\"bind\",\"v\":" + vs + "," + w; B::load(named(v), nd); }
            else if (c < 9) { auto nd = pick(w, [](auto& x) { return !B::keys(x).empty(); }); e = "\"o\":\"struct\"," + w; B::load(s, nd); }
            else if (c < 11) { auto nd = pick(w, [](auto& x) { return B::size(x) > 0; }); e = "\"o\":\"list\"," + w; B::load(list, nd); }
            else if (c < 13) { e = "\"o\":\"assign\",\"v\":" + vs + ",\"w\":" + us; named(v) = named(u); }
            else if (c == 13 && u != v) { e = "\"o\":\"swap\",\"v\":" + vs + ",\"w\":" + us; std::swap(named(v), named(u)); }
            else if (c == 14 && !list.empty()) { int k = r.below(int(list.size())); e = "\"o\":\"erase\",\"n\":" + std::to_string(k + 1); list.erase(list.begin() + k); }
            else if (c == 15 && list.size() < 4) { e = "\"o\":\"push\",\"v\":" + vs; list.push_back(named(v)); }
            else if (c == 16 && !list.empty()) { int k = r.below(int(list.size())); e = "\"o\":\"set\",\"n\":" + std::to_string(k + 1) + ",\"v\":" + vs; list[k] = named(v); }
            else if (c < 19 && B::can_member(named(u)))
            {
                std::string k(1, char('a' + r.below(3)));
                e = "\"o\":\"member\",\"v\":" + vs + ",\"w\":" + us + ",\"k\":\"" + k + "\"";
                auto m = B::member(named(u), k);
                named(v) = m;
            }
            else if (named(v)) { e = "\"o\":\"write\",\"v\":" + vs + ",\"doc\":" + (r.chance(50) ? B::write(named(v)) : B::write2(named(v))); }
            else continue;
        }
        catch (kl::serialization::deserialize_error&) { ok = false; }
        if (e.empty()) continue;
        std::string q = "[", sl = "[";
        for (auto& x : list) q += (q.size() > 1 ? "," : "") + B::show(x);
        for (int k = 0; k < 4; ++k) sl += (k ? "," : "") + B::show(named(k));
        out += (out.back() == '[' ? "{" : ",{") + e + ",\"ok\":" + (ok ? "true" : "false") + ",\"docs\":" + docs() + ",\"s\":" + sl + "],\"q\":" + q + "]}";
    }
    return out + "]}";
}
int main(int argc, char** argv)
{
    std::string kind = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), count = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    for (int p = start; p < start + count; ++p)
    {
        hv::rng r(seed * 1000003 + std::uint64_t(p) * 7 + kind[0]);
        std::string t = kind == "json" ? program<J>(r, p) : program<Y>(r, p);
        std::fprintf(f, "%s\n", t.c_str());
    }
    std::fclose(f);
}
