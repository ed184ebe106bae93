// The resources whose requests are specified in spec/ResourceTypes.tla.
#pragma once
#include "jtree.hpp"
#include <kl/json.hpp>
#include <kl/path.hpp>
#include <kl/resource.hpp>
#include <kl/resource_attributes.hpp>
#include <kl/resource_op.hpp>
#include <kl/reflect_enum.hpp>
#include <kl/reflect_struct.hpp>
#include <kl/serialization_attributes.hpp>
#include <deque>
#include <list>

namespace rt {
namespace at = kl::serialization::attributes;
namespace ra = kl::resources::attributes;
using std::optional; using std::string; using std::vector; using std::map;
using dctx = kl::json::deserialize_context;
inline string pick_name(hv::rng& r) { static const char* v[] = {"k1", "k2", "k3", "k 4", "7"}; return v[r.below(5)]; }
inline int small(hv::rng& r) { return r.chance(4) ? 77 : r.chance(6) ? 13 : r.below(6); }
[[noreturn]] inline void refuse(const char* m) { throw kl::resources::validation_error{m}; }

struct Pt { int x = 0; optional<string> y; void kv_gen(hv::rng& r) { x = r.below(9); if (r.chance(40)) y.reset(); else y = pick_name(r); } };
KL_REFLECT_STRUCT(Pt, x, y)
KV_EACH(Pt, (x)(y))

// member validator
struct Lim
{
    int min = 0, max = 5;
    void kv_gen(hv::rng& r) { min = r.below(5); max = r.chance(85) ? min + r.below(4) : min - 1; }
    template <class C> void validate_resource(C&) const { if (min > max) refuse("min above max"); }
};
KL_REFLECT_STRUCT(Lim, min, max)
KV_EACH(Lim, (min)(max))
// copies only, never moved
struct Cpy
{
    int q = 0; string w;
    Cpy() = default;
    Cpy(const Cpy& o) : q(o.q), w(o.w) {}
    Cpy& operator=(const Cpy& o) { q = o.q; w = o.w; return *this; }
    void kv_gen(hv::rng& r) { q = small(r); w = pick_name(r); }
};
KL_REFLECT_STRUCT(Cpy, q, w)
KV_EACH(Cpy, (q)(w))
template <class C> void validate_resource(const Cpy& c, C&) { if (c.q == 13) refuse("thirteen"); if (c.q == 77) throw std::runtime_error("boom"); }

// keyed elements
struct Item
{
    string id; int n = 0; optional<Pt> pt; vector<int> tags;
    void kv_gen(hv::rng& r) { id = pick_name(r); n = small(r); jt::gen(r, pt, 3); tags.resize(r.below(3)); for (auto& t : tags) t = r.below(5); }
};
KL_REFLECT_STRUCT(Item, id, n, pt, tags)
KV_EACH(Item, (id)(n)(pt)(tags))
template <class C> void validate_resource(const Item& c, C&) { if (c.n == 13) refuse("thirteen"); if (c.n == 77) throw std::runtime_error("boom"); }
inline string kv_key(const Item& i) { return i.id; }

struct NumItem { int id = 0; string name; optional<Lim> lim; void kv_gen(hv::rng& r) { id = r.below(5); name = pick_name(r); jt::gen(r, lim, 3); } };
KL_REFLECT_STRUCT(NumItem, id, (name, ra::read_only), lim)
KV_EACH(NumItem, (id)(name)(lim))
inline string kv_key(const NumItem& i) { return std::to_string(i.id); }
inline bool resource_key_matches(const NumItem&, int key, std::string_view s)
{
    if (s.empty() || s.size() > 6) return false;
    int v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    return v == key;
}
struct TwoKey { string a; string b; int n = 0; void kv_gen(hv::rng& r) { a = pick_name(r); b = pick_name(r); n = r.below(5); } };
KL_REFLECT_STRUCT(TwoKey, a, (b, at::rename("bee")), n)
KV_EACH(TwoKey, (a)(b)(n))
inline string kv_key(const TwoKey& i) { return i.n % 2 ? i.a : i.b; }

struct KeyS { string s; int aux = 0; bool operator==(const KeyS& o) const { return s == o.s && aux == o.aux; } void kv_gen(hv::rng& r) { s = pick_name(r); aux = r.chance(80) ? 0 : 1; } };
KL_REFLECT_STRUCT(KeyS, s, aux)
KV_EACH(KeyS, (s)(aux))
struct SItem { int n = 0; KeyS k; map<string, int> m; };
KL_REFLECT_STRUCT(SItem, n, k, m)
KV_EACH(SItem, (n)(k)(m))
inline string kv_key(const SItem& i) { return i.k.s; }
inline bool resource_key_matches(const SItem&, const KeyS& key, std::string_view s) { return key.s == s; }

struct Group
{
    string name; vector<Item> items; map<string, Item> by; vector<Item> plain;
    void kv_gen(hv::rng& r) { name = pick_name(r); jt::gen(r, items, 2); jt::gen(r, by, 3); jt::gen(r, plain, 3); }
};
KL_REFLECT_STRUCT(Group, name, (items, ra::child_key<&Item::id>), by, plain)
KV_EACH(Group, (name)(items)(by)(plain))
inline string kv_key(const Group& i) { return i.name; }

// ------------------------------------------------------------------ R1: every kind of node
enum class Mode { off, on, dim };
KL_REFLECT_ENUM(Mode, off, on, (dim, dimmed))
inline std::vector<std::pair<Mode, string>> kv_names(Mode) { return {{Mode::off, "off"}, {Mode::on, "on"}, {Mode::dim, "dimmed"}}; }
struct R1
{
    std::int8_t i = 0; string s; Mode mode = Mode::off; Lim lim; optional<Lim> olim; optional<int> oi; vector<int> vec; vector<Lim> lims;
    map<string, int> m; std::map<string, Lim, std::less<>> ml; std::array<int, 3> arr{}; optional<vector<int>> ov;
    optional<map<string, Pt>> om; std::list<int> li; std::deque<Pt> dq; std::tuple<int, int> tp{}; vector<vector<int>> vv; vector<optional<int>> vo;
    map<string, optional<Pt>> mo; std::unordered_map<string, vector<Pt>> um; std::array<Pt, 2> ap{}; Cpy cpy; vector<Cpy> cpys; optional<Cpy> oc;
};
KL_REFLECT_STRUCT(R1, i, s, mode, lim, olim, oi, vec, lims, m, ml, arr, ov, om, li, dq, tp, vv, vo, mo, um, ap, cpy, cpys, oc)
KV_EACH(R1, (i)(s)(mode)(lim)(olim)(oi)(vec)(lims)(m)(ml)(arr)(ov)(om)(li)(dq)(tp)(vv)(vo)(mo)(um)(ap)(cpy)(cpys)(oc))

// ------------------------------------------------------------------ R2: protection
struct Core { int a = 0; int b = 0; optional<int> o; vector<int> v; map<string, int> m; void kv_gen(hv::rng& r) { a = r.below(5); b = r.below(5); jt::gen(r, o); v.assign(r.below(3), r.below(4)); jt::gen(r, m, 3); } };
KL_REFLECT_STRUCT(Core, a, (b, ra::read_only), o, v, m)
KV_EACH(Core, (a)(b)(o)(v)(m))
struct Mid { Core p; Core ro; Core sro; Core both; int ri = 0; vector<Core> sv; };
KL_REFLECT_STRUCT(Mid, p, (ro, ra::read_only), (sro, ra::subtree_read_only), (both, ra::read_only, ra::subtree_read_only), (ri, ra::read_only), (sv, ra::subtree_read_only))
KV_EACH(Mid, (p)(ro)(sro)(both)(ri)(sv))
struct R2
{
    int free = 0; string ro; vector<int> rov; vector<int> srov; map<string, int> rom; map<string, Pt> srom; optional<Core> oro; optional<Core> osro;
    vector<Item> krov; vector<Item> ksrov; Mid mid; vector<Mid> mids; map<string, Mid> mm; std::array<int, 2> roa{}; optional<int> roo; optional<vector<Core>> osv; Mid smid;
    std::list<int> srol; optional<vector<Core>> rosv; map<string, vector<Core>> srmv; vector<map<string, int>> srvm; vector<map<string, int>> rovm; vector<optional<int>> rvo;
};
KL_REFLECT_STRUCT(R2, free, (ro, ra::read_only), (rov, ra::read_only), (srov, ra::subtree_read_only), (rom, ra::read_only), (srom, ra::subtree_read_only), (oro, ra::read_only),
                  (osro, ra::subtree_read_only), (krov, ra::read_only, ra::child_key<&Item::id>), (ksrov, ra::child_key<&Item::id>, ra::subtree_read_only), mid, mids, mm,
                  (roa, ra::read_only), (roo, ra::read_only), (osv, ra::subtree_read_only), (smid, ra::subtree_read_only), (srol, ra::subtree_read_only),
                  (rosv, ra::read_only), (srmv, ra::subtree_read_only), (srvm, ra::subtree_read_only), (rovm, ra::read_only), (rvo, ra::read_only))
KV_EACH(R2, (free)(ro)(rov)(srov)(rom)(srom)(oro)(osro)(krov)(ksrov)(mid)(mids)(mm)(roa)(roo)(osv)(smid)(srol)(rosv)(srmv)(srvm)(rovm)(rvo))

// ------------------------------------------------------------------ R3: keyed collections
struct R3
{
    vector<Group> groups; vector<NumItem> nums; std::list<TwoKey> two; std::deque<SItem> ss; std::array<Item, 2> fixed{Item{"k1", 0, {}, {}}, Item{"k2", 0, {}, {}}};
    map<string, Group> mg; optional<Group> og; vector<Item> unk; vector<vector<Item>> vvi; std::list<Item> lst;
};
KL_REFLECT_STRUCT(R3, (groups, ra::child_key<&Group::name>), (nums, ra::child_key<&NumItem::id>), (two, ra::child_key<&TwoKey::a>, ra::child_key<&TwoKey::b>),
                  (ss, ra::child_key<&SItem::k>), (fixed, ra::child_key<&Item::id>), mg, og, unk, vvi, (lst, ra::child_key<&Item::id>))
KV_EACH(R3, (groups)(nums)(two)(ss)(fixed)(mg)(og)(unk)(vvi)(lst))

// ------------------------------------------------------------------ R4: validators at every level, serialized names
struct Bag { vector<int> xs{1}; map<string, int> ms; optional<int> need = 1; void kv_gen(hv::rng& r) { xs.assign(1 + r.below(3), r.below(5)); ms.clear(); if (r.chance(60)) ms[pick_name(r)] = r.below(4); need = r.below(3); }
    void validate_resource(dctx&)
    {
        if (xs.empty()) refuse("xs empty");
        if (xs.size() + ms.size() > 4) refuse("bag full");
        if (!need) refuse("need unset");
    } };
KL_REFLECT_STRUCT(Bag, xs, ms, need)
KV_EACH(Bag, (xs)(ms)(need))
struct Veto { int v = 0; void kv_gen(hv::rng& r) { v = r.chance(85) ? r.below(3) : 5; } };
KL_REFLECT_STRUCT(Veto, v)
KV_EACH(Veto, (v))
template <class C> void validate_resource(const Veto& c, C&) { if (c.v == 5) refuse("vetoed"); }
template <class C> void validate_resource(const std::vector<Veto>& c, C&) { if (c.size() == 2) refuse("no pairs"); }
struct Must { int v = 1; void kv_gen(hv::rng& r) { v = r.below(4); } };
KL_REFLECT_STRUCT(Must, v)
KV_EACH(Must, (v))
template <class C> void validate_resource(const std::optional<Must>& c, C&) { if (!c) refuse("must be set"); }
struct KV { string id; int v = 0; void kv_gen(hv::rng& r) { id = pick_name(r); v = r.below(4); } };
KL_REFLECT_STRUCT(KV, id, v)
KV_EACH(KV, (id)(v))
inline string kv_key(const KV& i) { return i.id; }
template <class C> void validate_resource(const std::vector<KV>& c, C&) { if (c.size() == 2) refuse("no pairs"); }
template <class C> void validate_resource(const std::list<KV>& c, C&) { if (c.size() == 2) refuse("no pairs"); }
template <class C> void validate_resource(const std::map<string, KV>& c, C&) { if (c.size() == 1) refuse("not alone"); }
struct Fl { int fx = 0; optional<int> fy; };
KL_REFLECT_STRUCT(Fl, fx, fy)
KV_EACH(Fl, (fx)(fy))
struct R4
{
    int named = 0; optional<Lim> aliased; Fl fl; map<string, int> rest; Bag bag; vector<Bag> bags; map<string, Bag> mb; optional<Bag> ob;
    vector<Veto> vetos; optional<Veto> ve; map<string, optional<Veto>> mve; optional<Must> must = Must{}; vector<optional<Must>> musts; optional<vector<Veto>> ovv; int sum = 0; vector<KV> kvs; std::list<KV> kvl; map<string, KV> kvm;
    void validate_resource(dctx&) const { if (sum != 0 && sum != named) refuse("sum and named differ"); if (bags.size() > 2) refuse("bags"); }
    void kv_gen(hv::rng& r)
    {
        named = r.below(4); jt::gen(r, aliased, 2); fl.fx = r.below(5); fl.fy.reset(); rest.clear(); if (r.chance(60)) rest[pick_name(r)] = 3; jt::gen(r, bag); bags.clear();
        for (int k = r.below(r.chance(90) ? 3 : 4); k > 0; --k) { Bag b; b.kv_gen(r); bags.push_back(b); }
        jt::gen(r, mb, 2); jt::gen(r, ob, 2); jt::gen(r, vetos, 2); jt::gen(r, ve, 2); jt::gen(r, mve, 2); if (r.chance(93)) must = Must{r.below(4)}; else must.reset();
        musts.clear(); for (int k = r.below(3); k > 0; --k) musts.push_back(Must{k}); jt::gen(r, ovv, 2);
        auto fill = [&](auto& c) { c.clear(); static const int n[] = {0, 1, 3, 3, 3}; for (int k = n[r.below(5)]; k > 0; --k) { KV x; x.id = "k" + std::to_string(k); x.v = r.below(4); c.insert(c.end(), x); } if (r.chance(6) && !c.empty()) c.push_back(c.front()); };
        fill(kvs); fill(kvl); kvm.clear(); if (r.chance(70)) { kvm["k1"].v = 1; kvm["k 4"].v = r.below(3); if (r.chance(30)) kvm["7"].id = "k1"; }
        sum = r.chance(60) ? 0 : r.chance(85) ? named : 2;
    }
};
KL_REFLECT_STRUCT(R4, (named, at::rename("wire")), (aliased, at::aliases("older")), (fl, at::flatten), (rest, at::extra_fields), bag, (bags, at::rename("b-s")), mb, ob, vetos, ve, mve,
                  must, musts, ovv, (sum, at::allow_missing), (kvs, ra::child_key<&KV::id>), (kvl, ra::child_key<&KV::id>), kvm)
KV_EACH(R4, (named)(aliased)(fl)(rest)(bag)(bags)(mb)(ob)(vetos)(ve)(mve)(must)(musts)(ovv)(sum)(kvs)(kvl)(kvm))

// serialized names that differ from the member's
inline string kv_jname(const string& m) { return m == "named" ? "wire" : m == "bags" ? "b-s" : m; }
} // namespace rt
