// xinfo <seed> <start> <count> <out>: histories of kl::exception_info objects and thrown exceptions
#include "common.hpp"
#include <kl/exception_info.hpp>
using hv::rng; using std::string; using kl::exception_info;
static const char* tf(bool b) { return b ? "true" : "false"; }
struct opaque { unsigned char b[4]; };
struct xi_a { using type = int; };
struct xi_b { using type = std::string; };
struct xi_c { using type = opaque; };
struct xi_m { using type = std::unique_ptr<int>; };
struct err_poly { int id; virtual ~err_poly() = default; };
struct err_std : std::runtime_error { int id; err_std(const string& s, int i) : runtime_error(s), id(i) { } };
static const char* files[] = {nullptr, "f1", "f2", "f3"};
static const char* funcs[] = {nullptr, "g1", "g2", "g3"};

static void set(exception_info& x, char t, int v)
{
    switch (t)
    {
    case 'a': if (v & 1) x.set<xi_a>(v); else { const int c = v; x.set<xi_a>(c); } break;
    case 'b': if (v & 1) x.set<xi_b>("s" + std::to_string(v)); else { const string c = "s" + std::to_string(v); x.set<xi_b>(c); } break;
    case 'c': x.set<xi_c>(opaque{{(unsigned char)v, 0xF1, 0x8E, (unsigned char)(v * 37)}}); break;
    default: x.set<xi_m>(std::make_unique<int>(v));
    }
}
static void unset(exception_info& x, char t)
{
    switch (t) { case 'a': x.unset<xi_a>(); break; case 'b': x.unset<xi_b>(); break; case 'c': x.unset<xi_c>(); break; default: x.unset<xi_m>(); }
}
template <class X> string gets(X& x)
{
    auto one = [](const char* n, bool has, int v) { return string("\"") + n + "\":" + (has ? "[" + std::to_string(v) + "]" : "[]"); };
    auto a = x.template get<xi_a>(); auto b = x.template get<xi_b>(); auto c = x.template get<xi_c>(); auto m = x.template get<xi_m>();
    return "{" + one("a", a, a ? *a : 0) + "," + one("b", b, b ? std::atoi(b->c_str() + 1) : 0) + "," + one("c", c, c ? c->b[0] : 0) + "," + one("m", m, m ? **m : 0) + "}";
}
static int loc_of(const char* f, int line, const char* fn)
{
    if (!f && !fn && line == 0) return 0;
    for (int k = 1; k < 4; ++k) if (f && fn && string(f) == files[k] && string(fn) == funcs[k] && line == k) return k;
    return -99;
}
// header line and detail lines of a diagnostic text
static void diag(const string& text, int& loc, string& out)
{
    std::istringstream is(text);
    string ln;
    loc = -99; out.clear();
    bool first = true;
    while (std::getline(is, ln))
    {
        if (first)
        {
            first = false;
            for (int k = 0; k < 4; ++k)
                if (ln == (k ? string(files[k]) + "(" + std::to_string(k) + ")" : string("<unknown-file>")) + ": throw_with_info in function " + (k ? funcs[k] : "<unknown-function>")) loc = k;
            continue;
        }
        string v = "-99", t = "?";
        auto p = ln.find(" = ");
        string name = p == string::npos ? ln : ln.substr(0, p), val = p == string::npos ? "" : ln.substr(p + 3);
        if (name == "xi_a") { t = "a"; v = val; }
        else if (name == "xi_b") { t = "b"; if (!val.empty() && val[0] == 's') v = val.substr(1); }
        else if (name == "xi_c") { t = "c"; unsigned x = 0; char want[32] = ""; if (std::sscanf(val.c_str(), "[%02X", &x) == 1) std::snprintf(want, sizeof want, "[%02X F1 8E %02X]", x, (x * 37) & 255); if (val == want) v = std::to_string(x); }
        else if (name == "xi_m") { t = "m"; v = "-1"; }
        out += (out.empty() ? "[\"" : ",[\"") + t + "\"," + v + "]";
    }
}
static string seen(exception_info& x, bool cq)
{
    int dl; string dg;
    diag(x.diagnostic_info(), dl, dg);
    const exception_info& c = x;
    return "[{\"loc\":" + std::to_string(loc_of(x.file(), x.line(), x.function())) + ",\"dloc\":" + std::to_string(dl) + ",\"g\":" + (cq ? gets(c) : gets(x)) + ",\"diag\":[" + dg + "]}]";
}
struct world
{
    rng& r;
    std::optional<exception_info> x[4];
    std::exception_ptr p[2];
    string out;
    using edit = std::tuple<bool, char, int>;
    std::vector<edit> edits(int lo)
    {
        std::vector<edit> e;
        for (int n = lo + r.below(3); n > 0; --n) e.emplace_back(r.chance(60), "abcm"[r.below(4)], 1 + r.below(9));
        return e;
    }
    static void apply(exception_info& x, const std::vector<edit>& ed) { for (auto& [s, t, v] : ed) if (s) set(x, t, v); else unset(x, t); }
    static string log(const std::vector<edit>& ed)
    {
        string o;
        for (auto& [s, t, v] : ed) o += (o.empty() ? "[\"" : ",[\"") + string(s ? "set" : "unset") + "\",\"" + t + "\"," + std::to_string(v) + "]";
        return ",\"ed\":[" + o + "]";
    }
    string dump()
    {
        string o = ",\"d\":[";
        for (auto& s : x) o += (s ? seen(*s, r.chance(50)) : string("[]")) + ",";
        for (int k = 0; k < 2; ++k)
        {
            string t = "[]";
            if (p[k]) try { std::rethrow_exception(p[k]); } catch (exception_info& e) { t = seen(e, r.chance(50)); } catch (...) { t = "[{}]"; }
            o += t + (k ? "]" : ",");
        }
        return o;
    }
    void ev(const string& s) { out += (out.empty() ? "{" : ",{") + s + dump() + "}"; }
    int have() { std::vector<int> v; for (int k = 0; k < 4; ++k) if (x[k]) v.push_back(k); return v.empty() ? -1 : v[std::size_t(r.below(int(v.size())))]; }
    void fresh(int k) { int loc = r.below(4); if (loc) x[k].emplace(files[loc], loc, funcs[loc]); else x[k].emplace(); ev("\"o\":\"new\",\"k\":" + std::to_string(k + 1) + ",\"loc\":" + std::to_string(loc)); }
    template <class E> void raise(const E& e, int k) { if (r.chance(40)) kl::throw_with_info(e, exception_info{*x[k]}); else kl::throw_with_info(E{e}, *x[k]); }
    void step()
    {
        int k = have(), c = r.below(100);
        if (k < 0 || c < 8) { fresh(r.below(4)); return; }
        int to = r.below(4);
        auto S = [](int v) { return std::to_string(v + 1); };
        if (c < 45) { auto ed = edits(1); apply(*x[k], ed); ev("\"o\":\"edit\",\"k\":" + S(k) + log(ed)); }
        else if (c < 62)
        {
            if (to == k) to = (k + 1) % 4;
            if (x[to] && r.chance(60)) *x[to] = *x[k]; else { exception_info t{*x[k]}; x[to].emplace(t); }
            ev("\"o\":\"copy\",\"k\":" + S(k) + ",\"to\":" + S(to));
        }
        else if (c < 68)
        {
            if (to == k) to = (k + 1) % 4;
            if (x[to] && r.chance(50)) *x[to] = std::move(*x[k]); else x[to].emplace(std::move(*x[k]));
            *x[k] = exception_info{};
            ev("\"o\":\"move\",\"k\":" + S(k) + ",\"to\":" + S(to));
        }
        else if (c < 71 && x[to] && to != k) { std::swap(*x[k], *x[to]); ev("\"o\":\"swap\",\"k\":" + S(k) + ",\"to\":" + S(to)); }
        else if (c < 75)
        {
            std::runtime_error plain{"x"}; err_poly q{}; const std::runtime_error& cr = plain;
            bool ok = !kl::get_exception_info(plain) && !kl::get_exception_info(q) && !kl::get_exception_info(cr)
                && kl::exception_diagnostic_info(plain) == "dynamic exception type: std::runtime_error\nwhat: x\n" && kl::exception_diagnostic_info(std::exception_ptr{}) == "no exception"
                && kl::exception_diagnostic_info(std::make_exception_ptr(plain)) == "dynamic exception type: std::runtime_error\nwhat: x\n" && kl::exception_diagnostic_info(std::make_exception_ptr(7)) == "dynamic exception type: <unknown-exception>\n"
                && kl::exception_diagnostic_info(opaque{}) == "dynamic exception type: opaque\n" && kl::exception_diagnostic_info(q) == "dynamic exception type: err_poly\n";
            ev(string("\"o\":\"plain\",\"ok\":") + tf(ok));
        }
        else if (c < 90)
        {   // throw, edit in the handler
            auto ed = edits(0);
            int id = r.below(100), kind = r.below(2), how = r.below(5);
            bool caught = false, same = false;
            int keep = r.below(3);                                   // 0 drop, 1 exception_ptr, 2 copy out
            int slot = keep == 1 ? 4 + r.below(2) : keep == 2 ? to : -1;
            std::exception_ptr ep; std::optional<exception_info> copy;
            auto handle = [&](exception_info& xi, bool right) { caught = true; same = right; apply(xi, ed); if (keep == 1) ep = std::current_exception(); if (keep == 2) copy.emplace(xi); };
            auto text = [&](const string& d, const string& type, const string& what, const exception_info& xi) { return d == "dynamic exception type: " + type + "\n" + what + xi.diagnostic_info(); };
            try
            {
                try { if (kind) raise(err_std("w" + std::to_string(id), id), k); else { err_poly e; e.id = id; raise(e, k); } }
                catch (...) { if (how == 0) std::rethrow_exception(std::current_exception()); throw; }
            }
            catch (err_std& e)
            {
                auto* xi = kl::get_exception_info(e);
                const err_std& ce = e;
                bool right = kind == 1 && e.id == id && e.what() == "w" + std::to_string(id) && kl::get_exception_info(ce) == xi && xi && text(kl::exception_diagnostic_info(e), "err_std", "what: w" + std::to_string(id) + "\n", *xi)
                    && text(kl::exception_diagnostic_info(std::current_exception()), "err_std", "what: w" + std::to_string(id) + "\n", *xi)
                    && text(kl::exception_diagnostic_info(static_cast<std::exception&>(e)), "err_std", "what: w" + std::to_string(id) + "\n", *xi);
                if (xi) handle(*xi, right);
            }
            catch (err_poly& e)
            {
                auto* xi = kl::get_exception_info(e);
                if (xi) handle(*xi, kind == 0 && e.id == id && text(kl::exception_diagnostic_info(e), "err_poly", "", *xi) && text(kl::exception_diagnostic_info(std::current_exception()), "err_poly", "", *xi));
            }
            catch (...) { }
            if (keep == 1 && ep) p[slot - 4] = ep;
            if (keep == 2 && copy) { if (x[slot]) *x[slot] = *copy; else x[slot].emplace(*copy); }
            ev("\"o\":\"throw\",\"k\":" + S(k) + ",\"to\":" + S(slot) + log(ed) + ",\"caught\":" + tf(caught) + ",\"same\":" + tf(same));
        }
        else
        {
            int q = r.below(2);
            if (!p[q]) { fresh(r.below(4)); return; }
            auto ed = edits(0);
            bool caught = false;
            std::optional<exception_info> copy;
            try
            {
                try { std::rethrow_exception(p[q]); }
                catch (exception_info& e) { caught = true; apply(e, ed); if (r.chance(50)) throw; copy.emplace(e); }
            }
            catch (exception_info& e) { copy.emplace(e); }
            if (copy) { if (x[to] && r.chance(50)) *x[to] = *copy; else x[to].emplace(*copy); }
            ev("\"o\":\"rethrow\",\"k\":" + S(q + 4) + ",\"to\":" + S(to) + log(ed) + ",\"caught\":" + tf(caught) + ",\"same\":true");
        }
    }
};
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    std::FILE* f = std::fopen(argv[4], "w");
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7);
        world w{r, {}, {}, {}};
        for (int k = 4 + r.below(14); k > 0; --k) w.step();
        std::fprintf(f, ",\"ev\":[%s]}\n", w.out.c_str());
    }
    std::fclose(f);
}
