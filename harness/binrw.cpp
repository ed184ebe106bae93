// binrw <cur|codec> <seed> <start> <count> <out>: operations on kl::binary_reader / binary_writer, one line per stream
#include "common.hpp"
#include <kl/binary_rw.hpp>
#include <kl/binary_rw/endian.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/optional.hpp>
#include <kl/binary_rw/pair.hpp>
#include <kl/binary_rw/set.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/variant.hpp>
#include <kl/binary_rw/vector.hpp>
#include <boost/endian/arithmetic.hpp>

// largest single allocation requested (the request itself is refused above 64 MB)
static std::size_t g_mem = 0;
void* operator new(std::size_t n)
{
    if (n > g_mem) g_mem = n;
    if (n > (std::size_t(64) << 20)) throw std::bad_alloc();
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

using hv::rng; using std::string; using std::vector; using std::optional;
namespace be = boost::endian;
using bytes = vector<unsigned char>;
enum class E16 : std::uint16_t { a, b };
struct Usr { std::uint16_t a = 0; string b; vector<std::uint8_t> c; };
namespace usr_ns { struct tag {}; }
inline void write_binary(kl::binary_writer& w, const Usr& u) { w << u.a; w << u.b; w << u.c; }
inline void read_binary(kl::binary_reader& r, Usr& u) { r >> u.a; r >> u.b; r >> u.c; }
// three bytes through spans
struct Span8 { std::array<std::uint8_t, 3> x{}; };
inline void write_binary(kl::binary_writer& w, const Span8& u) { w << gsl::span<const std::uint8_t>{u.x.data(), 3}; }
inline void read_binary(kl::binary_reader& r, Span8& u) { r >> gsl::span<std::uint8_t>{u.x.data(), 3}; }

static string blist(const unsigned char* p, std::size_t n) { string o = "["; for (std::size_t i = 0; i < n; ++i) { if (i) o += ','; o += std::to_string(p[i]); } return o + "]"; }
static string blist(const bytes& b) { return blist(b.data(), b.size()); }
template <class T> string num(T x, int n) { unsigned char b[8]; auto u = std::uint64_t(x); for (int i = 0; i < n; ++i) b[i] = (unsigned char)(u >> (8 * i)); return "[\"n\"," + blist(b, n) + "]"; }

template <class T, class = void> struct V;       // logs and generates values of T
template <class T> string bval(const T& x) { return V<T>::log(x); }
template <class T> void bgen(rng& r, T& x) { V<T>::gen(r, x); }
template <class T> struct V<T, std::enable_if_t<std::is_integral_v<T>>>
{ static string log(T x) { return num(x, sizeof(T)); } static void gen(rng& r, T& x) { x = r.chance(40) ? T(r.below(4)) : T(r.next()); } };
template <class T> struct V<T, std::enable_if_t<std::is_enum_v<T>>>
{ static string log(T x) { return num(std::underlying_type_t<T>(x), sizeof(T)); } static void gen(rng& r, T& x) { x = T(r.next()); } };
template <> struct V<float> { static string log(float x) { std::uint32_t u; std::memcpy(&u, &x, 4); return num(u, 4); } static void gen(rng& r, float& x) { x = float(r.below(1000)) / 8; } };
template <> struct V<double> { static string log(double x) { std::uint64_t u; std::memcpy(&u, &x, 8); return num(u, 8); } static void gen(rng& r, double& x) { x = double(r.below(100000)) / 16; } };
template <be::order O, class T, std::size_t N, be::align A> struct V<be::endian_arithmetic<O, T, N, A>>
{ using E = be::endian_arithmetic<O, T, N, A>; static string log(E x) { return num(x.value(), N / 8); } static void gen(rng& r, E& x) { T t; V<T>::gen(r, t); if (N == 24) t &= 0xffffff; x = t; } };
template <> struct V<string> { static string log(const string& s) { return "[\"s\"," + blist((const unsigned char*)s.data(), s.size()) + "]"; }
    static void gen(rng& r, string& s) { s.resize(r.below(5)); for (auto& c : s) c = char(r.chance(50) ? 'a' + r.below(3) : r.below(256)); } };
template <class T> struct V<vector<T>> { static string log(const vector<T>& v) { string o = "[\"l\",["; bool f = true; for (auto& e : v) { if (!f) o += ','; f = false; o += bval(e); } return o + "]]"; }
    static void gen(rng& r, vector<T>& v) { v.clear(); for (int n = r.below(4); n > 0; --n) { T t{}; bgen(r, t); v.push_back(t); } } };
template <class T> struct V<std::set<T>> { static string log(const std::set<T>& v) { string o = "[\"t\",["; bool f = true; for (auto& e : v) { if (!f) o += ','; f = false; o += bval(e); } return o + "]]"; }
    static void gen(rng& r, std::set<T>& v) { v.clear(); for (int n = r.below(4); n > 0; --n) { T t{}; bgen(r, t); v.insert(t); } } };
template <class K, class X> struct V<std::map<K, X>> { static string log(const std::map<K, X>& v) { string o = "[\"m\",["; bool f = true; for (auto& e : v) { if (!f) o += ','; f = false; o += "[" + bval(e.first) + "," + bval(e.second) + "]"; } return o + "]]"; }
    static void gen(rng& r, std::map<K, X>& v) { v.clear(); for (int n = r.below(4); n > 0; --n) { K k{}; X t{}; bgen(r, k); bgen(r, t); v[k] = t; } } };
template <class A, class B> struct V<std::pair<A, B>> { static string log(const std::pair<A, B>& p) { return "[\"p\",[" + bval(p.first) + "," + bval(p.second) + "]]"; } static void gen(rng& r, std::pair<A, B>& p) { bgen(r, p.first); bgen(r, p.second); } };
template <class T> struct V<optional<T>> { static string log(const optional<T>& o) { return o ? "[\"o\"," + bval(*o) + "]" : "[\"0\"]"; } static void gen(rng& r, optional<T>& o) { if (r.chance(35)) o.reset(); else { T t{}; bgen(r, t); o = t; } } };
template <class... T> struct V<std::variant<T...>>
{
    using X = std::variant<T...>;
    static string log(const X& x) { return "[\"v\"," + std::to_string(x.index()) + "," + std::visit([](auto& e) { return bval(e); }, x) + "]"; }
    template <std::size_t I> static void put(rng& r, X& x) { std::variant_alternative_t<I, X> t{}; bgen(r, t); x = X(std::in_place_index<I>, t); }
    template <std::size_t... I> static void any(rng& r, X& x, std::index_sequence<I...>) { std::size_t k = r.below(sizeof...(T)); ((I == k ? put<I>(r, x) : void()), ...); }
    static void gen(rng& r, X& x) { any(r, x, std::index_sequence_for<T...>{}); }
};
template <> struct V<Usr> { static string log(const Usr& u) { return "[\"p\",[" + bval(u.a) + "," + bval(u.b) + "," + bval(u.c) + "]]"; } static void gen(rng& r, Usr& u) { bgen(r, u.a); bgen(r, u.b); bgen(r, u.c); } };
template <> struct V<Span8> { static string log(const Span8& u) { return "[\"p\",[" + bval(u.x[0]) + "," + bval(u.x[1]) + "," + bval(u.x[2]) + "]]"; } static void gen(rng& r, Span8& u) { for (auto& c : u.x) c = (unsigned char)r.next(); } };

using V3 = std::variant<std::uint8_t, string, vector<std::uint16_t>>;
using Pr = std::pair<std::uint16_t, string>;
#define TYPES(X) X(u8, std::uint8_t) X(i8, std::int8_t) X(u16, std::uint16_t) X(i16, std::int16_t) X(u32, std::uint32_t) X(i32, std::int32_t) X(u64, std::uint64_t) X(i64, std::int64_t) \
    X(f32, float) X(f64, double) X(e16, E16) X(bu16, be::big_uint16_t) X(bi32, be::big_int32_t) X(bu64, be::big_uint64_t) X(lu16, be::little_uint16_t) X(li64, be::little_int64_t) X(bu24, be::big_uint24_t)
#define COMPS(X) X(str, string) X(vu8, vector<std::uint8_t>) X(vu16, vector<std::uint16_t>) X(vu64, vector<std::uint64_t>) X(vstr, vector<string>) X(mu8s, std::map<std::uint8_t COMMA string>) \
    X(msv, std::map<string COMMA vector<std::uint16_t>>) X(su16, std::set<std::uint16_t>) X(sstr, std::set<string>) X(pus, Pr) X(ou32, optional<std::uint32_t>) X(ostr, optional<string>) \
    X(ov, optional<vector<string>>) X(oo, optional<optional<std::uint16_t>>) X(var, V3) X(vvar, vector<V3>) X(vo, vector<optional<std::uint16_t>>) X(vp, vector<Pr>) X(vv, vector<vector<std::uint16_t>>) \
    X(vm, vector<std::map<std::uint8_t COMMA string>>) X(usr, Usr) X(vusr, vector<Usr>) X(vbig, vector<be::big_uint16_t>) X(ovar, optional<V3>) X(mvs, std::map<std::uint16_t COMMA V3>) \
    X(nest, std::variant<optional<Pr> COMMA std::map<std::uint8_t COMMA vector<optional<string>>>>) X(span8, Span8)
#define COMMA ,
template <class Fn> void with_type(int k, Fn f)
{
    int n = 0;
#define X(name, ...) if (n++ == k) f(#name, __VA_ARGS__{});
    TYPES(X) COMPS(X)
#undef X
}
static int count(bool comp) { int n = 0;
#define X(name, ...) ++n;
    TYPES(X) if (comp) { COMPS(X) }
#undef X
    return n; }
static const int NPRIM = count(false), NALL = count(true);

template <class S> string tail(const S& s) { return ",\"pos\":" + std::to_string(s.pos()) + ",\"left\":" + std::to_string(s.left()) + ",\"empty\":" + (s.empty() ? "true" : "false") + ",\"err\":" + (s.err() ? "true" : "false"); }
static const char* tf(bool b) { return b ? "true" : "false"; }
static std::ptrdiff_t rand_off(rng& r)
{
    static const std::ptrdiff_t v[] = {PTRDIFF_MAX, PTRDIFF_MIN, PTRDIFF_MIN + 1, 1000, -1000, std::ptrdiff_t(1) << 32, -(std::ptrdiff_t(1) << 32)};
    return r.chance(20) ? v[r.below(7)] : r.below(13) - 6;
}
static long clip(std::ptrdiff_t n) { return n > 100000 ? 100000 : n < -100000 ? -100000 : long(n); }
struct Pod3 { unsigned char c[3]; };

template <class B, class T> using const_like = std::conditional_t<std::is_const_v<B>, const T, T>;
// a reader or writer over the whole buffer, given as a span of one of several element types
template <class C, class B> C over(rng& r, bytes& b)
{
    if (b.size() % 2 == 0 && r.chance(20)) return C{gsl::span<const_like<B, std::uint16_t>>{reinterpret_cast<const_like<B, std::uint16_t>*>(b.data()), b.size() / 2}};
    if (b.size() % 4 == 0 && r.chance(20)) return C{gsl::span<const_like<B, std::uint32_t>>{reinterpret_cast<const_like<B, std::uint32_t>*>(b.data()), b.size() / 4}};
    if (b.size() == 8 && r.chance(50)) return C{gsl::span<const_like<B, std::uint32_t>, 2>{reinterpret_cast<const_like<B, std::uint32_t>*>(b.data()), 2}};
    if (r.chance(50)) return C{gsl::span<B>{reinterpret_cast<B*>(b.data()), b.size()}};
    return C{gsl::span<const_like<B, unsigned char>>{b.data(), b.size()}};
}
struct reader_run
{
    rng& r; bytes buf; kl::binary_reader rd; string out;
    // an exact-size heap copy, so that a sanitizer sees any byte outside
    static gsl::span<const std::byte> view(const bytes& b) { return {reinterpret_cast<const std::byte*>(b.data()), b.size()}; }
    reader_run(rng& r_, const bytes& b) : r(r_), buf(b), rd(over<kl::binary_reader, const std::byte>(r_, buf)) { }
    void ev(const string& s) { out += (out.empty() ? "{" : ",{") + s + tail(rd) + "}"; }
    template <class T> void fixed(bool peek)
    {
        T t;
        std::memset(&t, 170, sizeof t);
        bool ok = peek ? rd.peek(t) : rd.read_raw(t);
        ev(string("\"o\":\"") + (peek ? "peek" : "raw") + "\",\"n\":" + std::to_string(sizeof(T)) + ",\"ok\":" + tf(ok) + ",\"d\":" + blist((unsigned char*)&t, sizeof t));
    }
    void prim()
    {
        bool peek = r.chance(50);
        switch (r.below(6))
        {
        case 0: fixed<std::uint8_t>(peek); break;
        case 1: fixed<std::uint16_t>(peek); break;
        case 2: fixed<std::uint32_t>(peek); break;
        case 3: fixed<std::uint64_t>(peek); break;
        case 4: fixed<Pod3>(peek); break;
        default: fixed<std::array<unsigned char, 12>>(peek);
        }
    }
    void read(int k)
    {
        with_type(k, [&](const char* name, auto x) {
            using T = decltype(x);
            bgen(r, x);
            int via = r.below(3);
            if (via == 1) x = T{};
            string old = bval(x);
            g_mem = 0;
            bool ok = false;
            try
            {
                if (via == 0) ok = rd.read(x);
                else if (via == 1) { x = rd.read<T>(); ok = !rd.err(); }
                else { rd >> x; ok = !rd.err(); }
            }
            catch (std::exception&) { ev(string("\"o\":\"exc\",\"T\":\"") + name + "\""); return; }
            std::size_t mem = g_mem;
            ev(string("\"o\":\"read\",\"T\":\"") + name + "\",\"via\":" + std::to_string(via) + ",\"ok\":" + tf(ok) + ",\"old\":" + old + ",\"v\":" + bval(x) + ",\"mem\":" + std::to_string(mem > 2000000000 ? 2000000000 : mem));
        });
    }
    void step(bool codec)
    {
        int c = r.below(100);
        if (codec && c < 70) { read(r.chance(15) ? r.below(NPRIM) : NPRIM + r.below(NALL - NPRIM)); return; }
        if (c < 25) prim();
        else if (c < 45) { auto n = rand_off(r); rd.skip(n); ev("\"o\":\"skip\",\"n\":" + std::to_string(clip(n))); }
        else if (c < 60)
        {
            std::size_t n = r.chance(15) ? (r.chance(50) ? SIZE_MAX : std::size_t(1) << 40) : std::size_t(r.below(7));
            bool mv = r.chance(70);
            auto s = mv && r.chance(50) ? rd.span(n) : rd.span(n, mv);
            ev("\"o\":\"span\",\"n\":" + std::to_string(n > 100000 ? 100000 : n) + ",\"mv\":" + tf(mv) + ",\"d\":" + blist((const unsigned char*)s.data(), s.size()));
        }
        else if (c < 72)
        {
            int n = r.below(9);
            bytes d(n, 170);
            bool ok = true;
            if (r.chance(60)) ok = rd.read_span(gsl::span<unsigned char>{d.data(), d.size()});
            else { rd >> gsl::span<unsigned char>{d.data(), d.size()}; ok = !rd.err(); }
            ev("\"o\":\"raw\",\"n\":" + std::to_string(n) + ",\"ok\":" + tf(ok) + ",\"d\":" + blist(d));
        }
        else if (c < 97) read(r.chance(60) ? r.below(NPRIM) : r.below(NALL));
        else if (!codec || r.chance(20)) { rd.notify_error(); ev("\"o\":\"note\""); }
    }
};
struct writer_run
{
    rng& r; bytes buf; kl::binary_writer w; string out;
    writer_run(rng& r_, std::size_t n) : r(r_), buf(n, 0), w(over<kl::binary_writer, std::byte>(r_, buf)) { }
    void ev(const string& s) { out += (out.empty() ? "{" : ",{") + s + tail(w) + ",\"bw\":" + blist(buf) + "}"; }
    template <class T> void write(const char* name, const T& x)
    {
        try { w << x; ev(string("\"o\":\"write\",\"T\":\"") + name + "\",\"v\":" + bval(x) + ",\"ok\":" + tf(!w.err())); }
        catch (std::exception&) { ev("\"o\":\"exc\""); }
    }
    void any(int k) { with_type(k, [&](const char* name, auto x) { bgen(r, x); write(name, x); }); }
    template <class T> void fixed()
    {
        T t;
        for (std::size_t i = 0; i < sizeof t; ++i) reinterpret_cast<unsigned char*>(&t)[i] = (unsigned char)r.next();
        bool ok = w.write_raw(t);
        ev(string("\"o\":\"put\",\"ok\":") + tf(ok) + ",\"d\":" + blist((unsigned char*)&t, sizeof t));
    }
    void step()
    {
        int c = r.below(100);
        if (c < 30) any(r.below(NPRIM));
        else if (c < 60) any(NPRIM + r.below(NALL - NPRIM));
        else if (c < 72)
            switch (r.below(4)) { case 0: fixed<std::uint8_t>(); break; case 1: fixed<std::uint32_t>(); break; case 2: fixed<Pod3>(); break; default: fixed<std::array<unsigned char, 9>>(); }
        else if (c < 82)
        {
            bytes d(r.below(8));
            for (auto& x : d) x = (unsigned char)r.next();
            bool ok = w.write_span(gsl::span<const unsigned char>{d.data(), d.size()});
            ev(string("\"o\":\"put\",\"ok\":") + tf(ok) + ",\"d\":" + blist(d));
        }
        else if (c < 97) { auto n = rand_off(r); w.skip(n); ev("\"o\":\"skip\",\"n\":" + std::to_string(clip(n))); }
        else { w.notify_error(); ev("\"o\":\"note\""); }
    }
};
// containers with far more elements than the other traces have: sizes, not contents, are recorded
template <class T> string long_one(rng& r, const char* name, std::size_t n, std::size_t each, T x)
{
    bytes buf(4 + n * each + 3, 0);
    kl::binary_writer w{gsl::span<unsigned char>{buf.data(), buf.size()}};
    w << x;
    std::size_t wpos = w.pos();
    bool wok = !w.err();
    bytes in(buf.begin(), buf.begin() + std::ptrdiff_t(wpos));
    kl::binary_reader rd{gsl::span<const unsigned char>{in.data(), in.size()}};
    T y{};
    bool rok = rd.read(y);
    bytes cut(in.begin(), in.end() - (in.empty() ? 0 : 1 + r.below(int(each))));
    kl::binary_reader cr{gsl::span<const unsigned char>{cut.data(), cut.size()}};
    T z{};
    bool cok = cr.read(z);
    bytes small(4 + n * each - 1, 0);
    kl::binary_writer sw{gsl::span<unsigned char>{small.data(), small.size()}};
    sw << x;
    return string("{\"o\":\"long\",\"T\":\"") + name + "\",\"n\":" + std::to_string(n) + ",\"each\":" + std::to_string(each) + ",\"head\":" + blist(in.data(), std::min<std::size_t>(4, in.size()))
        + ",\"wrote\":" + std::to_string(wpos) + ",\"wok\":" + tf(wok) + ",\"took\":" + std::to_string(rd.pos()) + ",\"rok\":" + tf(rok) + ",\"same\":" + tf(x == y) + ",\"cutok\":" + tf(cok)
        + ",\"cutleft\":" + std::to_string(z.size()) + ",\"smallok\":" + tf(!sw.err()) + "}";
}
static string long_ev(rng& r)
{
    static const std::size_t ns[] = {255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072};
    std::size_t n = ns[r.below(12)];
    switch (r.below(7))
    {
    case 0: return long_one(r, "str", n, 1, string(n, char('a' + r.below(26))));
    case 1: { vector<std::uint8_t> v(n); for (auto& e : v) e = (unsigned char)r.next(); return long_one(r, "vu8", n, 1, v); }
    case 2: { vector<std::uint16_t> v(n); for (auto& e : v) e = (std::uint16_t)r.next(); return long_one(r, "vu16", n, 2, v); }
    case 3: { vector<std::uint64_t> v(n); for (auto& e : v) e = r.next(); return long_one(r, "vu64", n, 8, v); }
    case 4: return long_one(r, "vstr", n, 5, vector<string>(n, "q"));
    case 5: { std::map<std::uint32_t, std::uint8_t> m; for (std::size_t i = 0; i < n; ++i) m[std::uint32_t(i * 7)] = (unsigned char)i; return long_one(r, "mu32", n, 5, m); }
    default: { std::set<std::uint32_t> m; for (std::size_t i = 0; i < n; ++i) m.insert(std::uint32_t(i * 3)); return long_one(r, "su32", n, 4, m); }
    }
}
int main(int argc, char** argv)
{
    string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    int start = std::atoi(argv[3]), cnt = std::atoi(argv[4]);
    std::FILE* f = std::fopen(argv[5], "w");
    for (int p = start; p < start + cnt; ++p)
    {
        std::fprintf(f, "{\"idx\":%d", p);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(p) * 7 + fam[0]);
        auto emit = [&](const char* k, const bytes& b, const string& ev) { std::fprintf(f, ",\"k\":\"%s\",\"b\":%s,\"ev\":[%s]}\n", k, blist(b).c_str(), ev.c_str()); };
        bool codec = fam == "codec";
        if (codec && p % 100 == 7) emit("l", bytes(), long_ev(r));
        else if (p % 2 == 0)
        {   // a writer
            std::size_t n = r.chance(10) ? 0 : r.chance(40) ? 100 + r.below(60) : r.below(40);
            writer_run w(r, n);
            for (int k = 3 + r.below(12); k > 0; --k) w.step();
            emit("w", bytes(n, 0), w.out);
        }
        else
        {   // a reader over random bytes, or over encodings, possibly cut or damaged
            bytes b;
            if (codec || r.chance(50))
            {
                writer_run w(r, 120);
                vector<int> ks;
                for (int k = 1 + r.below(4); k > 0; --k) { int t = r.below(NALL); std::size_t before = w.w.pos(); w.any(t); if (w.w.err()) break; ks.push_back(t); (void)before; }
                b.assign(w.buf.begin(), w.buf.begin() + std::ptrdiff_t(std::min<std::size_t>(w.w.pos(), w.buf.size())));
                int c = r.below(6);
                if (c == 0 && !b.empty()) b.resize(r.below(int(b.size())));
                else if (c == 1 && !b.empty()) b[r.below(int(b.size()))] = (unsigned char)(r.chance(50) ? 255 : r.below(6));
                else if (c == 2) for (int k = r.below(4); k > 0; --k) b.push_back((unsigned char)r.below(3));
                else if (c == 3 && !b.empty()) { auto at = r.below(int(b.size())); b.erase(b.begin() + at); }
                b.shrink_to_fit();
                reader_run rd(r, b);
                if (r.chance(75)) for (int t : ks) rd.read(t);
                for (int k = r.below(6); k > 0; --k) rd.step(codec);
                emit("r", b, rd.out);
                continue;
            }
            b.resize(r.chance(10) ? 0 : r.below(40));
            for (auto& x : b) x = (unsigned char)(r.chance(60) ? r.below(3) : r.below(256));
            reader_run rd(r, b);
            for (int k = 3 + r.below(14); k > 0; --k) rd.step(codec);
            emit("r", b, rd.out);
        }
    }
    std::fclose(f);
}
