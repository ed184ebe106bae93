// fview <seed> <start> <count> <out>   (files live in a scratch directory next to <out>)
// Linked with --wrap for the system calls listed below: they are recorded and can be made to fail.
#include "common.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <kl/file_view.hpp>
using hv::rng; using std::string;
static string calls;
static bool armed;
struct fault { string call; int nth; int code; };
static std::vector<fault> plan;
static std::map<string, int> seen;
static int due(const char* c)
{
    int n = ++seen[c];
    for (auto& p : plan) if (p.call == c && p.nth == n) return p.code;
    return 0;
}
static void rec(const char* c, int fd, const void* a, std::size_t n, long ret, int e, bool inj)
{
    char b[200];
    std::snprintf(b, sizeof b, "%s{\"c\":\"%s\",\"fd\":%d,\"a\":\"%p\",\"n\":%ld,\"ret\":%ld,\"e\":%d,\"inj\":%s}", calls.empty() ? "" : ",", c, fd, a, long((n + 4095) / 4096), ret, e, inj ? "true" : "false");
    calls += b;
}
extern "C" {
int __real_open(const char*, int, ...); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
int __real_fstat(int, struct stat*); int __real_close(int);
void* __real_mmap(void*, std::size_t, int, int, int, off_t); int __real_munmap(void*, std::size_t);
static std::function<void()> after_open;     // somebody else, right after the file was opened
static int opened(int inj, const std::function<int()>& f)
{
    if (inj) { rec("open", -1, 0, 0, -1, inj, true); errno = inj; return -1; }
    int r = f(), e = r < 0 ? errno : 0;
    rec("open", -1, 0, 0, r, e, false);
    if (r >= 0 && after_open) { armed = false; after_open(); after_open = nullptr; armed = true; }
    if (r < 0) errno = e;
    return r;
}
int __wrap_open(const char* p, int fl, int m) { return armed ? opened(due("open"), [&] { return __real_open(p, fl, m); }) : __real_open(p, fl, m); }
int __wrap_open64(const char* p, int fl, int m) { return armed ? opened(due("open"), [&] { return __real_open(p, fl, m); }) : __real_open(p, fl, m); }
int __wrap_openat(int d, const char* p, int fl, int m) { return armed ? opened(due("open"), [&] { return __real_openat(d, p, fl, m); }) : __real_openat(d, p, fl, m); }
int __wrap_fstat(int fd, struct stat* s)
{
    if (!armed) return __real_fstat(fd, s);
    if (int e = due("fstat")) { std::memset(s, 0x5a, sizeof *s); rec("fstat", fd, 0, 0, -1, e, true); errno = e; return -1; }
    int r = __real_fstat(fd, s), e = r < 0 ? errno : 0;
    rec("fstat", fd, 0, 0, r, e, false);
    if (r < 0) errno = e;
    return r;
}
int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
void* __wrap_mmap(void* a, std::size_t n, int p, int fl, int fd, off_t o)
{
    if (!armed) return __real_mmap(a, n, p, fl, fd, o);
    if (int e = due("mmap")) { rec("mmap", fd, (void*)-1, n, -1, e, true); errno = e; return MAP_FAILED; }
    void* r = __real_mmap(a, n, p, fl, fd, o);
    int e = r == MAP_FAILED ? errno : 0;
    rec("mmap", fd, r, n, r == MAP_FAILED ? -1 : 0, e, false);
    if (e) errno = e;
    return r;
}
void* __wrap_mmap64(void* a, std::size_t n, int p, int fl, int fd, off_t o) { return __wrap_mmap(a, n, p, fl, fd, o); }
int __wrap_munmap(void* a, std::size_t n)
{
    if (!armed) return __real_munmap(a, n);
    int r = a == (void*)-1 ? -1 : __real_munmap(a, n), e = r < 0 ? errno : 0;
    rec("munmap", -1, a, n, r, e, false);
    return r;
}
int __wrap_close(int fd)
{
    if (!armed) return __real_close(fd);
    int inj = due("close");
    int r = __real_close(fd), e = r < 0 ? errno : 0;       // the descriptor is gone even if an error is reported
    if (inj) { rec("close", fd, 0, 0, -1, inj, true); errno = inj; return -1; }
    rec("close", fd, 0, 0, r, e, false);
    if (r < 0) errno = e;
    return r;
}
}
static string dir;
static int count_fds()
{
    DIR* d = ::opendir("/proc/self/fd");
    int n = 0;
    while (auto* e = ::readdir(d)) n += e->d_name[0] != '.';
    ::closedir(d);
    return n - 1;
}
static int count_maps()
{
    std::ifstream f("/proc/self/maps");
    string ln;
    int n = 0;
    while (std::getline(f, ln)) n += ln.find(dir) != string::npos;
    return n;
}
static string digest(const unsigned char* p, std::size_t n)
{
    if (!n) return "0";
    if (n <= 8) { string o = "b"; char b[8]; for (std::size_t i = 0; i < n; ++i) { std::snprintf(b, 8, "%02x", p[i]); o += b; } return o; }
    std::uint64_t h = 1469598103934665603ull;
    if (n > (1u << 24)) { for (std::size_t i = 0; i < n; i += 100000007) h = (h ^ p[i] ^ i) * 1099511628211ull; h = (h ^ p[n - 1]) * 1099511628211ull; }
    else for (std::size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 1099511628211ull;
    return "d" + std::to_string(h);
}
static string name(int f) { return dir + "/f" + std::to_string(f); }
static void wipe(const string& p)
{
    struct stat st;
    if (::lstat(p.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) ::rmdir(p.c_str()); else ::unlink(p.c_str()); }
}
int main(int argc, char** argv)
{
    std::uint64_t seed = std::strtoull(argv[1], 0, 10);
    int start = std::atoi(argv[2]), cnt = std::atoi(argv[3]);
    dir = string(argv[4]) + ".scratch";
    ::mkdir(dir.c_str(), 0700);
    std::FILE* f = std::fopen(argv[4], "w");
    static const int codes[] = {EACCES, EMFILE, ENFILE, EIO, EOVERFLOW, ENOMEM, EAGAIN, EPERM};
    for (int q = start; q < start + cnt; ++q)
    {
        std::fprintf(f, "{\"idx\":%d", q);
        std::fflush(f);
        rng r(seed * 1000003 + std::uint64_t(q) * 7 + 3);
        string out;
        auto add = [&](const string& s) { out += (out.empty() ? "{" : ",{") + s + "}"; };
        std::unique_ptr<kl::file_view> v[5];
        int kept = -1;
        if (q % 5 == 0) { kept = ::dup(0); ::close(0); }             // the next descriptor is number 0
        int fd0 = count_fds(), mp0 = count_maps();
        auto obs = [&] { return ",\"cs\":[" + calls + "],\"nfd\":" + std::to_string(count_fds() - fd0) + ",\"nmap\":" + std::to_string(count_maps() - mp0); };
        auto bytes = [&](kl::file_view& w) { auto b = w.get_bytes(); return "\"size\":\"" + std::to_string(b.size()) + "\",\"dig\":\"" + digest(reinterpret_cast<const unsigned char*>(b.data()), b.size()) + "\""; };
        auto drop = [&](int k) { calls.clear(); armed = true; v[k].reset(); armed = false; add("\"o\":\"drop\",\"v\":" + std::to_string(k) + obs()); };
        for (int step = 0, n = 9 + r.below(20); step < n; ++step)
        {
            int c = r.below(10), k = 1 + r.below(4), id = 1 + r.below(4);
            if (step < 3) { c = 0; id = step + 1; }
            if (c < 3)
            {   // a new file under this name; whatever was there is replaced, not rewritten
                int t = r.below(20);
                string kind = t == 0 ? "missing" : t == 1 ? "dir" : "file", size = "0", dig = "0";
                if (t > 1)
                {
                    static const long base[] = {0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 65537};
                    long sz = t < 5 ? r.below(9) : t < 8 ? r.below(20000) : base[r.below(10)];
                    bool sparse = q % 40 == 0 && t == 2;
                    if (sparse) sz = 5000000007l;
                    string tmp = dir + "/new", data;
                    if (!sparse) { data.resize(std::size_t(sz)); for (auto& ch : data) ch = char(r.next()); }
                    else data = "sparse";
                    { std::ofstream of(tmp, std::ios::binary); of.write(data.data(), long(data.size())); }
                    wipe(name(id));
                    bool ok = true;
                    if (sparse) ok = ::truncate(tmp.c_str(), sz) == 0;
                    ::rename(tmp.c_str(), name(id).c_str());
                    if (!ok) { sz = 6; sparse = false; }
                    size = std::to_string(sz);
                    if (sparse)
                    {
                        std::uint64_t h = 1469598103934665603ull;
                        for (long i = 0; i < sz; i += 100000007) h = (h ^ std::uint64_t(i ? 0 : 's') ^ std::uint64_t(i)) * 1099511628211ull;
                        h = h * 1099511628211ull;
                        dig = "d" + std::to_string(h);
                    }
                    else dig = digest(reinterpret_cast<const unsigned char*>(data.data()), data.size());
                }
                else { wipe(name(id)); if (t == 1) ::mkdir(name(id).c_str(), 0700); }
                add("\"o\":\"file\",\"f\":" + std::to_string(id) + ",\"kind\":\"" + kind + "\",\"size\":\"" + size + "\",\"dig\":\"" + dig + "\"");
            }
            else if (c < 7)
            {
                if (v[k]) drop(k);
                plan.clear(); seen.clear(); calls.clear();
                static const char* names[] = {"open", "fstat", "mmap", "close"};
                if (r.chance(55)) for (int m = 1 + r.below(2); m > 0; --m) plan.push_back({names[r.below(4)], 1, codes[r.below(8)]});
                string o;
                string path = name(id), alt;
                if (r.chance(30))
                {   // a different file takes over the name while the view is being made
                    string data(std::size_t(r.chance(30) ? 0 : r.below(9000)), 0);
                    for (auto& ch : data) ch = char(r.next());
                    { std::ofstream of(dir + "/alt", std::ios::binary); of.write(data.data(), long(data.size())); }
                    after_open = [&alt, path, data] {
                        struct stat st;
                        if (::lstat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) ::rmdir(path.c_str());
                        ::rename((dir + "/alt").c_str(), path.c_str());
                        alt = "{\"kind\":\"file\",\"size\":\"" + std::to_string(data.size()) + "\",\"dig\":\"" + digest(reinterpret_cast<const unsigned char*>(data.data()), data.size()) + "\"}";
                    };
                }
                armed = true;
                try { v[k] = std::make_unique<kl::file_view>(path.c_str()); armed = false; o = "{\"r\":\"view\"," + bytes(*v[k]) + "}"; }
                catch (const std::system_error& e) { armed = false; o = "{\"r\":\"err\",\"code\":" + std::to_string(e.code().value()) + ",\"cat\":\"" + e.code().category().name() + "\"}"; }
                catch (...) { armed = false; o = "{\"r\":\"other\"}"; }
                plan.clear();
                after_open = nullptr;
                ::unlink((dir + "/alt").c_str());
                add("\"o\":\"open\",\"v\":" + std::to_string(k) + ",\"f\":" + std::to_string(id) + ",\"alt\":[" + alt + "],\"out\":" + o + obs());
            }
            else if (c < 9) { if (v[k]) add("\"o\":\"see\",\"v\":" + std::to_string(k) + "," + bytes(*v[k])); }
            else if (v[k]) drop(k);
        }
        for (int k = 1; k <= 4; ++k) if (v[k]) { add("\"o\":\"see\",\"v\":" + std::to_string(k) + "," + bytes(*v[k])); drop(k); }
        for (int k = 1; k <= 4; ++k) wipe(name(k));
        if (kept >= 0) { ::dup2(kept, 0); ::close(kept); }
        std::fprintf(f, ",\"ev\":[%s]}\n", out.c_str());
    }
    std::fclose(f);
    ::rmdir(dir.c_str());
}
