// Controlled-scheduler exploration of the real kl::signal.  Every std::mutex / std::shared_mutex operation (by
// interposing the pthread functions) and every std::atomic operation of signal.hpp (by substituting the atomic
// template) is a scheduling point; exactly one thread runs at a time.  Records call/return/callback events for
// SignalConc.tla.
#include "common.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

// ------------------------------------------------------------------------------------------ scheduler
namespace sched {
constexpr int MAXT = 4;
struct Thr
{
    sem_t sem;
    bool live = false;          // participates in the current execution
    const void* waits = nullptr; // mutex it is blocked on
    bool want_shared = false;
    std::function<void()> job;
};
static Thr T[MAXT + 1];
static int N = 0, cur = 0;
static sem_t main_sem;
static thread_local int me = 0; // 0: not scheduled
struct Lk { int owner = 0; int readers = 0; };
static std::map<const void*, Lk> locks;
static std::function<int(int, const std::vector<int>&)> pick; // (current or 0, runnable) -> thread
static std::function<void()> on_deadlock;
static long steps = 0, since_switch = 0;

static bool runnable(int t)
{
    if (!T[t].live) return false;
    if (!T[t].waits) return true;
    Lk& l = locks[T[t].waits];
    return T[t].want_shared ? l.owner == 0 : (l.owner == 0 && l.readers == 0);
}
static void switch_from(int self, bool finished)
{
    std::vector<int> r;
    for (int t = 1; t <= N; ++t)
        if (runnable(t)) r.push_back(t);
    if (r.empty())
    {
        bool any = false;
        for (int t = 1; t <= N; ++t) any |= T[t].live;
        if (any) on_deadlock(); // does not return
        sem_post(&main_sem);
        return;
    }
    bool self_ok = !finished && std::find(r.begin(), r.end(), self) != r.end();
    int next = pick(self_ok ? self : 0, r);
    if (next != self) since_switch = 0;
    if (next == self && !finished) return;
    cur = next;
    sem_post(&T[next].sem);
    if (!finished) while (sem_wait(&T[self].sem) != 0) {}
}
inline void point()
{
    int s = me;
    if (!s) return;
    ++steps;
    ++since_switch;
    switch_from(s, false);
}
static void lock(const void* m, bool shared)
{
    point();
    int s = me;
    for (;;)
    {
        Lk& l = locks[m];
        if (shared ? l.owner == 0 : (l.owner == 0 && l.readers == 0)) break;
        T[s].waits = m;
        T[s].want_shared = shared;
        switch_from(s, false);
        T[s].waits = nullptr;
    }
    if (shared) ++locks[m].readers;
    else locks[m].owner = s;
}
static bool trylock(const void* m, bool shared)
{
    point();
    Lk& l = locks[m];
    if (!(shared ? l.owner == 0 : (l.owner == 0 && l.readers == 0))) return false;
    if (shared) ++l.readers;
    else l.owner = me;
    return true;
}
static void unlock(const void* m)
{
    Lk& l = locks[m];
    if (l.owner == me) l.owner = 0;
    else if (l.readers) --l.readers;
    point();
}
static void* body(void* p)
{
    int id = int(reinterpret_cast<std::intptr_t>(p));
    for (;;)
    {
        while (sem_wait(&T[id].sem) != 0) {}
        me = id;
        T[id].job();
        me = 0;
        T[id].live = false;
        switch_from(id, true);
    }
}
static void start()
{
    sem_init(&main_sem, 0, 0);
    for (int t = 1; t <= MAXT; ++t)
    {
        sem_init(&T[t].sem, 0, 0);
        pthread_t th;
        pthread_create(&th, nullptr, body, reinterpret_cast<void*>(std::intptr_t(t)));
    }
}
static void run(const std::vector<std::function<void()>>& jobs)
{
    N = int(jobs.size());
    steps = since_switch = 0;
    locks.clear();
    for (int t = 1; t <= N; ++t) { T[t].live = true; T[t].waits = nullptr; T[t].job = jobs[t - 1]; }
    std::vector<int> r;
    for (int t = 1; t <= N; ++t) r.push_back(t);
    cur = pick(0, r);
    sem_post(&T[cur].sem);
    while (sem_wait(&main_sem) != 0) {}
}
} // namespace sched

template <class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (sched::me) { sched::lock(m, false); return 0; }
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (sched::me) return sched::trylock(m, false) ? 0 : EBUSY;
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (sched::me) { sched::unlock(m); return 0; }
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (sched::me) { sched::lock(m, false); return 0; }
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    return f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (sched::me) { sched::lock(m, true); return 0; }
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (sched::me) { sched::unlock(m); return 0; }
    static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    return f(m);
}
}

namespace std {
template <class T>
struct hv_atomic
{
    mutable std::atomic<T> a;
    hv_atomic() noexcept = default;
    constexpr hv_atomic(T v) noexcept : a(v) {}
    hv_atomic(const hv_atomic&) = delete;
    hv_atomic& operator=(const hv_atomic&) = delete;
    T load(memory_order = memory_order_seq_cst) const noexcept { sched::point(); return a.load(); }
    void store(T v, memory_order = memory_order_seq_cst) noexcept { sched::point(); a.store(v); }
    T exchange(T v, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.exchange(v); }
    template <class U> T fetch_add(U v, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.fetch_add(v); }
    template <class U> T fetch_sub(U v, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.fetch_sub(v); }
    template <class U> T fetch_or(U v, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.fetch_or(v); }
    template <class U> T fetch_and(U v, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.fetch_and(v); }
    bool compare_exchange_strong(T& e, T v, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.compare_exchange_strong(e, v); }
    bool compare_exchange_weak(T& e, T v, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { sched::point(); return a.compare_exchange_strong(e, v); }
    operator T() const noexcept { return load(); }
    T operator=(T v) noexcept { store(v); return v; }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator--(int) noexcept { return fetch_sub(1); }
    template <class U> T operator+=(U v) noexcept { return fetch_add(v) + v; }
    template <class U> T operator-=(U v) noexcept { return fetch_sub(v) - v; }
    bool is_lock_free() const noexcept { return true; }
    static constexpr bool is_always_lock_free = true;
};
struct hv_atomic_flag
{
    bool v = false;
    hv_atomic_flag() = default;
    bool test_and_set(memory_order = memory_order_seq_cst) noexcept { sched::point(); bool o = v; v = true; return o; }
    void clear(memory_order = memory_order_seq_cst) noexcept { sched::point(); v = false; }
};
} // namespace std
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#define atomic hv_atomic
#define atomic_flag hv_atomic_flag
#define atomic_bool hv_atomic<bool>
#define atomic_int hv_atomic<int>
#define atomic_uint hv_atomic<unsigned>
#define atomic_size_t hv_atomic<std::size_t>
#include <kl/signal.hpp>
#undef atomic
#undef atomic_flag

// ------------------------------------------------------------------------------------------ scenarios
using sg = kl::signal<void(int)>;
constexpr int NH = 4; // handles per thread
struct Op { std::string o; int x = 0, y = 0; };
struct Scenario
{
    int threads = 2;
    std::vector<int> pre;                 // initially connected slots (0 back, 1 front)
    std::vector<Op> body;                 // what initial slot i does when invoked (executed at nesting depth 1)
    std::vector<std::vector<Op>> prog;    // per thread
};

struct Exec
{
    const Scenario& sc;
    sg* S;
    std::vector<std::string> ev;
    kl::connection C[sched::MAXT][NH];
    std::optional<kl::connection::blocker> B[sched::MAXT];
    int slots = 0, emits = 0;
    int depth[sched::MAXT] = {};
    std::vector<Op> body;

    explicit Exec(const Scenario& s) : sc(s) {}
    void log(const char* o, int t, int x = 0, int y = 0, const char* op = "")
    {
        ev.push_back(std::string("{\"o\":\"") + o + "\",\"t\":" + std::to_string(t) + ",\"x\":" + std::to_string(x) + ",\"y\":" +
                     std::to_string(y) + ",\"op\":\"" + op + "\"}");
    }
    struct Tr
    {
        Exec* e;
        int k;
        Tr(Exec* e_, int k_) : e(e_), k(k_) {}
        Tr(const Tr&) = delete;
        ~Tr() { e->log("destroyed", 0, k); }
    };
    void connect(int t, int h, bool front, Op bd)
    {
        int k = ++slots;
        body.push_back(bd);
        auto tr = std::make_shared<Tr>(this, k);
        sg::slot_type f = [this, k, tr](int v) { invoke(k, v); };
        tr.reset();
        log("call", t, front, h, "connect");
        C[t - 1][h] = S->connect(std::move(f), front ? kl::at_front : kl::at_back);
        log("ret", t);
    }
    void invoke(int k, int v)
    {
        int t = sched::me ? sched::me : 1; // on the main thread (all others done) callbacks belong to thread 1
        log("enter", t, k, v);
        sched::point();
        Op b = body[k - 1];
        if (depth[t - 1] == 1 && !b.o.empty()) op(t, b);
        log("exit", t, k);
    }
    void op(int t, const Op& o)
    {
        kl::connection* H = C[t - 1];
        if (o.o == "connect") connect(t, o.x, o.y != 0, {});
        else if (o.o == "dis") { log("call", t, o.x, 0, "dis"); H[o.x].disconnect(); log("ret", t); }
        else if (o.o == "disall") { log("call", t, 0, 0, "disall"); S->disconnect_all_slots(); log("ret", t); }
        else if (o.o == "num") { log("call", t, 0, 0, "num"); int n = int(S->num_slots()); log("ret", t, n); }
        else if (o.o == "empty") { log("call", t, 0, 0, "empty"); int n = S->empty(); log("ret", t, n); }
        else if (o.o == "conn") { log("call", t, o.x, 0, "conn"); int n = H[o.x].connected(); log("ret", t, n); }
        else if (o.o == "drop") { log("call", t, o.x, 0, "drop"); H[o.x] = {}; log("ret", t); }
        else if (o.o == "blk" && B[t - 1]) { op(t, {"unblk"}); op(t, o); }
        else if (o.o == "blk") { log("call", t, o.x, 0, "blk"); B[t - 1].emplace(H[o.x]); log("ret", t); }
        else if (o.o == "unblk") { log("call", t, 0, 0, "unblk"); B[t - 1].reset(); log("ret", t); }
        else if (o.o == "stop") { log("stop", t); kl::this_signal::stop_emission(); }
        else if (o.o == "curdis")
        {
            log("call", t, 0, 0, "curdis");
            auto c = kl::this_signal::current_connection();
            c.disconnect();
            log("ret", t);
        }
        else if (o.o == "emit")
        {
            int v = ++emits;
            log("call", t, v, 0, "emit");
            ++depth[t - 1];
            (*S)(v);
            --depth[t - 1];
            log("eret", t);
        }
    }
    void run()
    {
        S = new sg;
        // set-up by the main thread, outside of the schedule
        for (std::size_t i = 0; i < sc.pre.size(); ++i)
        {
            connect(1, NH - 1, sc.pre[i] != 0, sc.body[i]);
            for (int t = 1; t <= sc.threads; ++t) { C[t - 1][i] = C[0][NH - 1]; log("give", t, int(i), int(i) + 1); }
        }
        std::vector<std::function<void()>> jobs;
        for (int t = 1; t <= sc.threads; ++t)
            jobs.push_back([this, t] {
                sched::point();
                for (auto& o : sc.prog[t - 1]) op(t, o);
            });
        sched::run(jobs);
        for (int t = 1; t <= sc.threads; ++t)
        {
            if (B[t - 1]) { log("call", t, 0, 0, "unblk"); B[t - 1].reset(); log("ret", t); }
        }
        // sequential epilogue on the main thread: what is left is intact
        log("call", 1, 0, 0, "num");
        int n = int(S->num_slots());
        log("ret", 1, n);
        body.assign(body.size(), Op{});
        for (int rep = 0; rep < 2; ++rep)
        {
            sched_main_emit();
        }
        for (auto& row : C) for (auto& c : row) c = {};
        log("settled", 1); // no handle, no emission: whatever is disconnected has been destroyed
        log("call", 1, 0, 0, "disall");
        delete S;
        log("ret", 1);
        log("final", 1);
    }
    void sched_main_emit()
    {
        int v = ++emits;
        log("call", 1, v, 0, "emit");
        (*S)(v);
        log("eret", 1);
    }
};

static std::string opj(const Op& o) { return "[" + hv::jstr(o.o) + "," + std::to_string(o.x) + "," + std::to_string(o.y) + "]"; }
static std::string scj(const Scenario& s)
{
    std::string r = "{\"pre\":[";
    for (std::size_t i = 0; i < s.pre.size(); ++i) r += (i ? "," : "") + std::to_string(s.pre[i]);
    r += "],\"body\":[";
    for (std::size_t i = 0; i < s.body.size(); ++i) r += (i ? "," : "") + opj(s.body[i]);
    r += "],\"prog\":[";
    for (std::size_t i = 0; i < s.prog.size(); ++i)
    {
        r += i ? ",[" : "[";
        for (std::size_t j = 0; j < s.prog[i].size(); ++j) r += (j ? "," : "") + opj(s.prog[i][j]);
        r += "]";
    }
    return r + "]}";
}

static Op random_op(hv::rng& r, int pre, bool inside)
{
    static const char* top[] = {"emit", "emit", "emit", "connect", "connect", "dis", "dis", "dis", "disall", "num", "empty", "conn", "drop", "blk", "unblk"};
    static const char* in[] = {"", "", "", "dis", "curdis", "curdis", "connect", "emit", "disall", "stop", "drop"};
    Op o;
    o.o = inside ? in[r.below(11)] : top[r.below(15)];
    if (o.o == "connect") { o.x = 3; o.y = r.below(2); }
    else o.x = r.below(std::max(1, std::min(pre, 3)));
    return o;
}
static Scenario random_scenario(hv::rng& r)
{
    Scenario s;
    s.threads = r.chance(70) ? 2 : 3;
    int pre = r.below(4);
    for (int i = 0; i < pre; ++i) { s.pre.push_back(r.below(2)); s.body.push_back(random_op(r, pre, true)); }
    for (int t = 0; t < s.threads; ++t)
    {
        std::vector<Op> p;
        int n = 1 + r.below(s.threads == 2 ? 3 : 2);
        for (int i = 0; i < n; ++i) p.push_back(random_op(r, pre, false));
        s.prog.push_back(p);
    }
    bool any = false;
    for (auto& p : s.prog) for (auto& o : p) any |= o.o == "emit";
    if (!any) s.prog[0][0].o = "emit";
    return s;
}

int main(int argc, char** argv)
{
    // sig_conc SEED START COUNT EXECS OUT
    std::uint64_t seed = std::strtoull(argv[1], nullptr, 10);
    int start = std::atoi(argv[2]), n = std::atoi(argv[3]), execs = std::atoi(argv[4]);
    FILE* out = std::fopen(argv[5], "w");
    sched::start();
    long total = 0, distinct = 0;
    for (int idx = start; idx < start + n; ++idx)
    {
        hv::rng r(seed * 7919 + idx);
        Scenario sc = random_scenario(r);
        std::fprintf(out, "{\"idx\":%d,\"sc\":%s", idx, scj(sc).c_str());
        std::fflush(out);
        std::set<std::string> seen;
        std::vector<std::string> logs;
        // phase 1: every schedule with at most one preemption, phase 2: random schedules
        int done = 0;
        auto execute = [&](std::function<int(int, const std::vector<int>&)> pk) {
            alarm(30);
            Exec* e = new Exec(sc);
            sched::pick = [&](int self, const std::vector<int>& run) {
                if (self && sched::since_switch > 3000 && run.size() > 1) // fairness for spinning code
                    for (int t : run) if (t != self) return t;
                return pk(self, run);
            };
            sched::on_deadlock = [&] {
                std::fputs(",\"deadlock\":[", out);
                for (std::size_t j = 0; j < e->ev.size(); ++j) std::fprintf(out, "%s%s", j ? "," : "", e->ev[j].c_str());
                std::fputs("]", out);
                std::fflush(out);
                std::fprintf(stderr, "DEADLOCK in scenario %d: %s\n", idx, scj(sc).c_str());
                _exit(3);
            };
            e->run();
            alarm(0);
            std::string s;
            for (auto& x : e->ev) { if (!s.empty()) s += ','; s += x; }
            if (seen.insert(s).second) logs.push_back(s);
            delete e;
            ++done;
        };
        for (int first = 1; first <= sc.threads && done < execs; ++first)
        {
            long len = 0;
            for (long p = -1; p < 100000 && done < execs; ++p)
            {
                bool pre_done = p < 0;
                for (int alt = 0; alt < sc.threads - 1 && done < execs; ++alt)
                {
                    pre_done = p < 0;
                    execute([&, alt](int self, const std::vector<int>& run) {
                        if (!self)
                        {
                            int want = first;
                            for (int k = 0; k < sc.threads; ++k, want = want % sc.threads + 1)
                                if (std::find(run.begin(), run.end(), want) != run.end()) return want;
                        }
                        if (!pre_done && sched::steps > p && run.size() > 1)
                        {
                            pre_done = true;
                            int a = alt;
                            for (int t : run)
                                if (t != self && a-- == 0) return t;
                            for (int t : run) if (t != self) return t;
                        }
                        return self;
                    });
                    if (p < 0) { len = sched::steps; break; }
                }
                if (p >= len) break;
            }
        }
        hv::rng rr(seed * 104729 + idx);
        while (done < execs)
        {
            int pc = 5 + rr.below(45);
            execute([&](int self, const std::vector<int>& run) {
                if (self && !rr.chance(pc)) return self;
                return run[rr.below(int(run.size()))];
            });
        }
        std::fprintf(out, ",\"execs\":%d,\"runs\":[", done);
        for (std::size_t j = 0; j < logs.size(); ++j) std::fprintf(out, "%s{\"ev\":[%s]}", j ? "," : "", logs[j].c_str());
        std::fputs("]}\n", out);
        total += done;
        distinct += long(logs.size());
    }
    std::fclose(out);
    std::printf("%ld %ld\n", total, distinct);
    std::fflush(stdout);
    _exit(0);
}
