// Random re-entrant single-threaded programs over the real kl::signal; records events for SignalTrace.tla.
#include "common.hpp"
#include <kl/signal.hpp>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>

using sgnl = kl::signal<void(int, std::string, std::vector<int>&)>;
constexpr int NS = 3, NC = 6, NK = 4, NB = 5;

struct Boom { int id; };

struct Opt // what a family of programs may use
{
    std::string family;
    int depth = 3, budget = 60;
    bool thr = false, chain = false, move = false, caps = false, destroy = false;
};

struct World;
static World* W;

struct Tracker // one per slot callable; its destruction is the callable's destruction
{
    int k;
    explicit Tracker(int k_) : k(k_) {}
    ~Tracker();
    std::unique_ptr<kl::scoped_connection> cap;
    int capsig = -1; // signal to query from the destructor
};

struct Obj
{
    int k;
    std::shared_ptr<Tracker> tr;
    void mf(int v, std::string s, std::vector<int>& acc);
    void cmf(int v, std::string s, std::vector<int>& acc) const;
};

struct World
{
    hv::rng r;
    Opt opt;
    std::vector<std::string> ev;
    std::unique_ptr<sgnl> S[NS];
    kl::connection C[NC];
    kl::scoped_connection K[NK];
    kl::connection::blocker B[NB];
    std::map<int, std::shared_ptr<Obj>> objs; // raw / weak instances kept alive here
    int slots = 0, emits = 0, booms = 0, depth = 0, budget = 0, in_dtor = 0, active = 0;
    bool dying = false;

    World(std::uint64_t seed, const Opt& o) : r(seed), opt(o), budget(o.budget)
    {
        for (auto& s : S) s = std::make_unique<sgnl>();
    }
    void log(const std::string& o, int x = 0, int y = 0, int z = 0, int c = 0, const std::string& more = "")
    {
        ev.push_back("{\"o\":\"" + o + "\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"z\":" +
                     std::to_string(z) + ",\"c\":" + std::to_string(c) + ",\"chk\":0" + more + "}");
    }
    void ret() { ev.push_back(std::string("{\"o\":\"ret\",\"chk\":") + (in_dtor == 0 ? "1" : "0") + "}"); }
    void q(const std::string& o, int x, int y, int res)
    {
        ev.push_back("{\"o\":\"" + o + "\",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"r\":" +
                     std::to_string(res) + ",\"chk\":0}");
    }

    void body(int k, int v, const std::string& s, std::vector<int>& acc)
    {
        log("enter", k, s == "arg" + std::to_string(v) ? v : -1);
        acc.push_back(k);
        int boom = 0;
        ++depth;
        int n = depth > opt.depth ? 0 : r.below(4);
        try
        {
            for (int i = 0; i < n && budget > 0; ++i) op(true);
        }
        catch (Boom& b)
        {
            boom = b.id;
        }
        --depth;
        if (!boom && opt.thr && r.chance(12)) boom = ++booms;
        log("exit", k, boom);
        if (boom) throw Boom{boom};
    }

    kl::connection do_connect(int s, kl::connect_position at, const std::string& kind, int k, int tgt, std::shared_ptr<Tracker> tr)
    {
        using std::placeholders::_1;
        sgnl& sg = *S[s];
        if (kind == "chain") return sg.connect(*S[tgt], at);
        if (kind == "fn")
        {
            auto f = [this, k, tr](int v, std::string str, std::vector<int>& acc) { body(k, v, str, acc); };
            tr.reset();
            if (at == kl::at_back && r.chance(30)) return sg += std::move(f);
            return sg.connect(std::move(f), at);
        }
        auto o = std::make_shared<Obj>();
        o->k = k;
        if (kind == "shared")
        {
            o->tr = std::move(tr);
            if (r.chance(50)) return sg.connect(&Obj::mf, std::move(o), at);
            std::shared_ptr<const Obj> co = std::move(o);
            return sg.connect(&Obj::cmf, std::move(co), at);
        }
        objs[k] = o;
        if (kind == "weak") weak.insert(k);
        if (kind == "weak")
        {
            if (r.chance(50)) return sg.connect(&Obj::mf, std::weak_ptr<Obj>(o), at);
            return sg.connect(&Obj::cmf, std::weak_ptr<const Obj>(o), at);
        }
        switch (r.below(4))
        {
        case 0: return sg.connect(&Obj::mf, o.get(), at);
        case 1: return sg.connect(&Obj::cmf, static_cast<const Obj*>(o.get()), at);
        case 2: return sg.connect(&Obj::mf, *o, at);
        default: return sg.connect(&Obj::cmf, static_cast<const Obj&>(*o), at);
        }
    }

    void connect()
    {
        if (slots >= 14) return;
        if (opt.caps && r.chance(12)) return self_connect();
        int s = r.below(NS), c = r.below(NC);
        if (opt.family == "one") s = 0;
        auto at = r.chance(40) ? kl::at_front : kl::at_back;
        if (r.chance(3))
        {
            log("connnull", 0, 0, 0, c + 1);
            C[c] = S[s]->connect(sgnl::slot_type{}, at);
            ret();
            return;
        }
        int tgt = 0;
        std::string kind = "fn";
        int p = r.below(100);
        if (opt.chain && s < NS - 1 && p < 18) { kind = "chain"; tgt = s + 1 + r.below(NS - 1 - s); }
        else if (p < 26) kind = "shared";
        else if (p < 32) kind = "weak";
        else if (p < 38) kind = "raw";
        int k = ++slots;
        std::shared_ptr<Tracker> tr;
        if (kind == "fn" || kind == "shared") tr = std::make_shared<Tracker>(k);
        bool tok = r.chance(15);
        std::string more = ",\"k\":" + hv::jstr(kind);
        int kk = r.below(NK), capc = -1;
        if (opt.caps && tr && r.chance(50))
        {
            // the callable owns a scoped connection to another slot (possibly of the same signal)
            capc = r.below(NC);
            tr->cap = std::make_unique<kl::scoped_connection>(C[capc]);
            tr->capsig = s;
        }
        more += ",\"cap\":" + std::to_string(capc + 1);
        log(tok ? "connectk" : "connect", s + 1, at == kl::at_front, tgt + 1, (tok ? kk : c) + 1, more);
        if (tok) K[kk] = do_connect(s, at, kind, k, tgt, std::move(tr));
        else C[c] = do_connect(s, at, kind, k, tgt, std::move(tr));
        ret();
    }

    void emit(int s)
    {
        int v = ++emits;
        std::vector<int> acc;
        log("emit", s + 1, v);
        ++active;
        int boom = 0;
        try { (*S[s])(v, "arg" + std::to_string(v), acc); }
        catch (Boom& b) { boom = b.id; }
        --active;
        std::string a = ",\"acc\":[";
        for (std::size_t i = 0; i < acc.size(); ++i) a += (i ? "," : "") + std::to_string(acc[i]);
        ev.push_back("{\"o\":\"eret\",\"x\":" + std::to_string(s + 1) + ",\"y\":" + std::to_string(boom) + a + "],\"chk\":" +
                     (in_dtor == 0 ? "1" : "0") + "}");
        if (boom && depth > 0 && r.chance(50)) throw Boom{boom};
    }

    void cur(bool handles = true)
    {
        kl::connection cc = kl::this_signal::current_connection();
        std::string e = ",\"eq\":[";
        for (int c = 0; c < NC; ++c) e += std::string(c ? "," : "") + (handles ? (cc == C[c] ? "1" : "0") : "2");
        int isempty = cc == kl::connection{};
        int con = cc.connected();
        cc = kl::connection{};
        log("cur", isempty, con, 0, 0, e + "]");
    }

    void handle_op()
    {
        int c = r.below(NC), d = r.below(NC), k = r.below(NK), m = r.below(NK);
        switch (r.below(13))
        {
        case 0: log("copyc", c + 1, d + 1); C[c] = C[d]; ret(); break;
        case 1: log("swapc", c + 1, d + 1); if (r.chance(50)) swap(C[c], C[d]); else C[c] = std::move(C[d]); ret(); break;
        case 2: log("dropc", c + 1); C[c] = kl::connection{}; ret(); break;
        case 3: log("scope", k + 1, d + 1); K[k] = kl::scoped_connection(C[d]); ret(); break;
        case 4: log("swapk", k + 1, m + 1); if (r.chance(50)) swap(K[k], K[m]); else K[k] = std::move(K[m]); ret(); break;
        case 5: log("dropk", k + 1); { kl::scoped_connection tmp(std::move(K[k])); } ret(); break;
        case 6: log("release", k + 1, c + 1); C[c] = K[k].release(); ret(); break;
        case 7: log("getk", k + 1, c + 1); C[c] = K[k].get(); ret(); break;
        case 8:
        {
            // copy construction / move construction of temporaries changes nothing
            log("copyc", c + 1, d + 1);
            { kl::connection t(C[d]); kl::connection u(std::move(t)); u = u; C[c] = u; }
            ret();
            break;
        }
        case 9: q("ceq", c + 1, d + 1, C[c] == C[d] && C[c].hash() == C[d].hash() && !(C[c] < C[d]) && !(C[d] < C[c])); break;
        case 10: q("keq", k + 1, c + 1, K[k].get() == C[c]); break;
        case 11: q("kconn", k + 1, 0, K[k].get().connected()); break;
        default: log("curget", c + 1); C[c] = kl::this_signal::current_connection(); ret(); break;
        }
    }
    void block_op()
    {
        int b = r.below(NB), d = r.below(NB), c = r.below(NC);
        switch (r.below(7))
        {
        case 0: log("blk", b + 1, c + 1); B[b] = C[c].get_blocker(); ret(); break;
        case 1: log("blk", b + 1, c + 1); { kl::connection::blocker t(C[c]); B[b] = t; } ret(); break;
        case 2: log("copyb", b + 1, d + 1); B[b] = B[d]; ret(); break;
        case 3: log("copyb", b + 1, d + 1); { kl::connection::blocker t(B[d]); kl::connection::blocker u(std::move(t)); B[b] = std::move(u); } ret(); break;
        case 4: log("swapb", b + 1, d + 1); if (r.chance(50)) swap(B[b], B[d]); else B[b] = std::move(B[d]); ret(); break;
        case 5: log("dropb", b + 1); B[b] = kl::connection::blocker{}; ret(); break;
        default: q("blocking", b + 1, 0, B[b].blocking()); break;
        }
    }
    void queries()
    {
        std::string n = ",\"num\":[", e = "],\"emp\":[", c = "],\"con\":[", k = "],\"kon\":[";
        for (int i = 0; i < NS; ++i)
        {
            n += (i ? "," : "") + std::to_string(S[i]->num_slots());
            e += std::string(i ? "," : "") + (S[i]->empty() ? "1" : "0");
        }
        for (int i = 0; i < NC; ++i) c += std::string(i ? "," : "") + (C[i].connected() ? "1" : "0");
        for (int i = 0; i < NK; ++i) k += std::string(i ? "," : "") + (K[i].get().connected() ? "1" : "0");
        log("obs", 0, 0, 0, 0, n + e + c + k + "]");
    }
    void sig_op()
    {
        if (in_dtor) return;
        if (opt.family == "move" && r.chance(active ? 8 : 2)) return try_move();
        if (active) return;
        int s = r.below(NS), t = r.below(NS);
        switch (r.below(opt.chain ? 2 : 4))
        {
        case 0: log("swapsig", s + 1, t + 1); swap(*S[s], *S[t]); ret(); break;
        case 1: log("swapsig", s + 1, t + 1); *S[s] = std::move(*S[t]); ret(); break;
        case 2:
        {
            log("renamesig", s + 1);
            auto n = std::make_unique<sgnl>(std::move(*S[s]));
            S[s] = std::move(n);
            ret();
            break;
        }
        default:
        {
            // s takes over t's slots by move construction, t is replaced by s's old ones
            log("swapsig", s + 1, t + 1);
            if (s != t)
            {
                sgnl tmp(std::move(*S[s]));
                *S[s] = std::move(*S[t]);
                swap(*S[t], tmp);
            }
            ret();
        }
        }
    }

    // moving or swapping, tried in a child process: does it terminate?
    void try_move()
    {
        int a = r.below(NS), b = r.below(NS), kind = r.below(3);
        pid_t pid = fork();
        if (pid == 0)
        {
            alarm(10);
            std::fclose(stderr);
            close(2);
            if (kind == 0) swap(*S[a], *S[b]);
            else if (kind == 1) *S[a] = std::move(*S[b]);
            else { sgnl t(std::move(*S[a])); }
            _exit(0);
        }
        int stt = 0;
        waitpid(pid, &stt, 0);
        int res = WIFEXITED(stt) && WEXITSTATUS(stt) == 0 ? 0 : WIFSIGNALED(stt) && WTERMSIG(stt) == SIGABRT ? 1 : 2;
        ev.push_back("{\"o\":\"trymove\",\"x\":" + std::to_string(a + 1) + ",\"y\":" + std::to_string(b + 1) + ",\"z\":" +
                     std::to_string(kind) + ",\"r\":" + std::to_string(res) + ",\"chk\":0}");
    }

    void op(bool inside)
    {
        if (budget-- <= 0) return;
        const std::string& f = opt.family;
        int w[10] = {20, 18, 10, 3, 10, 8, 8, 10, 4, 6};
        //           connect emit dis disall handle block stop queries sig cur
        if (f == "emit" || f == "one") { w[0] = 34; w[1] = 34; w[4] = 4; w[5] = 4; w[3] = 2; }
        if (f == "disc") { w[2] = 22; w[3] = 6; w[4] = 26; w[5] = 3; w[7] = 14; }
        if (f == "block") { w[5] = 40; w[1] = 26; }
        if (f == "stop") { w[6] = 26; w[9] = 22; w[1] = 30; w[5] = 2; }
        if (f == "life") { w[2] = 16; w[4] = 20; w[3] = 5; }
        if (f == "move") { w[8] = 26; }
        if (!opt.move) w[8] = 0;
        if (inside && f != "stop") { w[6] = 4; }
        int tot = 0;
        for (int x : w) tot += x;
        int p = r.below(tot), i = 0;
        while (p >= w[i]) p -= w[i++];
        switch (i)
        {
        case 0: connect(); break;
        case 1: if (depth <= opt.depth && active < 6) emit(f == "one" ? 0 : r.below(NS)); break;
        case 2:
        {
            int c = r.below(NC);
            if (opt.caps && r.chance(20)) self_disconnect();
            else if (inside && r.chance(30)) { log("curdis"); auto cc = kl::this_signal::current_connection(); cc.disconnect(); cc = {}; ret(); }
            else { log("dis", c + 1); C[c].disconnect(); ret(); }
            break;
        }
        case 3:
        {
            int s = r.below(NS);
            if (opt.destroy && !active && !in_dtor && !opt.chain && r.chance(40))
            {
                log("newsig", s + 1);
                S[s].reset();
                S[s] = std::make_unique<sgnl>();
                ret();
            }
            else { log("disall", s + 1); S[s]->disconnect_all_slots(); ret(); }
            break;
        }
        case 4: handle_op(); break;
        case 5: block_op(); break;
        case 6: log("stop"); kl::this_signal::stop_emission(); break;
        case 7:
            if (r.chance(15) && !objs.empty())
            {
                auto it = objs.begin();
                std::advance(it, r.below(int(objs.size())));
                // only weak instances may go away; raw ones must stay
                if (it->second.use_count() == 1 && weak.count(it->first)) { log("expire", it->first); objs.erase(it); }
            }
            else queries();
            break;
        case 8: sig_op(); break;
        default: cur(); break;
        }
    }
    std::set<int> weak;
    struct SelfO { kl::connection c; std::shared_ptr<Tracker> tr; };
    std::map<int, SelfO*> selfs;

    // an object owned by the very callable it has connected; its connection member is told to disconnect
    void self_connect()
    {
        if (slots >= 14) return;
        int s = r.below(NS), k = ++slots;
        auto at = r.chance(40) ? kl::at_front : kl::at_back;
        auto o = std::make_shared<SelfO>();
        o->tr = std::make_shared<Tracker>(k);
        SelfO* p = selfs[k] = o.get();
        log("connectself", s + 1, at == kl::at_front);
        p->c = S[s]->connect([this, k, o = std::move(o)](int v, std::string str, std::vector<int>& acc) { body(k, v, str, acc); }, at);
        ret();
    }
    void self_disconnect()
    {
        if (selfs.empty()) return;
        auto it = selfs.begin();
        std::advance(it, r.below(int(selfs.size())));
        log("capdis", it->first);
        it->second->c.disconnect();
        ret();
    }

    void run()
    {
        W = this;
        while (budget > 0) { op(false); if (r.chance(30)) queries(); }
        for (int s = 0; s < NS; ++s) emit(s);
        queries();
        cur();
        // tear down: every callable has to go
        for (int b = 0; b < NB; ++b) { log("dropb", b + 1); B[b] = {}; ret(); }
        for (int s = 0; s < NS; ++s) emit(s);
        for (int k = 0; k < NK; ++k) { log("dropk", k + 1); K[k] = {}; ret(); }
        queries();
        for (int s = 0; s < NS; ++s) emit(s);
        for (int c = 0; c < NC; ++c) { log("dropc", c + 1); C[c] = {}; ret(); }
        for (int s = 0; s < NS; ++s) { log("newsig", s + 1); S[s].reset(); S[s] = std::make_unique<sgnl>(); ret(); }
        queries();
        dying = true;
        objs.clear();
    }
};

Tracker::~Tracker()
{
    if (!W || W->dying) return;
    ++W->in_dtor;
    W->log("destroyed", k);
    W->selfs.erase(k);
    if (!W->opt.chain && W->r.chance(30)) W->cur(false); // (ends of forwarded emissions are not logged)
    if (cap)
    {
        W->log("capdis", k);
        cap.reset();
        W->ret();
        if (capsig >= 0 && W->S[capsig]) W->q("num", capsig + 1, 0, int(W->S[capsig]->num_slots()));
    }
    --W->in_dtor;
}
void Obj::mf(int v, std::string s, std::vector<int>& acc) { W->body(k, v, s, acc); }
void Obj::cmf(int v, std::string s, std::vector<int>& acc) const { W->body(k, v, s, acc); }

int main(int argc, char** argv)
{
    // sig_seq FAMILY SEED START COUNT OUT
    std::string fam = argv[1];
    std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
    int start = std::atoi(argv[3]), n = std::atoi(argv[4]);
    FILE* out = std::fopen(argv[5], "w");
    for (int i = start; i < start + n; ++i)
    {
        std::uint64_t ps = seed * 1000003ull + i;
        Opt o;
        o.family = fam;
        hv::rng pr(ps ^ 0x5555);
        o.budget = 10 + pr.below(70);
        o.depth = 1 + pr.below(3);
        o.chain = (fam == "emit" || fam == "stop") && pr.chance(40);
        o.thr = (fam == "life" || fam == "stop") && pr.chance(70);
        o.caps = fam == "life" && pr.chance(70);
        o.move = fam == "move" || (fam == "life" && pr.chance(30));
        o.destroy = fam != "one";
        std::fprintf(out, "{\"idx\":%d", i);
        std::fflush(out);
        alarm(20); // a hang (self-deadlock, endless traversal) ends the process
        World w(ps, o);
        w.run();
        alarm(0);
        std::fputs(",\"ev\":[", out);
        for (std::size_t j = 0; j < w.ev.size(); ++j) std::fprintf(out, "%s%s", j ? "," : "", w.ev[j].c_str());
        std::fputs("]}\n", out);
        W = nullptr;
    }
    std::fclose(out);
    return 0;
}
