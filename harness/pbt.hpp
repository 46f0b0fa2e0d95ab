// A small property-based testing engine.
//
// Every random decision of a generator is one call of Src::draw(n), recorded as
// a number.  A case IS its list of draws ("choice sequence"): shrinking edits
// the list and replay feeds it back, so both work for every generator without
// any per-type code.  Case i of a run is generated from hash(seed, property, i)
// alone, so a run is a pure function of the code under test, the seed and the
// case count, whatever the number of threads.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Fail
{
    std::string msg;
};

// The choice source: random or replaying.
struct Src
{
    std::vector<uint32_t> rec;
    const std::vector<uint32_t>* replay = nullptr;
    size_t pos = 0;
    uint64_t st = 0;

    void seed(uint64_t s)
    {
        st     = s;
        replay = nullptr;
        pos    = 0;
        rec.clear();
    }
    void feed(const std::vector<uint32_t>& v)
    {
        replay = &v;
        pos    = 0;
        rec.clear();
    }
    // A number in [0, n); 0 is the simplest choice.
    uint32_t draw(uint32_t n)
    {
        uint32_t v = 0;
        if (n > 1)
        {
            if (replay)
            {
                v = pos < replay->size() ? (*replay)[pos] : 0;
                if (v >= n)
                    v %= n;
            }
            else
            {
                st += 0x9e3779b97f4a7c15ull;
                uint64_t x = st;
                x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
                x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
                x ^= x >> 31;
                v = (uint32_t)(((x >> 32) * (uint64_t)n) >> 32);
            }
        }
        ++pos;
        rec.push_back(v);
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
};

// What one case reports besides pass/fail.
struct Ctx
{
    bool verbose = false;      // collect a printable description
    std::string desc;
    bool nontrivial = false;
    uint64_t hash   = 0;
    std::vector<const char*> labels;
    uint64_t excluded = 0;     // inputs skipped because they are listed findings
    void note(const std::string& s)
    {
        if (verbose)
            desc += (desc.empty() ? "" : "; ") + s;
    }
    void label(const char* l) { labels.push_back(l); }
    void h(uint64_t x) { hash = mix(hash ^ x); }
    void hf(float f)
    {
        uint32_t u;
        std::memcpy(&u, &f, 4);
        h(u);
    }
    void reset(bool v)
    {
        verbose = v;
        desc.clear();
        nontrivial = false;
        hash       = 0;
        labels.clear();
    }
};

using Prop = std::function<void(Src&, Ctx&)>;

// ---------------------------------------------------------------------------
// Crash containment: a fatal signal while the code under test runs becomes a
// failure of the current case.
inline thread_local sigjmp_buf* tl_jmp = nullptr;
inline thread_local volatile sig_atomic_t tl_sig = 0;
inline void on_signal(int s)
{
    if (tl_jmp)
    {
        tl_sig = s;
        siglongjmp(*tl_jmp, 1);
    }
    signal(s, SIG_DFL);
    raise(s);
}
inline void install_signals()
{
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_NODEFER | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU})
        sigaction(s, &sa, nullptr);
}
inline void thread_altstack()
{
    static thread_local struct Stack
    {
        stack_t ss{};
        Stack()
        {
            ss.ss_sp   = malloc(1 << 16);
            ss.ss_size = 1 << 16;
            sigaltstack(&ss, nullptr);
        }
        ~Stack()
        {
            stack_t off{};
            off.ss_flags = SS_DISABLE;
            sigaltstack(&off, nullptr);
            free(ss.ss_sp);
        }
    } stack;
    (void)&stack;
}
template <class F> inline void guarded(const char* what, F&& f)
{
    sigjmp_buf jb;
    sigjmp_buf* old = tl_jmp;
    if (sigsetjmp(jb, 1) == 0)
    {
        tl_jmp = &jb;
        f();
        tl_jmp = old;
    }
    else
    {
        tl_jmp = old;
        throw Fail{std::string("fatal signal ") + strsignal(tl_sig) + " in " + what};
    }
}

inline std::string json_escape(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (o += '\\') += c;
        else if (c < 0x20 || c >= 0x7f)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

struct Options
{
    std::string property, tier = "quick", replay, replay_out, evidence;
    uint64_t seed     = 1;
    uint64_t cases    = 0; // 0: the property's own count
    double scale      = 1;
    unsigned threads  = 8;
    double max_wall   = 600;
    bool concurrent   = true; // may the property's cases run in several threads at once
};

struct Outcome
{
    uint64_t evaluations = 0, distinct = 0, excluded = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool failed = false, budget_hit = false;
    std::vector<uint64_t> history; // cases run in this order, the last one fails
    uint64_t concurrent = UINT64_MAX; // cases from here on, run in several threads at once
    std::vector<uint32_t> choices;
    std::string msg, desc;
    double wall = 0;
    uint64_t shrinks = 0;
};

// Runs one case; returns true on failure.
inline bool run_case(const Prop& p, Src& s, Ctx& c, std::string& msg)
{
    try
    {
        p(s, c);
        return false;
    }
    catch (const Fail& f)
    {
        msg = f.msg;
        return true;
    }
}

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// Lexicographically smaller and shorter is simpler.
inline void shrink(const Prop& p, std::vector<uint32_t>& best, std::string& msg, uint64_t& tries)
{
    Src s;
    Ctx c;
    const uint64_t limit = 60000;
    double t0            = now();
    auto ok = [&] { return tries < limit && now() - t0 < 60; };
    auto attempt = [&](const std::vector<uint32_t>& cand) {
        ++tries;
        s.feed(cand);
        c.reset(false);
        std::string m;
        if (run_case(p, s, c, m))
        {
            if (s.rec.size() < best.size() || (s.rec.size() == best.size() && s.rec < best))
            {
                best = s.rec;
                msg  = m;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && ok())
    {
        progress = false;
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
            for (size_t i = 0; i + len <= best.size() && ok();)
            {
                auto cand = best;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand))
                    progress = true;
                else
                    ++i;
            }
        for (size_t len : {8, 4, 2, 1})
            for (size_t i = 0; i + len <= best.size() && ok(); ++i)
            {
                auto cand = best;
                bool nz   = false;
                for (size_t k = 0; k != len; ++k)
                {
                    nz |= cand[i + k] != 0;
                    cand[i + k] = 0;
                }
                if (nz && attempt(cand))
                    progress = true;
            }
        for (size_t i = 0; i < best.size() && ok(); ++i)
        {
            uint32_t lo = 0, hi = best[i];
            while (lo < hi && ok() && i < best.size())
            {
                uint32_t mid = lo + (hi - lo) / 2;
                auto cand    = best;
                cand[i]      = mid;
                if (attempt(cand))
                {
                    progress = true;
                    if (i >= best.size())
                        break;
                    hi = std::min(mid, best[i]);
                }
                else
                    lo = mid + 1;
            }
            // decrement helps where the binary search is fooled
            if (i < best.size() && best[i] > 0 && ok())
            {
                auto cand = best;
                cand[i] -= 1;
                if (attempt(cand))
                    progress = true;
            }
        }
    }
}

constexpr uint64_t kBlock = 64;
// Runs generated cases one after the other in this thread; does the last fail?
inline bool run_history(const Prop& p, uint64_t seed, uint64_t salt, std::vector<uint64_t> const& h, std::string& msg, std::string* desc = nullptr)
{
    Src s;
    Ctx c;
    bool bad = false;
    for (size_t i = 0; i != h.size(); ++i)
    {
        s.seed(mix(mix(seed) ^ mix(salt + h[i])));
        c.reset(desc && i + 1 == h.size());
        std::string m;
        bad = run_case(p, s, c, m);
        if (bad)
            msg = m;
    }
    if (desc)
        *desc = c.desc;
    return bad;
}
// Runs the cases from b on in 8 threads at the same time for a while.
inline bool run_concurrent(const Prop& p, uint64_t seed, uint64_t salt, uint64_t b, uint64_t n, double secs, std::string& msg)
{
    std::atomic<bool> bad{false};
    std::mutex mu;
    double t0 = now();
    auto f    = [&](uint64_t k) {
        thread_altstack();
        Src s;
        Ctx c;
        for (; !bad && now() - t0 < secs; ++k)
        {
            s.seed(mix(mix(seed) ^ mix(salt + b + k % n)));
            c.reset(false);
            std::string m;
            if (run_case(p, s, c, m))
            {
                std::lock_guard<std::mutex> g(mu);
                bad = true;
                msg = m;
            }
        }
    };
    std::vector<std::thread> ts;
    for (uint64_t w = 0; w != 8; ++w)
        ts.emplace_back(f, w * n / 8);
    for (auto& t : ts)
        t.join();
    return bad;
}
inline uint64_t salt_of(std::string const& property)
{
    uint64_t salt = 0;
    for (char ch : property)
        salt = mix(salt ^ (unsigned char)ch);
    return salt;
}
// A case that failed amid others and passes alone: the calls before it or
// beside it matter.  Confirmed by repeating them three times.
inline bool confirm_context(const Options& o, const Prop& p, uint64_t salt, uint64_t idx, uint64_t cases, bool threads, Outcome& out)
{
    std::vector<uint64_t> h;
    for (uint64_t i = idx / kBlock * kBlock; i <= idx; ++i)
        h.push_back(i);
    std::string m;
    auto fails = [&](std::vector<uint64_t> const& x) {
        for (int k = 0; k != 3; ++k)
            if (!run_history(p, o.seed, salt, x, m))
                return false;
        return true;
    };
    if (fails(h))
    {
        for (size_t len = 32; len; len /= 2)
            for (size_t i = 0; i + len < h.size();)
            {
                auto cand = h;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (fails(cand))
                    h = cand;
                else
                    i += len;
            }
        run_history(p, o.seed, salt, h, m, &out.desc);
        out.failed  = true;
        out.history = h;
        out.msg     = "after " + std::to_string(h.size() - 1) + " other cases (alone it passes): " + m;
        return true;
    }
    if (!threads)
        return false;
    uint64_t b = idx / kBlock * kBlock, n = std::min(kBlock, cases - b);
    for (int k = 0; k != 3; ++k)
        if (!run_concurrent(p, o.seed, salt, b, n, 3, m))
            return false;
    out.failed     = true;
    out.concurrent = b;
    out.desc       = "cases " + std::to_string(b) + "-" + std::to_string(b + n - 1) + " in 8 threads at once";
    out.msg        = "while other threads call the library (alone it passes): " + m;
    return true;
}

// How many distinct hashes a run remembers exactly (beyond it: a lower bound).
constexpr size_t kMaxDistinct = 24u << 20;

inline Outcome run_once(const Options& o, const Prop& p, uint64_t cases, std::set<uint64_t>& flaky)
{
    Outcome out;
    double t0 = now();
    const uint64_t salt = salt_of(o.property);
    const unsigned W = std::max(1u, o.threads);
    std::atomic<uint64_t> next{0};
    std::atomic<uint64_t> fail_idx{UINT64_MAX};
    std::atomic<bool> stop{false};
    std::mutex mu;
    std::vector<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::map<uint64_t, std::string> samples;
    uint64_t evals = 0, excluded = 0;
    std::vector<std::atomic<double>> started(W);
    std::vector<std::atomic<uint64_t>> current(W);
    std::vector<pthread_t> handles(W);
    for (auto& s : started)
        s = 0;
    std::atomic<unsigned> live{W};
    const uint64_t block = kBlock;
    auto worker = [&](unsigned w) {
        thread_altstack();
        Src s;
        Ctx c;
        std::vector<uint64_t> hs;
        std::map<const char*, uint64_t> ls;
        uint64_t n = 0, ex = 0;
        std::map<uint64_t, std::string> sm;
        std::string msg;
        for (;;)
        {
            uint64_t b = next.fetch_add(block);
            if (b >= cases || stop.load(std::memory_order_relaxed) || b > fail_idx.load())
                break;
            for (uint64_t i = b; i != std::min(cases, b + block); ++i)
            {
                if (!flaky.empty() && flaky.count(i))
                    continue;
                s.seed(mix(mix(o.seed) ^ mix(salt + i)));
                bool sample = (i & (i - 1)) == 0 && i >= 256 && i <= (1u << 18);
                c.reset(sample);
                started[w] = now();
                current[w] = i;
                bool bad = run_case(p, s, c, msg);
                started[w] = 0;
                ++n;
                ex += c.excluded;
                c.excluded = 0;
                for (auto l : c.labels)
                    ++ls[l];
                if (c.nontrivial)
                    hs.push_back(c.hash);
                if (sample && !c.desc.empty())
                    sm[i] = c.desc.substr(0, 700);
                if (bad)
                {
                    uint64_t cur = fail_idx.load();
                    while (i < cur && !fail_idx.compare_exchange_weak(cur, i)) {}
                    break;
                }
            }
            if (hs.size() > (1u << 20))
            {
                std::sort(hs.begin(), hs.end());
                hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
                std::lock_guard<std::mutex> g(mu);
                if (hashes.size() < kMaxDistinct)
                    hashes.insert(hashes.end(), hs.begin(), hs.end());
                hs.clear();
            }
        }
        std::lock_guard<std::mutex> g(mu);
        evals += n;
        excluded += ex;
        for (auto& kv : ls)
            labels[kv.first] += kv.second;
        samples.insert(sm.begin(), sm.end());
        if (hashes.size() < kMaxDistinct)
            hashes.insert(hashes.end(), hs.begin(), hs.end());
        --live;
    };
    std::vector<std::thread> ts;
    for (unsigned w = 0; w != W; ++w)
        ts.emplace_back(worker, w);
    // Watchdog: a single case that runs for 100 s is a hang (a case normally
    // takes microseconds); it is confirmed below in child processes.
    uint64_t hung = UINT64_MAX;
    while (live.load())
    {
        usleep(20000);
        double t = now();
        if (t - t0 > o.max_wall)
        {
            stop           = true;
            out.budget_hit = true;
        }
        for (unsigned w = 0; w != W; ++w)
        {
            double st = started[w].load();
            if (st != 0 && t - st > 100)
                hung = current[w].load();
        }
        if (hung != UINT64_MAX)
            break;
    }
    if (hung != UINT64_MAX)
    {
        // regenerate the choices up to the hang is impossible without running
        // it, so the child records them through a pipe
        int hangs = 0;
        std::vector<uint32_t> ch;
        for (int k = 0; k != 3; ++k)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                rlimit rl{60, 60};
                setrlimit(RLIMIT_CPU, &rl);
                signal(SIGXCPU, SIG_DFL);
                Src s;
                Ctx c;
                std::string m;
                s.seed(mix(mix(o.seed) ^ mix(salt + hung)));
                _exit(run_case(p, s, c, m) ? 3 : 0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st))
                ++hangs;
        }
        for (auto& t : ts)
            t.detach();
        out.evaluations = hung;
        if (hangs == 3)
        {
            out.failed  = true;
            out.msg     = "case does not terminate (over 60 s of CPU time, three times)";
            out.desc    = "case index " + std::to_string(hung) + " of seed " + std::to_string(o.seed);
            out.choices = {(uint32_t)hung, (uint32_t)(hung >> 32)};
            out.labels["hang"] = 1;
        }
        else
            out.budget_hit = true;
        out.wall = now() - t0;
        return out;
    }
    for (auto& t : ts)
        t.join();
    out.evaluations = evals;
    out.excluded    = excluded;
    std::sort(hashes.begin(), hashes.end());
    out.distinct = std::unique(hashes.begin(), hashes.end()) - hashes.begin();
    out.labels   = labels;
    for (auto& kv : samples)
        if (out.samples.size() < 12)
            out.samples.push_back(kv.second);
    if (fail_idx.load() != UINT64_MAX)
    {
        thread_altstack();
        Src s;
        Ctx c;
        s.seed(mix(mix(o.seed) ^ mix(salt + fail_idx.load())));
        std::string m;
        c.reset(false);
        if (!run_case(p, s, c, m))
        {
            // did not reproduce alone
            if (confirm_context(o, p, salt, fail_idx.load(), cases, o.concurrent, out))
            {
                out.wall = now() - t0;
                return out;
            }
            fprintf(stderr, "note: case %llu failed once and passed when repeated\n",
                    (unsigned long long)fail_idx.load());
            flaky.insert(fail_idx.load());
        }
        else
        {
            std::vector<uint32_t> best = s.rec;
            shrink(p, best, m, out.shrinks);
            int rep = 0;
            for (int k = 0; k != 3; ++k)
            {
                Src r;
                Ctx rc;
                rc.reset(true);
                r.feed(best);
                std::string mm;
                if (run_case(p, r, rc, mm))
                {
                    ++rep;
                    m        = mm;
                    out.desc = rc.desc;
                }
            }
            if (rep == 3)
            {
                out.failed  = true;
                out.choices = best;
                out.msg     = m;
            }
            else
            {
                if (confirm_context(o, p, salt, fail_idx.load(), cases, o.concurrent, out))
                {
                    out.wall = now() - t0;
                    return out;
                }
                fprintf(stderr, "note: shrunk case reproduced only %d of 3 times\n", rep);
                flaky.insert(fail_idx.load());
            }
        }
    }
    out.wall = now() - t0;
    return out;
}

// A failure that does not repeat is never reported; the search goes on past it.
inline Outcome run(const Options& o, const Prop& p, uint64_t cases)
{
    std::set<uint64_t> flaky;
    for (;;)
    {
        size_t before = flaky.size();
        Outcome out   = run_once(o, p, cases, flaky);
        if (out.failed || flaky.size() == before || flaky.size() >= 6)
            return out;
    }
}
} // namespace pbt
