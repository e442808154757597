// A small property-based testing engine (Hypothesis style, choice-sequence based).
//
//  * every random decision of a generator goes through Src::draw and is recorded, so that a failing
//    case is a list of integers which is shrunk as one value and replayed without any random source;
//  * cases are a pure function of (VERIF_SEED, sub-property name, case index, dictionary);
//  * cases run in forked workers: a crash (signal, terminate) or a hang of the tested code is a failing
//    case and is shrunk like any other one;
//  * before a failure is reported it is replayed three times in fresh processes.  If the single case
//    does not fail alone (it depends on the calls made before it in the same process), the stream of cases which led
//    to it is replayed instead.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
typedef unsigned __int128 u128;
typedef __int128 i128;

struct Fail
{
    std::string msg;
};

inline uint64_t mix64(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline uint64_t hash_str(std::string_view s)
{
    uint64_t h = 0xcbf29ce484222325ull;
    for(unsigned char c : s)
        h = (h ^ c) * 0x100000001b3ull;
    return mix64(h);
}

// ---------------------------------------------------------------- source of choices
class Src
{
public:
    static constexpr size_t cap = 8192;

    void start_random(uint64_t seed, uint64_t idx)
    {
        m_replay = nullptr;
        m_state = seed;
        m_idx = idx;
        m_n = 0;
    }

    void start_replay(const std::vector<uint64_t>* r)
    {
        m_replay = r;
        m_idx = 0;
        m_n = 0;
    }

    // uniform in [0, n), n == 0 means all 64 bits.
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if(m_replay)
            v = m_n < m_replay->size() ? (*m_replay)[m_n] : 0;
        else
        {
            m_state += 0x9E3779B97F4A7C15ull;
            uint64_t x = m_state;
            x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
            x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
            v = x ^ (x >> 31);
            if(n)
                v = static_cast<uint64_t>((static_cast<u128>(v) * n) >> 64);
        }
        if(n)
            v = v >= n ? v % n : v;
        if(m_n < cap)
            m_log[m_n] = v;
        ++m_n;
        return v;
    }

    bool coin(uint64_t num = 1, uint64_t den = 2) { return draw(den) >= den - num; }

    // uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }

    // the index of an enumerated (exhaustive) domain of size n.
    uint64_t index(uint64_t n)
    {
        if(m_replay)
            return draw(n);
        uint64_t v = n ? m_idx % n : m_idx;
        if(m_n < cap)
            m_log[m_n] = v;
        ++m_n;
        return v;
    }

    std::vector<uint64_t> log() const { return std::vector<uint64_t>(m_log, m_log + std::min(m_n, cap)); }

private:
    const std::vector<uint64_t>* m_replay = nullptr;
    uint64_t m_state = 0, m_idx = 0;
    size_t m_n = 0;
    uint64_t m_log[cap];
};

// ---------------------------------------------------------------- one case
struct Case
{
    bool verbose = false;
    bool nontrivial = false;
    bool discarded = false;
    uint32_t labels = 0;
    uint64_t hash = 0;
    double ratio = 0; // observed / allowed, for properties with a tolerance.
    std::string desc;
    char* mirror = nullptr; // shared memory that survives the death of the process

    void describe(const std::string& d)
    {
        desc = d;
        if(mirror)
            std::snprintf(mirror, 8192, "%s", d.c_str());
    }

    void reset(bool v)
    {
        verbose = v;
        nontrivial = false;
        discarded = false;
        labels = 0;
        hash = 0x1234567;
        ratio = 0;
        if(v)
            desc.clear();
    }
    template <class T>
    void in(const T& v)
    {
        if constexpr(std::is_convertible_v<T, std::string_view>)
            hash = mix64(hash ^ hash_str(v));
        else
        {
            static_assert(std::is_integral_v<T> || sizeof(T) == 16);
            hash = mix64(hash ^ static_cast<uint64_t>(v));
            if constexpr(sizeof(T) > 8)
                hash = mix64(hash ^ static_cast<uint64_t>(v >> 64));
        }
    }
    void label(int i) { labels |= 1u << i; }
    void label_if(int i, bool b) { labels |= static_cast<uint32_t>(b) << i; }
    // tolerance check: observed <= allowed
    bool within(double observed, double allowed)
    {
        double r = allowed > 0 ? observed / allowed : (observed > 0 ? 1e300 : 0);
        if(!(r <= ratio))
            ratio = r;
        return observed <= allowed;
    }
};

typedef void (*PropFn)(Src&, Case&);

struct Sub
{
    std::string name;
    uint64_t quick, thorough;
    bool exhaustive;
    PropFn fn;
};

struct Registry
{
    std::vector<Sub> subs;
    std::vector<std::string> labels;
    std::string rule;
};

inline Registry& reg()
{
    static Registry r;
    return r;
}

inline void add(const std::string& name, uint64_t quick, uint64_t thorough, PropFn fn) { reg().subs.push_back({name, quick, thorough, false, fn}); }
// the whole domain [0, n) in both tiers (or only in the thorough one when quick_n is given).
inline void add_all(const std::string& name, uint64_t n, PropFn fn) { reg().subs.push_back({name, n, n, true, fn}); }
// a strided part of the domain in quick, all of it in thorough.
inline void add_all_thorough(const std::string& name, uint64_t quick_n, uint64_t n, PropFn fn) { reg().subs.push_back({name, quick_n, n, true, fn}); }
inline void labels(std::initializer_list<std::string> l) { reg().labels.assign(l); }
inline void rule(const std::string& s) { reg().rule = s; }

// ---------------------------------------------------------------- dictionary of literals found in the sources
struct Dict
{
    std::vector<int64_t> ints;
    std::vector<double> reals;
};
inline Dict& dict()
{
    static Dict d;
    return d;
}
inline void load_dict(const char* path)
{
    std::ifstream in(path);
    std::string k;
    while(in >> k)
    {
        if(k == "i")
        {
            std::string v;
            in >> v;
            dict().ints.push_back(static_cast<int64_t>(std::strtoull(v.c_str(), nullptr, 0)));
        }
        else
        {
            double v;
            in >> v;
            dict().reals.push_back(v);
        }
    }
}

// ---------------------------------------------------------------- helpers to print
inline std::string to_s(i128 v)
{
    if(v == 0)
        return "0";
    bool neg = v < 0;
    u128 u = neg ? -static_cast<u128>(v) : static_cast<u128>(v);
    std::string s;
    while(u)
    {
        s.push_back(static_cast<char>('0' + static_cast<int>(u % 10)));
        u /= 10;
    }
    if(neg)
        s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}
inline void cat1(std::ostringstream& os, i128 v) { os << to_s(v); }
inline void cat1(std::ostringstream& os, u128 v) { os << to_s(static_cast<i128>(v)); }
template <class T>
inline void cat1(std::ostringstream& os, const T& v)
{
    if constexpr(std::is_same_v<T, bool>)
        os << (v ? "true" : "false");
    else if constexpr(std::is_integral_v<T> && sizeof(T) <= 2)
        os << static_cast<int>(v);
    else
        os << v;
}
template <class... A>
std::string cat(const A&... a)
{
    std::ostringstream os;
    os.precision(21);
    (cat1(os, a), ...);
    return os.str();
}
inline std::string quote(std::string_view s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\')
        {
            r.push_back('\\');
            r.push_back(static_cast<char>(c));
        }
        else if(c < 32 || c > 126)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r.push_back(static_cast<char>(c));
    }
    return r + "\"";
}

#define PBT_FAIL(...) throw pbt::Fail{pbt::cat(__VA_ARGS__)}
#define PBT_CHECK(cond, ...)                \
    do                                      \
    {                                       \
        if(!(cond)) [[unlikely]]            \
            throw pbt::Fail{pbt::cat(__VA_ARGS__)}; \
    } while(0)
#define PBT_DESC(...)                       \
    do                                      \
    {                                       \
        if(c.verbose) [[unlikely]]          \
            c.describe(pbt::cat(__VA_ARGS__)); \
    } while(0)

// ---------------------------------------------------------------- engine
struct Shared
{
    std::atomic<int> stop;
    struct alignas(64) Worker
    {
        std::atomic<uint64_t> sub, idx, evals, nontriv, discards;
        std::atomic<int> failed, hang;
    } w[64];
    std::atomic<uint64_t> labels[2048][32];
    std::atomic<uint64_t> sub_evals[2048];
    std::atomic<uint64_t> sub_ratio[2048]; // max ratio as bits of a double
};

struct Engine
{
    uint64_t seed = 1;
    bool thorough = false;
    int workers = 8;
    double deadline = 0;
    double scale = 1;
    std::string only;
    Shared* sh = nullptr;
    std::atomic<uint64_t>* bitmap = nullptr;
    static constexpr uint64_t bitmap_bits = 1ull << 28;

    static Engine& self()
    {
        static Engine e;
        return e;
    }

    static uint64_t count(const Sub& s)
    {
        auto n = self().thorough ? s.thorough : s.quick;
        if(!s.exhaustive)
            n = static_cast<uint64_t>(static_cast<double>(n) * self().scale);
        return n;
    }

    uint64_t case_seed(const Sub& s, uint64_t idx) const { return mix64(mix64(seed * 0x2545F4914F6CDD1Dull + hash_str(s.name)) + idx * 0xD1342543DE82EF95ull); }

    static inline volatile sig_atomic_t cur_worker = -1;
    static inline uint64_t tick_last = ~0ull;
    static inline int tick_same = 0;
    static void on_tick(int)
    {
        auto& e = self();
        if(cur_worker < 0)
            return;
        uint64_t now = e.sh->w[cur_worker].sub.load() * 0x100000001ull + e.sh->w[cur_worker].idx.load();
        if(now == tick_last)
        {
            if(++tick_same >= 2)
            {
                e.sh->w[cur_worker].hang = 1;
                _exit(77);
            }
        }
        else
        {
            tick_last = now;
            tick_same = 0;
        }
    }
    static void arm_ticks(int secs)
    {
        struct sigaction sa;
        std::memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
        itimerval tv;
        tv.it_interval.tv_sec = secs;
        tv.it_interval.tv_usec = 0;
        tv.it_value = tv.it_interval;
        setitimer(ITIMER_PROF, &tv, nullptr);
    }

    // index of the k-th case: exhaustive domains that are only partly visited in quick are strided with a
    // stride coprime to 2, so that they are spread over the domain; the offset depends on the seed.
    uint64_t domain_index(const Sub& s, uint64_t k) const
    {
        if(s.exhaustive && !thorough && s.quick < s.thorough)
        {
            uint64_t stride = s.thorough / s.quick;
            return (k * stride + mix64(seed * 77 + k) % stride) % s.thorough;
        }
        return k;
    }

    // returns empty when the case holds.
    std::string run_case(const Sub& s, Src& src, Case& c)
    {
        try
        {
            s.fn(src, c);
            return std::string();
        }
        catch(const Fail& f)
        {
            return f.msg.empty() ? std::string("failed") : f.msg;
        }
        catch(const std::exception& e)
        {
            return std::string("unexpected exception: ") + e.what();
        }
        catch(...)
        {
            return "unexpected exception";
        }
    }

    void worker(int w)
    {
        static Src src;
        Case c;
        auto& me = sh->w[w];
        cur_worker = w;
        arm_ticks(10);
        auto t0 = std::chrono::steady_clock::now();
        auto& subs = reg().subs;
        for(size_t si = 0; si < subs.size(); ++si)
        {
            const Sub& s = subs[si];
            if(!only.empty() && s.name.find(only) == std::string::npos)
                continue;
            uint64_t n = count(s);
            uint64_t lab[32] = {}, ev = 0, nt = 0, disc = 0;
            double ratio = 0;
            me.sub = si;
            for(uint64_t k = static_cast<uint64_t>(w); k < n; k += static_cast<uint64_t>(workers))
            {
                if((ev & 0x3ff) == 0)
                {
                    if(sh->stop.load(std::memory_order_relaxed))
                        break;
                    if(deadline > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline)
                        break;
                }
                uint64_t idx = domain_index(s, k);
                me.idx.store(k, std::memory_order_relaxed);
                src.start_random(case_seed(s, k), idx);
                c.reset(false);
                std::string r = run_case(s, src, c);
                ++ev;
                if(!r.empty()) [[unlikely]]
                {
                    me.failed = 1;
                    sh->stop = 1;
                    break;
                }
                if(c.discarded)
                {
                    ++disc;
                    continue;
                }
                for(uint32_t m = c.labels; m; m &= m - 1)
                    ++lab[__builtin_ctz(m)];
                if(c.ratio > ratio)
                    ratio = c.ratio;
                if(c.nontrivial)
                {
                    ++nt;
                    uint64_t h = mix64(c.hash ^ (si * 0x9E3779B97F4A7C15ull)) & (bitmap_bits - 1);
                    auto& word = bitmap[h >> 6];
                    uint64_t bit = 1ull << (h & 63);
                    if(!(word.load(std::memory_order_relaxed) & bit))
                        word.fetch_or(bit, std::memory_order_relaxed);
                }
            }
            me.evals += ev;
            me.nontriv += nt;
            me.discards += disc;
            sh->sub_evals[si] += ev;
            for(int i = 0; i < 32; ++i)
                if(lab[i])
                    sh->labels[si][i] += lab[i];
            uint64_t rb;
            std::memcpy(&rb, &ratio, 8);
            uint64_t old = sh->sub_ratio[si].load();
            while(rb > old && !sh->sub_ratio[si].compare_exchange_weak(old, rb)) {}
            if(me.failed || sh->stop.load())
                break;
        }
        _exit(me.failed ? 1 : 0);
    }

    // 0: holds, 1: fails. runs in a fresh process.
    int try_choices(const Sub& s, const std::vector<uint64_t>& ch, std::string* msg = nullptr, std::string* desc = nullptr, std::vector<uint64_t>* norm = nullptr)
    {
        struct Out
        {
            int state;
            size_t n;
            uint64_t log[Src::cap];
            char msg[4096], desc[8192];
        };
        static Out* out = nullptr;
        if(!out)
            out = static_cast<Out*>(mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        out->state = 0;
        out->n = 0;
        out->msg[0] = out->desc[0] = 0;
        fflush(stdout);
        int errfd = memfd_create("pbt-stderr", 0);
        pid_t pid = fork();
        if(pid == 0)
        {
            dup2(errfd >= 0 ? errfd : fileno(std::fopen("/dev/null", "w")), 2);
            static Src src;
            Case c;
            c.reset(true);
            c.mirror = out->desc;
            cur_worker = 63;
            sh->w[63].idx = 0;
            sh->w[63].sub = 0;
            tick_last = ~0ull;
            arm_ticks(5);
            src.start_replay(&ch);
            out->state = 1;
            static const Sub* sp = &s;
            static Case* cp = &c;
            std::set_terminate([]
                               { std::snprintf(out->msg, sizeof out->msg, "the tested code called std::terminate"); 
                                 std::snprintf(out->desc, sizeof out->desc, "%s", cp->desc.c_str());
                                 abort(); });
            auto sig = [](int n)
            {
                if(!out->msg[0])
                    std::snprintf(out->msg, sizeof out->msg, "the tested code raised signal %d (%s)", n, n == SIGFPE ? "SIGFPE" : n == SIGSEGV ? "SIGSEGV" : n == SIGABRT ? "SIGABRT" : n == SIGILL ? "SIGILL" : "?");
                std::snprintf(out->desc, sizeof out->desc, "%s", cp->desc.c_str());
                _exit(99);
            };
            (void)sp;
            signal(SIGFPE, sig);
            signal(SIGSEGV, sig);
            signal(SIGABRT, sig);
            signal(SIGILL, sig);
            signal(SIGBUS, sig);
            std::string r = run_case(s, src, c);
            auto l = src.log();
            out->n = l.size();
            std::copy(l.begin(), l.end(), out->log);
            std::snprintf(out->msg, sizeof out->msg, "%s", r.c_str());
            std::snprintf(out->desc, sizeof out->desc, "%s", c.desc.c_str());
            out->state = r.empty() ? 2 : 3;
            _exit(r.empty() ? 0 : 1);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if(msg)
            *msg = out->state == 1 && !out->msg[0] ? (WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "the tested code did not return (hang)" : "the process died") : out->msg;
        if(msg && out->state == 1 && errfd >= 0)
        {
            // the report of a sanitizer, if there is one
            std::string text(20000, '\0');
            ssize_t got = pread(errfd, text.data(), text.size(), 0);
            text.resize(got > 0 ? static_cast<size_t>(got) : 0);
            for(const char* key : {"runtime error: ", "ERROR: AddressSanitizer: ", "ERROR: "})
            {
                size_t at = text.find(key);
                if(at == std::string::npos)
                    continue;
                size_t b = text.rfind('\n', at), e = text.find('\n', at);
                b = b == std::string::npos ? 0 : b + 1;
                *msg += " -- " + text.substr(b, e - b);
                break;
            }
        }
        if(errfd >= 0)
            close(errfd);
        if(desc)
            *desc = out->desc;
        if(norm && out->n)
            norm->assign(out->log, out->log + out->n);
        return out->state == 2 ? 0 : 1;
    }

    std::vector<uint64_t> shrink(const Sub& s, std::vector<uint64_t> best)
    {
        int budget = 3000;
        auto t0 = std::chrono::steady_clock::now();
        auto ok = [&](const std::vector<uint64_t>& c)
        {
            if(budget <= 0 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 60)
                return false;
            --budget;
            std::vector<uint64_t> norm = c;
            std::string m;
            if(!try_choices(s, c, &m, nullptr, &norm))
                return false;
            if(norm.size() < c.size())
                best = norm;
            else
                best = c;
            return true;
        };
        bool progress = true;
        while(progress && budget > 0)
        {
            progress = false;
            // delete chunks
            for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2)
            {
                for(size_t i = 0; i + len <= best.size();)
                {
                    auto c = best;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                    if(ok(c))
                        progress = true;
                    else
                        i += len;
                }
                if(len == 1)
                    break;
            }
            // minimise single choices
            for(size_t i = 0; i < best.size(); ++i)
            {
                if(best[i] == 0)
                    continue;
                auto c = best;
                c[i] = 0;
                if(ok(c))
                {
                    progress = true;
                    continue;
                }
                // binary search downwards
                uint64_t lo = 0, hi = best[i];
                while(lo + 1 < hi && budget > 0)
                {
                    uint64_t mid = lo + (hi - lo) / 2;
                    if(i >= best.size())
                        break;
                    c = best;
                    c[i] = mid;
                    if(ok(c))
                    {
                        hi = mid;
                        progress = true;
                    }
                    else
                        lo = mid;
                }
                if(i < best.size() && best[i] > 0)
                {
                    c = best;
                    --c[i];
                    if(ok(c))
                        progress = true;
                }
            }
        }
        return best;
    }

    // replay the cases of worker w of sub si, from its k0-th to its k1-th case, in a fresh process.
    int try_stream(size_t si, int w, uint64_t k0, uint64_t k1)
    {
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0)
        {
            int devnull = fileno(std::fopen("/dev/null", "w"));
            dup2(devnull, 2);
            static Src src;
            Case c;
            cur_worker = 63;
            tick_last = ~0ull;
            arm_ticks(10);
            const Sub& s = reg().subs[si];
            (void)w;
            for(uint64_t k = k0; k <= k1; k += static_cast<uint64_t>(workers))
            {
                sh->w[63].sub = si;
                sh->w[63].idx = k;
                src.start_random(case_seed(s, k), domain_index(s, k));
                c.reset(false);
                if(!run_case(s, src, c).empty())
                    _exit(1);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
    }
};

inline std::string json_str(std::string_view s) { return quote(s); }

inline int run_main(int argc, char** argv)
{
    auto& e = Engine::self();
    std::string out = "-", replay_out = "replay.txt", replay_in, prop = "?";
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]
        { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed")
            e.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if(a == "--tier")
            e.thorough = val() == "thorough";
        else if(a == "--out")
            out = val();
        else if(a == "--replay-out")
            replay_out = val();
        else if(a == "--replay")
            replay_in = val();
        else if(a == "--dict")
            load_dict(val().c_str());
        else if(a == "--workers")
            e.workers = std::atoi(val().c_str());
        else if(a == "--deadline")
            e.deadline = std::atof(val().c_str());
        else if(a == "--scale")
            e.scale = std::atof(val().c_str());
        else if(a == "--only")
            e.only = val();
        else if(a == "--property")
            prop = val();
    }
    auto& subs = reg().subs;
    e.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if(subs.size() > 2048)
    {
        std::fprintf(stderr, "too many sub-properties\n");
        return 2;
    }
    for(size_t i = 0; i < subs.size(); ++i)
        for(size_t k = 0; k < i; ++k)
            if(subs[i].name == subs[k].name)
            {
                std::fprintf(stderr, "two sub-properties %s\n", subs[i].name.c_str());
                return 2;
            }

    if(!replay_in.empty())
    {
        std::ifstream in(replay_in);
        std::string line, sub;
        std::vector<uint64_t> ch;
        bool have_ch = false;
        uint64_t k0 = 0, k1 = 0, wk = 8;
        while(std::getline(in, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if(k == "sub:")
                is >> sub;
            else if(k == "seed:")
                is >> e.seed;
            else if(k == "tier:")
            {
                std::string t;
                is >> t;
                e.thorough = t == "thorough";
            }
            else if(k == "choices:")
            {
                have_ch = true;
                uint64_t v;
                while(is >> v)
                    ch.push_back(v);
            }
            else if(k == "stream:")
                is >> k0 >> k1 >> wk;
        }
        for(size_t si = 0; si < subs.size(); ++si)
            if(subs[si].name == sub)
            {
                if(have_ch)
                {
                    std::string m, d;
                    int r = e.try_choices(subs[si], ch, &m, &d);
                    std::printf("replay of %s: %s\n  case: %s\n  %s\n", sub.c_str(), r ? "FAILS" : "holds", d.c_str(), m.c_str());
                    return r;
                }
                e.workers = static_cast<int>(wk);
                int r = e.try_stream(si, 0, k0, k1);
                std::printf("stream replay of %s: %s\n", sub.c_str(), r ? "FAILS" : "holds");
                return r;
            }
        std::printf("unknown sub-property %s\n", sub.c_str());
        return 2;
    }

    e.bitmap = static_cast<std::atomic<uint64_t>*>(mmap(nullptr, Engine::bitmap_bits / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto t0 = std::chrono::steady_clock::now();
    std::vector<pid_t> pids(static_cast<size_t>(e.workers));
    fflush(stdout);
    for(int w = 0; w < e.workers; ++w)
    {
        pids[static_cast<size_t>(w)] = fork();
        if(pids[static_cast<size_t>(w)] == 0)
        {
            int devnull = fileno(std::fopen("/dev/null", "w"));
            dup2(devnull, 1);
            dup2(devnull, 2);
            e.worker(w);
        }
    }
    int bad = -1;
    for(int left = e.workers; left > 0; --left)
    {
        int st = 0;
        pid_t p = wait(&st);
        int w = static_cast<int>(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            e.sh->stop = 1;
            if(bad < 0)
                bad = w;
            else
            {
                // keep the failure of the earliest sub-property.
                auto key = [&](int i)
                { return std::make_pair(e.sh->w[i].sub.load(), e.sh->w[i].idx.load()); };
                if(key(w) < key(bad))
                    bad = w;
            }
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();

    int result = 0;
    std::string fail_msg, fail_desc, fail_sub;
    if(bad >= 0)
    {
        size_t si = e.sh->w[bad].sub;
        uint64_t k = e.sh->w[bad].idx;
        const Sub& s = subs[si];
        fail_sub = s.name;
        // recover the choices of the case: draw them again without running the tested code is not possible,
        // so run the case in a child that logs its choices as they are drawn.
        struct Log
        {
            size_t n;
            uint64_t v[Src::cap];
        };
        auto* lg = static_cast<Src*>(mmap(nullptr, sizeof(Src), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        new(lg) Src();
        pid_t pid = fork();
        if(pid == 0)
        {
            int devnull = fileno(std::fopen("/dev/null", "w"));
            dup2(devnull, 1);
            dup2(devnull, 2);
            Case c;
            c.reset(false);
            Engine::cur_worker = 63;
            e.sh->w[63].idx = 0;
            e.sh->w[63].sub = 0;
            Engine::tick_last = ~0ull;
            Engine::arm_ticks(5);
            lg->start_random(e.case_seed(s, k), e.domain_index(s, k));
            e.run_case(s, *lg, c);
            _exit(0);
        }
        waitpid(pid, nullptr, 0);
        auto ch = lg->log();
        bool single = true;
        for(int i = 0; i < 3 && single; ++i)
            single = e.try_choices(s, ch) == 1;
        std::ofstream rf(replay_out);
        rf << "property: " << prop << "\nsub: " << s.name << "\nseed: " << e.seed << "\ntier: " << (e.thorough ? "thorough" : "quick") << "\n";
        if(single)
        {
            auto best = e.shrink(s, ch);
            for(int i = 0; i < 3; ++i)
                if(!e.try_choices(s, best, &fail_msg, &fail_desc))
                {
                    // keep the case as it was found
                    best = ch;
                    e.try_choices(s, best, &fail_msg, &fail_desc);
                    break;
                }
            rf << "case: " << fail_desc << "\nfailure: " << fail_msg << "\nchoices:";
            for(auto v : best)
                rf << ' ' << v;
            rf << "\n";
            result = 1;
        }
        else
        {
            uint64_t first = k % static_cast<uint64_t>(e.workers);
            int times = 0;
            for(int i = 0; i < 3; ++i)
                times += e.try_stream(si, bad, first, k);
            if(times > 0)
            {
                // shortest suffix of the stream that still fails
                uint64_t lo = 0, hi = (k - first) / static_cast<uint64_t>(e.workers); // number of cases dropped
                while(lo < hi)
                {
                    uint64_t mid = (lo + hi + 1) / 2;
                    if(e.try_stream(si, bad, first + mid * static_cast<uint64_t>(e.workers), k))
                        lo = mid;
                    else
                        hi = mid - 1;
                }
                uint64_t k0 = first + lo * static_cast<uint64_t>(e.workers);
                if(!e.try_stream(si, bad, k0, k))
                    k0 = first;
                fail_msg = "fails only after other calls in the same process";
                fail_desc = cat("cases ", k0, "..", k, " step ", e.workers, " of this sub-property, one after another");
                rf << "case: " << fail_desc << "\nfailure: " << fail_msg << "\nstream: " << k0 << ' ' << k << ' ' << e.workers << "\n";
                result = 1;
            }
            else
                std::printf("NOTE: a case of %s failed once and could not be reproduced; not reported\n", s.name.c_str());
        }
    }

    // evidence
    uint64_t evals = 0, nontriv = 0, disc = 0, distinct = 0;
    for(int w = 0; w < e.workers; ++w)
    {
        evals += e.sh->w[w].evals;
        nontriv += e.sh->w[w].nontriv;
        disc += e.sh->w[w].discards;
    }
    for(uint64_t i = 0; i < Engine::bitmap_bits / 64; ++i)
        distinct += static_cast<uint64_t>(__builtin_popcountll(e.bitmap[i].load(std::memory_order_relaxed)));
    std::ostringstream js;
    js.precision(9);
    js << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << distinct << ",\"wall_s\":" << wall << ",\"rule\":" << json_str(reg().rule) << ",\"subs\":[";
    bool f1 = true;
    std::vector<std::string> samples;
    for(size_t si = 0; si < subs.size(); ++si)
    {
        const Sub& s = subs[si];
        if(!e.only.empty() && s.name.find(e.only) == std::string::npos)
            continue;
        js << (f1 ? "" : ",") << "{\"name\":" << json_str(s.name) << ",\"cases\":" << e.sh->sub_evals[si].load();
        f1 = false;
        if(s.exhaustive && e.sh->sub_evals[si].load() >= s.thorough)
            js << ",\"exhaustive\":true";
        uint64_t rb = e.sh->sub_ratio[si];
        double r;
        std::memcpy(&r, &rb, 8);
        if(r > 0)
            js << ",\"worst_error_over_bound\":" << r;
        js << ",\"labels\":{";
        bool f2 = true;
        for(size_t l = 0; l < reg().labels.size() && l < 32; ++l)
            if(auto n = e.sh->labels[si][l].load())
            {
                js << (f2 ? "" : ",") << json_str(reg().labels[l]) << ":" << n;
                f2 = false;
            }
        js << "}}";
        // samples: non-trivial cases of this sub-property, described (only when everything held)
        if(result == 0 && bad < 0 && samples.size() < 40)
        {
            static Src src;
            Case c;
            int got = 0;
            uint64_t n = Engine::count(s);
            for(uint64_t t = 0; t < 50 && got < 1; ++t)
            {
                uint64_t k = n ? mix64(t + si) % n : 0;
                src.start_random(e.case_seed(s, k), e.domain_index(s, k));
                c.reset(true);
                if(!e.run_case(s, src, c).empty())
                    break;
                if(c.nontrivial && !c.discarded && !c.desc.empty())
                {
                    samples.push_back(s.name + ": " + c.desc.substr(0, 400));
                    ++got;
                }
            }
        }
    }
    js << "],\"samples\":[";
    for(size_t i = 0; i < samples.size(); ++i)
        js << (i ? "," : "") << json_str(samples[i]);
    js << "]";
    if(result)
        js << ",\"failure\":{\"sub\":" << json_str(fail_sub) << ",\"case\":" << json_str(fail_desc) << ",\"message\":" << json_str(fail_msg) << "}";
    js << "}\n";
    if(out == "-")
        std::cout << js.str();
    else
        std::ofstream(out) << js.str();
    if(result)
        std::printf("FAIL sub=%s\n  case: %s\n  %s\n", fail_sub.c_str(), fail_desc.c_str(), fail_msg.c_str());
    return result;
}
} // namespace pbt
