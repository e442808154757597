// C38: the queries of processor features, made in any order and from several threads at once in a fresh process.
#include "pbt.hpp"
#include <eirin/eirin.hpp>
#include <eirin/ext/simd_math.hpp>
#include <thread>
using namespace pbt;

typedef eirin::simd::platform_support P;
static const char* const names[6] = {"supports_sse2", "supports_sse4_2", "supports_avx", "supports_avx2", "supports_avx512_f", "supports_avx512_dq"};

static bool query(unsigned q)
{
    switch(q)
    {
    case 0: return P::supports_sse2();
    case 1: return P::supports_sse4_2();
    case 2: return P::supports_avx();
    case 3: return P::supports_avx2();
    case 4: return P::supports_avx512_f();
    default: return P::supports_avx512_dq();
    }
}

// the processor itself, without any code of the library
static bool wanted(unsigned q)
{
    static const struct { unsigned leaf, reg, bit; } where[6] = {{1, 3, 26}, {1, 2, 20}, {1, 2, 28}, {7, 1, 5}, {7, 1, 16}, {7, 1, 17}};
    uint32_t r[4];
    asm volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(where[q].leaf), "c"(0));
    return r[where[q].reg] >> where[q].bit & 1;
}

enum { L_ONE, L_MANY, L_SAME };
struct Answers
{
    unsigned char got[4][16];
};

static void run(Src& s, Case& c)
{
    static Answers* mem = static_cast<Answers*>(mmap(nullptr, sizeof(Answers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    size_t threads = 1 + s.draw(4), n[4] = {};
    unsigned q[4][16];
    bool same = s.draw(3) == 0;
    std::string d;
    for(size_t t = 0; t < threads; ++t)
    {
        n[t] = t && same ? n[0] : 1 + s.draw(s.draw(2) ? 3 : 12);
        for(size_t i = 0; i < n[t]; ++i)
        {
            q[t][i] = t && same ? q[0][i] : static_cast<unsigned>(s.draw(6));
            c.in(q[t][i] + 8 * t);
            if(c.verbose)
                d += (i ? ", " : t ? " | " : " ") + std::string(names[q[t][i]]);
        }
    }
    c.nontrivial = threads > 1 || n[0] > 1;
    c.label_if(L_ONE, threads == 1);
    c.label_if(L_MANY, threads > 1);
    c.label_if(L_SAME, same);
    PBT_DESC(threads, " thread(s) of a fresh process call:", d);
    std::memset(mem, 2, sizeof *mem);
    pid_t pid = fork();
    if(pid == 0)
    {
        std::atomic<size_t> ready{0};
        auto body = [&](size_t t)
        {
            ready.fetch_add(1, std::memory_order_relaxed);
            while(ready.load(std::memory_order_relaxed) < threads)
                ;
            for(size_t i = 0; i < n[t]; ++i)
                mem->got[t][i] = query(q[t][i]);
        };
        std::thread pool[4];
        for(size_t t = 1; t < threads; ++t)
            pool[t] = std::thread(body, t);
        body(0);
        for(size_t t = 1; t < threads; ++t)
            pool[t].join();
        _exit(0);
    }
    int st = 0;
    if(pid < 0 || waitpid(pid, &st, 0) != pid)
    {
        c.discarded = true;
        return;
    }
    PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "the thread sanitizer reports a data race");
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status ", st);
    for(size_t t = 0; t < threads; ++t)
        for(size_t i = 0; i < n[t]; ++i)
            PBT_CHECK(mem->got[t][i] == wanted(q[t][i]), "call ", i + 1, " of thread ", t + 1, ", ", names[q[t][i]], ", gives ", int(mem->got[t][i]), ", but the processor reports ", wanted(q[t][i]));
}

static int r0 = []
{
    pbt::labels({"one thread", "several threads", "all threads call the same"});
    pbt::rule("one to four threads of a new process make one to twelve queries each; at least two queries");
    pbt::add("queries", 6000, 200000, &run);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
