// C36: concurrent use from several threads, built with the thread sanitizer.
#define OPS_EXTRA
#include "ops_gen.hpp"
#include <atomic>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace g;

enum { L_MATH, L_TEXT, L_MIXED, L_ARITH, L_SPECIAL, L_SAME, L_RANDOM, L_FLOAT, L_FRESH };

struct Shared
{
    eirin::fixed32 a;
    eirin::fixed64 b;
};

// fresh: in a new process which has not called anything before
static void run(Src& s, Case& c, bool fresh)
{
    constexpr size_t max_ops = 24;
    static OpCase k[max_ops];
    static ops::Out want[max_ops], got[4][max_ops];
    size_t n = 1 + s.draw(s.draw(2) ? 6 : max_ops), m = 0;
    size_t threads = 2 + s.draw(3);
    // all threads run all of the operations, or each one its own part
    bool same = s.draw(2);
    std::string d;
    for(size_t i = 0; i < n; ++i)
    {
        OpCase x;
        if(!gen_case(s, c, x, ops::N_ALL, L_SPECIAL))
            continue;
        k[m] = x;
        k[m].a.text = k[m].text.data();
        c.in(x.type * 100 + x.op);
        c.in(x.a.a);
        c.in(x.a.b);
        c.in(x.a.n);
        c.in(x.text);
        c.label_if(L_MATH, x.op >= ops::SQRT && x.op <= ops::CORDIC);
        c.label_if(L_TEXT, x.op >= ops::PRINT && x.op <= ops::EXTRACT);
        c.label_if(L_MIXED, x.op >= ops::IADD && x.op <= ops::NREM);
        c.label_if(L_ARITH, x.op <= ops::DEC);
        c.label_if(L_FLOAT, x.op >= ops::FROMFLOAT);
        c.label_if(L_RANDOM, x.op == ops::ENGINE || x.op == ops::DIST);
        if(c.verbose)
            d += (m ? "; " : "") + show_case(x);
        ++m;
    }
    c.label_if(L_SAME, same);
    c.nontrivial = m >= 2 || same;
    if(m == 0)
    {
        c.discarded = true;
        return;
    }
    c.label_if(L_FRESH, fresh);
    PBT_DESC(threads, " threads ", fresh ? "of a fresh process " : "", same ? "each call all of: " : "share: ", d);
    if(fresh)
    {
        pid_t pid = fork();
        if(pid != 0)
        {
            int st = 0;
            if(pid < 0 || waitpid(pid, &st, 0) != pid)
            {
                c.discarded = true;
                return;
            }
            PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "the thread sanitizer reports a data race");
            PBT_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 67), "a call gives another result while other threads run");
            PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status ", st);
            return;
        }
    }
    std::atomic<size_t> ready{0};
    auto body = [&](size_t t)
    {
        ready.fetch_add(1, std::memory_order_relaxed);
        while(ready.load(std::memory_order_relaxed) < threads)
            std::this_thread::yield();
        for(size_t q = 0; q < m; ++q)
        {
            size_t i = (q + (same ? t : 0)) % m;
            if(!same && i % threads != t)
                continue;
            ops::eval(k[i].type, k[i].op, k[i].a, got[t][i]);
        }
    };
    std::thread pool[4];
    for(size_t t = 1; t < threads; ++t)
        pool[t] = std::thread(body, t);
    body(0);
    for(size_t t = 1; t < threads; ++t)
        pool[t].join();
    for(size_t i = 0; i < m; ++i)
        ops::eval(k[i].type, k[i].op, k[i].a, want[i]);
    if(fresh)
    {
        for(size_t t = 0; t < threads; ++t)
            for(size_t i = 0; i < m; ++i)
                if((same || i % threads == t) && (got[t][i].n != want[i].n || std::memcmp(got[t][i].s, want[i].s, want[i].n) != 0))
                    _exit(67);
        _exit(0);
    }
    for(size_t t = 0; t < threads; ++t)
        for(size_t i = 0; i < m; ++i)
            if(same || i % threads == t)
                PBT_CHECK(got[t][i].n == want[i].n && std::memcmp(got[t][i].s, want[i].s, want[i].n) == 0, show_case(k[i]), " gives another result when called while other threads run");
}

static int r0 = []
{
    pbt::labels({"mathematical function", "text", "integer operand", "arithmetic", "angle next to a multiple of pi/4", "all threads call the same operations", "random numbers", "floating point", "first calls of a fresh process"});
    pbt::rule("two to four threads call one to 24 operations with arguments in their domain at the same time; at least two calls in different threads");
    pbt::add("fresh", 12000, 400000, [](Src& s, Case& c) { run(s, c, true); });
    pbt::add("threads", 120000, 3000000, [](Src& s, Case& c) { run(s, c, false); });
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
