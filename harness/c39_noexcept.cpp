// C39: builds without exceptions give the same results, and terminate exactly where the others throw.
#include "ops_gen.hpp"
#include <dlfcn.h>
using namespace g;

enum { L_MATH, L_TEXT, L_MIXED, L_ARITH, L_SPECIAL, L_THROW, L_RANDOM, L_FLOAT };

typedef void (*EvalFn)(int, int, const ops::Args*, ops::Out*);
static std::vector<std::pair<std::string, EvalFn>> builds;

static void run(Src& s, Case& c)
{
    OpCase k;
    if(!gen_case(s, c, k, ops::N_OPS, L_SPECIAL))
    {
        c.discarded = true;
        return;
    }
    c.in(k.type * 100 + k.op);
    c.in(k.a.a);
    c.in(k.a.b);
    c.in(k.a.n);
    c.in(k.text);
    c.label_if(L_MATH, k.op >= ops::SQRT && k.op <= ops::CORDIC);
    c.label_if(L_TEXT, k.op >= ops::PRINT && k.op <= ops::EXTRACT);
    c.label_if(L_MIXED, k.op >= ops::IADD && k.op <= ops::NREM);
    c.label_if(L_ARITH, k.op <= ops::DEC);
    c.label_if(L_FLOAT, k.op >= ops::FROMFLOAT);
    c.label_if(L_RANDOM, k.op == ops::ENGINE || k.op == ops::DIST);
    c.nontrivial = true;
    PBT_DESC(show_case(k));
    ops::Out ref, out;
    auto show_out = [](const ops::Out& o) { return pbt::quote(std::string_view(o.s, std::min<size_t>(o.n, 200))); };
    builds[0].second(k.type, k.op, &k.a, &ref);
    std::string_view text(ref.s, ref.n);
    bool throws = text.find("domain_error") != text.npos || text.find("divide_by_zero") != text.npos || text.find("format_error") != text.npos;
    c.label_if(L_THROW, throws);
    for(size_t v = 1; v < builds.size(); ++v)
    {
        if(throws)
        {
            pid_t pid = fork();
            if(pid == 0)
            {
                std::set_terminate([] { _exit(42); });
                builds[v].second(k.type, k.op, &k.a, &out);
                _exit(7);
            }
            int st = 0;
            if(pid < 0 || waitpid(pid, &st, 0) != pid)
                continue;
            PBT_CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 7, builds[v].first, " returns, where the build with exceptions reports ", show_out(ref));
            PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, builds[v].first, " ends with status ", st, " without calling std::terminate, where the build with exceptions reports ", show_out(ref));
            continue;
        }
        builds[v].second(k.type, k.op, &k.a, &out);
        PBT_CHECK(out.n == ref.n && std::memcmp(out.s, ref.s, out.n) == 0, "gives ", show_out(out), " with ", builds[v].first, ", but ", show_out(ref), " with exceptions");
    }
}

static int r0 = []
{
    pbt::labels({"mathematical function", "text", "integer operand", "arithmetic", "angle next to a multiple of pi/4", "exception", "random numbers", "floating point"});
    pbt::rule("an operation of any kind with arguments in its domain or with a zero divisor or an argument outside of the domain; every case that is not discarded is non-trivial");
    pbt::add("builds", 1500000, 30000000, &run);
    return 0;
}();

int main(int argc, char** argv)
{
    const char* list = getenv("VERIF_LIBS");
    std::istringstream is(list ? list : "");
    std::string p;
    while(std::getline(is, p, ':'))
    {
        void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        EvalFn f = h ? reinterpret_cast<EvalFn>(dlsym(h, "ops_eval")) : nullptr;
        if(!f)
        {
            std::fprintf(stderr, "%s: %s\n", p.c_str(), dlerror());
            return 2;
        }
        builds.push_back({p.substr(p.rfind('/') + 1), f});
    }
    if(builds.size() < 2)
        return 2;
    return pbt::run_main(argc, argv);
}
