// C32: bit-identical results between builds of the library, floating point modes, repetitions and orders of calls.
#include "ops_gen.hpp"
#include <cfenv>
#include <dlfcn.h>
#include <xmmintrin.h>
using namespace g;

enum { L_MATH, L_TEXT, L_MIXED, L_ARITH, L_SPECIAL, L_THROW, L_RANDOM, L_SEQ };

typedef void (*EvalFn)(int, int, const ops::Args*, ops::Out*);
static std::vector<std::pair<std::string, EvalFn>> builds;

struct Mode
{
    const char* name;
    int round;
    bool ftz;
};
static const Mode modes[] = {{"to nearest", FE_TONEAREST, false}, {"upward", FE_UPWARD, false}, {"downward", FE_DOWNWARD, false}, {"toward zero", FE_TOWARDZERO, false}, {"flush to zero", FE_TONEAREST, true}};

struct Guard
{
    unsigned csr = _mm_getcsr();
    int rnd = fegetround();
    explicit Guard(const Mode& m)
    {
        fesetround(m.round);
        if(m.ftz)
            _mm_setcsr(_mm_getcsr() | 0x8040);
    }
    ~Guard()
    {
        fesetround(rnd);
        _mm_setcsr(csr);
    }
};

static void run(Src& s, Case& c)
{
    OpCase k[4];
    size_t n = 1 + s.draw(4), m = 0;
    std::string d;
    for(size_t i = 0; i < n; ++i)
    {
        OpCase x;
        if(!gen_case(s, c, x, ops::FROMFLOAT, L_SPECIAL))
            continue;
        k[m] = x;
        k[m].a.text = k[m].text.data();
        c.in(x.type * 100 + x.op);
        c.in(x.a.a);
        c.in(x.a.b);
        c.in(x.a.n);
        c.in(x.text);
        c.label_if(L_MATH, x.op >= ops::SQRT && x.op <= ops::CORDIC);
        c.label_if(L_TEXT, x.op >= ops::PRINT && x.op <= ops::EXTRACT);
        c.label_if(L_MIXED, x.op >= ops::IADD && x.op <= ops::NREM);
        c.label_if(L_ARITH, x.op <= ops::DEC);
        c.label_if(L_RANDOM, x.op == ops::ENGINE || x.op == ops::DIST);
        d += (m ? "; " : "") + show_case(x);
        ++m;
    }
    if(m == 0)
    {
        c.discarded = true;
        return;
    }
    c.label_if(L_SEQ, m > 1);
    c.nontrivial = true;
    PBT_DESC(d);
    ops::Out ref[4], out;
    // the reference: first build, each call by itself
    for(size_t i = 0; i < m; ++i)
    {
        builds[0].second(k[i].type, k[i].op, &k[i].a, &ref[i]);
        c.label_if(L_THROW, std::string_view(ref[i].s, ref[i].n).find("error") != std::string_view::npos);
    }
    auto show_out = [](const ops::Out& o) { return pbt::quote(std::string_view(o.s, std::min<size_t>(o.n, 200))); };
    for(size_t v = 0; v < builds.size(); ++v)
        for(size_t q = 0; q < 5; ++q)
        {
            Guard guard(modes[q]);
            for(size_t j = 0; j < m; ++j)
            {
                size_t i = (v + q) & 1 ? m - 1 - j : j;
                builds[v].second(k[i].type, k[i].op, &k[i].a, &out);
                if(out.n != ref[i].n || std::memcmp(out.s, ref[i].s, out.n) != 0)
                {
                    Guard back(modes[0]);
                    PBT_FAIL(show_case(k[i]), " gives ", show_out(out), " with ", builds[v].first, ", floating point mode ", modes[q].name, ", but ", show_out(ref[i]), " with ", builds[0].first);
                }
            }
        }
}

static int r0 = []
{
    pbt::labels({"mathematical function", "text", "integer operand", "arithmetic", "angle next to a multiple of pi/4", "exception", "random numbers", "several operations in both orders"});
    pbt::rule("one to four operations of any kind with arguments in their domain, evaluated by every build under five floating point modes in both orders; every case that is not discarded is non-trivial");
    pbt::add("builds", 600000, 20000000, &run);
    return 0;
}();

int main(int argc, char** argv)
{
    const char* list = getenv("VERIF_LIBS");
    std::istringstream is(list ? list : "");
    std::string p;
    while(std::getline(is, p, ':'))
    {
        void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        EvalFn f = h ? reinterpret_cast<EvalFn>(dlsym(h, "ops_eval")) : nullptr;
        if(!f)
        {
            std::fprintf(stderr, "%s: %s\n", p.c_str(), dlerror());
            return 2;
        }
        builds.push_back({p.substr(p.rfind('/') + 1), f});
    }
    if(builds.size() < 2)
        return 2;
    return pbt::run_main(argc, argv);
}
