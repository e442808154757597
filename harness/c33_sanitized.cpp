// C33: all operations with arguments in their domain, built with the address and undefined behaviour sanitizers.
#define OPS_EXTRA
#include "ops_gen.hpp"
using namespace g;

enum { L_MATH, L_TEXT, L_MIXED, L_ARITH, L_SPECIAL, L_THROW, L_RANDOM, L_FLOAT };

static void one(Src& s, Case& c, OpCase& k)
{
    c.in(k.type * 100 + k.op);
    c.in(k.a.a);
    c.in(k.a.b);
    c.in(k.a.n);
    c.in(k.text);
    c.label_if(L_MATH, k.op >= ops::SQRT && k.op <= ops::CORDIC);
    c.label_if(L_TEXT, k.op >= ops::PRINT && k.op <= ops::EXTRACT);
    c.label_if(L_MIXED, k.op >= ops::IADD && k.op <= ops::NREM);
    c.label_if(L_ARITH, k.op <= ops::DEC);
    c.label_if(L_FLOAT, k.op >= ops::FROMFLOAT);
    c.label_if(L_RANDOM, k.op == ops::ENGINE || k.op == ops::DIST);
    c.nontrivial = true;
    PBT_DESC(show_case(k));
    ops::Out out, again;
    try
    {
        ops::eval(k.type, k.op, k.a, out);
        ops::eval(k.type, k.op, k.a, again);
    }
    catch(const std::exception& e)
    {
        PBT_FAIL("unexpected exception: ", e.what());
    }
    c.label_if(L_THROW, std::string_view(out.s, out.n).find("error") != std::string_view::npos);
    PBT_CHECK(out.n == again.n && std::memcmp(out.s, again.s, out.n) == 0, "a second call gives another result");
}

static void run(Src& s, Case& c)
{
    OpCase k;
    if(!gen_case(s, c, k, ops::N_ALL, L_SPECIAL))
    {
        c.discarded = true;
        return;
    }
    one(s, c, k);
}

static int r0 = []
{
    pbt::labels({"mathematical function", "text", "integer operand", "arithmetic", "angle next to a multiple of pi/4", "exception", "random numbers", "floating point"});
    pbt::rule("an operation of any kind with arguments in its domain; every case that is not discarded is non-trivial");
    pbt::add("operations", 8000000, 200000000, &run);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
