// C08: nearly-comparisons are exact comparisons with a tolerance of 5/65536.
#include "gen.hpp"
using namespace g;

enum { L_SAME, L_IN, L_EDGE, L_OUT, L_FAR };

template <class F>
struct Near
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s), b;
        // the tolerance in ulp: floor(5 * 2^f / 65536), as differences are whole numbers of ulp; to nearest for rounding types
        i128 tol = X::f >= 16 ? 5 * pow2(X::f - 16) : floor_div(5 * pow2(X::f) + (X::r ? 32768 : 0), 65536);
        switch(s.draw(4))
        {
        case 0:
            b = gen_raw<F>(s);
            break;
        case 1:
            b = a + (s.draw(2) ? tol : -tol) + static_cast<i128>(s.draw(5)) - 2;
            break;
        case 2:
            b = a + (s.draw(2) ? 1 : -1) * (tol ? static_cast<i128>(s.draw(static_cast<uint64_t>(tol * 2 + 2))) : static_cast<i128>(s.draw(3)));
            break;
        default:
            b = a;
        }
        b = std::min(std::max(b, X::min), X::max);
        if(s.draw(2))
            std::swap(a, b);
        i128 d = a < b ? b - a : a - b;
        bool near = d <= tol;
        c.in(a), c.in(b);
        c.nontrivial = a != b;
        c.label_if(L_SAME, a == b);
        c.label_if(L_IN, near && a != b);
        c.label_if(L_EDGE, d == tol || d == tol + 1);
        c.label_if(L_OUT, !near);
        c.label_if(L_FAR, !fits<F>(a - b));
        const F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), " nearly ", show(y), ", ", d, " ulp apart, tolerance ", tol);
        PBT_CHECK(x.nearly_eq(y) == near, "nearly_eq");
        PBT_CHECK(x.nearly_ne(y) == !near, "nearly_ne");
        PBT_CHECK(x.nearly_gt(y) == (!near && a > b), "nearly_gt");
        PBT_CHECK(x.nearly_lt(y) == (!near && a < b), "nearly_lt");
        PBT_CHECK(x.nearly_gt_eq(y) == (near || a > b), "nearly_gt_eq");
        PBT_CHECK(x.nearly_lt_eq(y) == (near || a < b), "nearly_lt_eq");
        PBT_CHECK(raw(x) == a && raw(y) == b, "an operand changed");
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Near, BOTH, 1, 1, 64>(signed_storage{}, "sweep/nearly", 20000, 1000000);
    sweep<Near, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/nearly", 20000, 1000000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"equal", "within the tolerance", "at its edge", "outside", "difference not representable"});
    pbt::rule("two numbers: independent, equal, around the tolerance apart, or a random distance of up to twice the tolerance apart; non-trivial: not equal");
    each<Near>(mains{}, "nearly", 25000000, 600000000);
    each<Near>(small_signed{}, "nearly", 1000000, 20000000);
    each<Near>(other_signed{}, "nearly", 2000000, 40000000);
    each<Near>(unsigneds{}, "nearly", 2000000, 40000000);
    each<Near>(types<fx<int32_t, 16, true>, fx<int64_t, 32, true>, fx<int32_t, 20>, fx<int32_t, 14>, fx<int32_t, 13>, fx<int64_t, 15>>{}, "nearly", 2000000, 20000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
