// C27: numeric_limits, max_value, min_value and the predefined limits describe the type.
#include "gen.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_MAX, L_MIN, L_UNSIGNED, L_SMALL, L_ROUND };

template <class F>
struct Limits
{
    typedef traits<F> X;
    typedef std::numeric_limits<F> N;
    static void run(Src& s, Case& c)
    {
        const volatile bool flags[] = {N::is_specialized, N::is_exact, !N::is_integer, N::is_bounded, !N::has_infinity, !N::has_quiet_NaN, !N::has_signaling_NaN, X::sgn == N::is_signed};
        for(bool b : flags)
            PBT_CHECK(b, "a flag of numeric_limits is wrong");
        i128 a = gen_raw<F>(s);
        c.in(a);
        c.nontrivial = true;
        const F x = mk<F>(a);
        c.label_if(L_MAX, a == X::max);
        c.label_if(L_MIN, a == X::min);
        c.label_if(L_UNSIGNED, !X::sgn);
        c.label_if(L_ROUND, X::r);
        PBT_DESC(show(x));
        const F mx[] = {N::max(), eirin::max_value<F>()};
        const F mn[] = {N::lowest(), N::min(), eirin::min_value<F>()};
        for(const F& m : mx)
        {
            PBT_CHECK(x <= m && !(m < x), "greater than the maximum raw ", raw(m));
            PBT_CHECK(raw(m) == X::max, "the maximum is raw ", raw(m), ", not the greatest number, raw ", X::max);
        }
        for(const F& m : mn)
        {
            PBT_CHECK(x >= m && !(m > x), "less than the minimum raw ", raw(m));
            PBT_CHECK(raw(m) == X::min, "the minimum is raw ", raw(m), ", not the least number, raw ", X::min);
        }
        // neighbours: there is always a number above unless it is the maximum
        if(a < X::max)
            PBT_CHECK(mk<F>(a + 1) > x, "the next number is not greater");
        if(a > X::min)
            PBT_CHECK(mk<F>(a - 1) < x, "the previous number is not smaller");
        // where the numbers which numeric_limits itself holds are representable
        if constexpr(X::f + 8 < sizeof(typename F::value_type) * 8)
        {
            constexpr int bits = sizeof(typename F::value_type) * 8 - X::sgn;
            constexpr int dec = bits < 10 ? 2 : bits < 20 ? 4 : bits < 40 ? 9 : bits == 63 ? 18 : 19;
            i128 one = static_cast<i128>(1) << X::f;
            PBT_CHECK(raw(N::radix) == 2 * one, "radix is raw ", raw(N::radix), ", not 2");
            PBT_CHECK(raw(N::digits) == bits * one, "digits is raw ", raw(N::digits), ", the type has ", bits, " bits besides the sign");
            PBT_CHECK(raw(N::digits10) == dec * one, "digits10 is raw ", raw(N::digits10), ", every number of ", dec, " decimal digits fits");
        }
        i128 eps = X::f >= 16 ? static_cast<i128>(5) << (X::f - 16) : ((static_cast<i128>(5) << X::f) + (X::r ? 32768 : 0)) >> 16;
        {
            PBT_CHECK(raw(N::epsilon()) == eps, "epsilon is raw ", raw(N::epsilon()), ", expected ", eps);
            PBT_CHECK(raw(F::epsilon()) == eps && raw(F::nearly_compare_epsilon()) == eps, "F::epsilon() is raw ", raw(F::epsilon()), ", expected ", eps);
        }
    }
};

static void predefined(Src& s, Case& c)
{
    uint64_t i = s.index(4);
    c.in(i);
    c.nontrivial = true;
    PBT_DESC("predefined limit ", i);
    PBT_CHECK(raw(eirin::f32_max) == traits<f32>::max && raw(eirin::f32_min) == traits<f32>::min, "f32_max or f32_min is wrong: raw ", raw(eirin::f32_max), ", ", raw(eirin::f32_min));
    PBT_CHECK(raw(eirin::f64_max) == traits<f64>::max && raw(eirin::f64_min) == traits<f64>::min, "f64_max or f64_min is wrong: raw ", raw(eirin::f64_max), ", ", raw(eirin::f64_min));
}

#ifdef SWEEP
static int r0 = []
{
    sweep<Limits, BOTH, 1, 1, 64>(signed_storage{}, "sweep/limits", 5000, 100000);
    sweep<Limits, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/limits", 5000, 100000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"the maximum", "the minimum", "unsigned", "small type", "rounding type"});
    pbt::rule("any number of each of many types compared with all limits; every case is non-trivial");
    each<Limits>(mains{}, "limits", 2000000, 20000000);
    each<Limits>(small_signed{}, "limits", 200000, 2000000);
    each<Limits>(other_signed{}, "limits", 200000, 2000000);
    each<Limits>(unsigneds{}, "limits", 200000, 2000000);
    each<Limits>(roundings{}, "limits", 200000, 2000000);
    pbt::add_all("predefined", 4, &predefined);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
