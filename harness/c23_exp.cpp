// C23: exponential function.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_LARGE, L_SMALL, L_ZERO, L_INT };

template <class F>
struct Exp
{
    typedef traits<F> X;
    typedef Real<F> R;
    static i128 top()
    {
        static const i128 t = static_cast<i128>(std::ldexp(std::log(static_cast<ld>(X::max) / 4 / std::ldexp(static_cast<ld>(1), static_cast<int>(X::f))), static_cast<int>(X::f)));
        return std::min(t, X::max);
    }
    static void check(Case& c, i128 a)
    {
        if(a > top())
            return;
        constexpr i128 one = static_cast<i128>(1) << X::f;
        c.in(a);
        const F x = mk<F>(a);
        const R v = rv(x), u = rulp<F>();
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_INT, a % one == 0);
        PBT_DESC("exp ", show(x));
        R y = rv(exp(x)), w = r_exp(v);
        c.label_if(L_LARGE, w * 64 > rmax<F>());
        c.label_if(L_SMALL, w < 64 * u);
        c.label_if(L_ZERO, y == 0);
        R k = r_abs(r_floor(v));
        R allowed = w * (R(1.3e-6L) + (3 + k) * u) + 5 * u;
        R e = r_abs(y - w);
        PBT_CHECK(y >= 0, "exp is negative: ", dbl(y));
        PBT_CHECK(c.within(dbl(e), dbl(allowed)), "exp is ", dbl(y), ", expected ", dbl(w), ", error ", dbl(e / u), " ulp, allowed ", dbl(allowed / u));
        if(a == 0)
            PBT_CHECK(raw(exp(x)) == one, "exp(0) is raw ", raw(exp(x)));
    }
    static void run(Src& s, Case& c)
    {
        constexpr i128 one = static_cast<i128>(1) << X::f;
        switch(s.draw(4))
        {
        case 0:
            check(c, gen_raw<F>(s, X::min, top()));
            break;
        case 1: // next to integers
            check(c, fold(s, static_cast<i128>(s.range(-static_cast<int>(X::f) * 3 / 4 - 2, 40)) * one + static_cast<i128>(s.draw(5)) - 2, X::min, top()));
            break;
        default: // where the result is neither 0 nor too large
            check(c, gen_raw<F>(s, std::max(X::min, -static_cast<i128>(X::f) * one), top()));
        }
    }
    static void all32(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(static_cast<uint64_t>(top() - X::min + 1)))); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Exp, BOTH, 5, 1, 64>(signed_storage{}, "sweep/exp", 5000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "more than 1/64 of the maximum", "less than 64 ulp", "result zero", "integral argument"});
    pbt::rule("numbers x with e^x at most a quarter of the maximum; non-trivial: not zero");
    each<Exp>(types<f32, f64>{}, "exp", 6000000, 100000000);
    each<Exp>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>>{}, "exp", 400000, 10000000);
    each<Exp>(types<fx<int64_t, 48>>{}, "exp", 60000, 1000000);
    each<Exp>(types<fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "exp", 400000, 10000000);
    uint64_t n = static_cast<uint64_t>(Exp<f32>::top() - traits<f32>::min + 1);
    pbt::add_all_thorough("all/i32f16", 10000000, n, &Exp<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
