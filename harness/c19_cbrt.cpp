// C19: cube root.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_TINY, L_BIG, L_CUBE, L_MIN };

template <class F>
struct Cbrt
{
    typedef traits<F> X;
    typedef Real<F> R;
    static void check(Case& c, i128 a)
    {
        c.in(a);
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_TINY, a < 70 && a > -70);
        c.label_if(L_BIG, a > X::max / 2 || a < X::min / 2);
        c.label_if(L_MIN, a == X::min);
        const F x = mk<F>(a);
        PBT_DESC("cbrt ", show(x));
        const F y = cbrt(x);
        if(a == 0)
        {
            PBT_CHECK(raw(y) == 0, "cbrt(0) is raw ", raw(y));
            return;
        }
        R want = r_cbrt(rv(x));
        R err = r_abs(rv(y) - want);
        R allowed = (3 + 1 / (3 * r_abs(want))) * rulp<F>();
        PBT_CHECK(c.within(dbl(err), dbl(allowed)), "cbrt is raw ", raw(y), " ~", dbl(rv(y)), ", expected ", dbl(want), ", error ", dbl(err / rulp<F>()), " ulp, allowed ", dbl(allowed / rulp<F>()));
        if(X::sgn && a != X::min)
            PBT_CHECK(raw(cbrt(-x)) == -raw(y), "cbrt(-x) is raw ", raw(cbrt(-x)), ", cbrt(x) is raw ", raw(y));
    }
    static void run(Src& s, Case& c)
    {
        if(s.draw(4) == 0)
        {
            ld lim = std::cbrt(std::ldexp(static_cast<ld>(X::max), -static_cast<int>(X::f)));
            i128 rt = gen_raw<F>(s, 0, static_cast<i128>(std::ldexp(lim, static_cast<int>(X::f))));
            i128 cu = X::f > 40 ? (((rt * rt) >> X::f) * rt) >> X::f : static_cast<i128>(std::ldexp(static_cast<ld>(rt) * static_cast<ld>(rt) * static_cast<ld>(rt), -2 * static_cast<int>(X::f)));
            i128 v = fold(s, cu + static_cast<i128>(s.draw(5)) - 2, 0, X::max);
            c.label(L_CUBE);
            check(c, X::sgn && s.draw(2) ? -v : v);
        }
        else
            check(c, gen_raw<F>(s));
    }
    static void all32(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(1ull << 32))); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Cbrt, BOTH, 1, 1, 64>(signed_storage{}, "sweep/cbrt", 10000, 300000);
    sweep<Cbrt, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/cbrt", 10000, 300000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "magnitude less than 70 ulp", "outer half of the range", "next to a cube", "the minimum"});
    pbt::rule("any number; non-trivial: not zero");
    each<Cbrt>(types<f32, f64>{}, "cbrt", 3000000, 60000000);
    each<Cbrt>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 24>, fx<int32_t, 29>, fx<int64_t, 8>, fx<int64_t, 16>, fx<int64_t, 40>, fx<int64_t, 48>, fx<int32_t, 16, true>>{}, "cbrt", 150000, 3000000);
    pbt::add_all_thorough("all/i32f16", 8000000, 1ull << 32, &Cbrt<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
