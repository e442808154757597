// C25: fmod, degrees and radians.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_NEGB, L_MULT, L_SMALLB, L_BIGQ, L_WRAP };

template <class F>
struct Fmod
{
    typedef traits<F> X;
    static void run(Src& s, Case& c)
    {
        constexpr i128 one = static_cast<i128>(1) << X::f;
        i128 a = gen_raw<F>(s), b = gen_raw<F>(s);
        if(b == 0)
            b = s.draw(2) ? 1 : -1;
        if(s.draw(3) == 0)
        {
            // next to a multiple of b
            i128 k = s.range(-20, 20);
            i128 v = b * k + static_cast<i128>(s.draw(5)) - 2;
            if(fits<F>(v))
            {
                a = v;
                c.label(L_MULT);
            }
        }
        // the quotient has to be representable: otherwise use a smaller dividend
        auto quotient = [&]
        { return X::r ? round_div(a * one, b) : a * one / b; };
        if(!fits<F>(quotient()))
            a = a % (b < 0 ? -b : b);
        // and b * floor(a / b) too, also when a / b becomes an integer by its rounding
        const i128 ab = b < 0 ? -b : b, fl = floor_div(a, b);
        if(!fits<F>(quotient()) || !fits<F>(b * fl) || !fits<F>(b * floor_div(quotient(), one)))
        {
            c.discarded = true;
            return;
        }
        c.in(a);
        c.in(b);
        const F x = mk<F>(a), y = mk<F>(b);
        c.nontrivial = fl != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_NEGB, b < 0);
        c.label_if(L_SMALLB, ab < 70);
        c.label_if(L_BIGQ, fl > 1000 || fl < -1000);
        PBT_DESC("fmod ", show(x), " ", show(y));
        i128 r = raw(fmod(x, y));
        i128 d = a - r;
        PBT_CHECK(d % b == 0, "fmod is raw ", r, ", which does not differ from x by a multiple of y");
        // [0, b) or (b, 0], except for less than |b| ulp
        i128 slack = (ab + one - 1) / one; // |b| ulp, in ulps, rounded up
        i128 rr = b < 0 ? -r : r;
        c.label_if(L_WRAP, rr < 0 || rr >= ab);
        if(rr < 0 || rr >= ab)
        {
            // exceeding is allowed only next to a multiple: the distance to it is less than |b| ulp
            i128 over = rr < 0 ? -rr : rr - ab;
            PBT_CHECK(over < slack, "fmod is raw ", r, ", outside of [0, y) by ", over, " ulp");
        }
    }
};

template <class F>
struct Angle
{
    typedef traits<F> X;
    static void run(Src& s, Case& c)
    {
        ld u = ulp<F>(), top = std::ldexp(static_cast<ld>(X::max), -static_cast<int>(X::f));
        i128 a = gen_raw<F>(s);
        if(s.draw(2))
            a = a / static_cast<i128>(1 + s.draw(400));
        c.in(a);
        const F x = mk<F>(a);
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        PBT_DESC(show(x));
        ld v = val(x);
        ld deg = v * (180 / M_PIl), rad = v * (M_PIl / 180);
        if(ld al = (181.5L + std::fabs(deg) / 3) * u; std::fabs(deg) + al < top)
        {
            ld y = val(degrees(x)), e = std::fabs(y - deg);
            PBT_CHECK(c.within(static_cast<double>(e), static_cast<double>(al)), "degrees is ", y, ", expected ", deg, ", error ", e / u, " ulp, allowed ", al / u);
        }
        ld y = val(radians(x)), al = (4.5L + std::fabs(rad) / 3) * u, e = std::fabs(y - rad);
        PBT_CHECK(c.within(static_cast<double>(e), static_cast<double>(al)), "radians is ", y, ", expected ", rad, ", error ", e / u, " ulp, allowed ", al / u);
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Fmod, BOTH, 1, 1, 64>(signed_storage{}, "sweep/fmod", 20000, 500000);
    sweep<Angle, BOTH, 9, 1, 54>(signed_storage{}, "sweep/angle", 10000, 300000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "negative divisor", "dividend next to a multiple of the divisor", "divisor below 70 ulp", "quotient above 1000", "exceeds the half open interval, as allowed"});
    pbt::rule("pairs with a non-zero divisor and representable quotient, and angles; non-trivial: the quotient is not in [0, 1), respectively the angle is not zero");
    each<Fmod>(types<f32, f64>{}, "fmod", 8000000, 200000000);
    each<Fmod>(types<fx<int16_t, 8>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "fmod", 1000000, 20000000);
    each<Angle>(types<f32, f64>{}, "angle", 5000000, 100000000);
    each<Angle>(types<fx<int32_t, 8>, fx<int32_t, 20>, fx<int64_t, 16>, fx<int64_t, 40>>{}, "angle", 1000000, 20000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
