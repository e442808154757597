// C20: sine, cosine and tangent.
#include "angle.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_FAR, L_SPECIAL, L_POLE, L_TAN, L_NEAR0 };

template <class F>
struct Trig
{
    typedef traits<F> X;
    typedef Real<F> R;
    static void check(Case& c, i128 a, bool with_tan)
    {
        c.in(a);
        const F x = mk<F>(a);
        const R v = rv(x), u = rulp<F>();
        const R E = R(5e-6L) + (12 + r_abs(v) / 5) * u;
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_FAR, r_abs(v) > 7);
        c.label_if(L_NEAR0, r_abs(v) < R(1e-3L));
        PBT_DESC(show(x));
        R rs = r_sin(v), rc = r_cos(v);
        R ys = rv(sin(x)), yc = rv(cos(x));
        PBT_CHECK(c.within(dbl(r_abs(ys - rs)), dbl(E)), "sin is ", dbl(ys), ", expected ", dbl(rs), ", error ", dbl(r_abs(ys - rs)), ", allowed ", dbl(E));
        PBT_CHECK(c.within(dbl(r_abs(yc - rc)), dbl(E)), "cos is ", dbl(yc), ", expected ", dbl(rc), ", error ", dbl(r_abs(yc - rc)), ", allowed ", dbl(E));
        if(!with_tan)
            return;
        R ac = r_abs(rc);
        bool must = ac > 2 * E + 4 * u && r_abs(rs) < ac * (rmax<F>() / 3);
        bool may_throw = ac <= E + 2 * u;
        if(!must && !may_throw)
            return; // the quotient may exceed the range
        if(!must)
        {
            // beside a pole: a number or std::domain_error
            if(r_abs(rs) > (ac > u ? ac - u : R(0)) * (rmax<F>() / 3))
                return;
        }
        c.label_if(L_POLE, !must);
        try
        {
            R t = rv(tan(x));
            if(!must)
                return;
            c.label(L_TAN);
            R err = r_abs(t * rc - rs);
            R allowed = (1 + r_abs(t)) * E + 2 * u;
            PBT_CHECK(c.within(dbl(err), dbl(allowed)), "tan is ", dbl(t), ", expected ", dbl(rs / rc), ", |tan cos - sin| is ", dbl(err), ", allowed ", dbl(allowed));
        }
        catch(const std::domain_error&)
        {
            PBT_CHECK(may_throw, "tan throws although the cosine is ", dbl(rc));
        }
    }
    static void run(Src& s, Case& c) { check(c, gen_angle<F>(s, c, L_SPECIAL), true); }
    static void all32(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(1ull << 32)), true); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Trig, BOTH, 4, 1, 64>(signed_storage{}, "sweep/trig", 5000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "beyond one turn", "next to a multiple of pi/4", "beside a pole of the tangent", "tangent compared", "magnitude below 0.001"});
    pbt::rule("any angle, or one next to a multiple of pi/4; non-trivial: not zero");
    each<Trig>(types<f32, f64>{}, "trig", 3000000, 60000000);
    each<Trig>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int32_t, 27>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>>{}, "trig", 200000, 6000000);
    each<Trig>(types<fx<int64_t, 48>, fx<int64_t, 56>>{}, "trig", 60000, 1000000);
    each<Trig>(types<fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "trig", 200000, 6000000);
    pbt::add_all_thorough("all/i32f16", 4000000, 1ull << 32, &Trig<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
