// C21: arc tangent, arc sine and arc cosine.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_RECIP, L_INSIDE, L_NEAR1, L_OUTSIDE, L_MIN };

template <class F>
struct Arc
{
    typedef traits<F> X;
    typedef Real<F> R;
    static constexpr bool with_asin = (X::f <= 16 && X::ibits > static_cast<int>(X::f) / 2) || (X::f <= 40 && X::ibits >= 23);
    static void check(Case& c, i128 a)
    {
        constexpr i128 one = static_cast<i128>(1) << X::f;
        c.in(a);
        const F x = mk<F>(a);
        const R v = rv(x), u = rulp<F>();
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_RECIP, a > one || a < -one);
        c.label_if(L_INSIDE, a >= -one && a <= one);
        c.label_if(L_MIN, a == X::min);
        PBT_DESC(show(x));
        R y = rv(atan(x)), w = r_atan(v), E = R(2.2e-4L) + 6 * u;
        PBT_CHECK(c.within(dbl(r_abs(y - w)), dbl(E)), "atan is ", dbl(y), ", expected ", dbl(w), ", error ", dbl(r_abs(y - w)), ", allowed ", dbl(E));
        if(a != X::min)
            PBT_CHECK(raw(atan(-x)) == -raw(atan(x)), "atan(-x) is raw ", raw(atan(-x)), ", atan(x) is raw ", raw(atan(x)));
        bool out = a > one || a < -one;
        bool t1 = false, t2 = false;
        F s, k;
        try
        {
            s = asin(x);
        }
        catch(const std::domain_error&)
        {
            t1 = true;
        }
        try
        {
            k = acos(x);
        }
        catch(const std::domain_error&)
        {
            t2 = true;
        }
        c.label_if(L_OUTSIDE, out);
        PBT_CHECK(t1 == out && t2 == out, "asin ", t1 ? "throws" : "does not throw", ", acos ", t2 ? "throws" : "does not throw");
        if(out)
            return;
        if(a == one || a == -one || a == 0)
        {
            R es = r_abs(rv(s) - r_asin(v)), ek = r_abs(rv(k) - r_acos(v));
            PBT_CHECK(es <= 2 * u && ek <= 2 * u, "asin is raw ", raw(s), ", acos is raw ", raw(k));
            return;
        }
        if constexpr(with_asin)
        {
            c.label_if(L_NEAR1, r_abs(v) > R(0.99L));
            R A = (r_abs(v) <= R(0.9L) ? R(2.8e-4L) : R(1.5e-3L)) + 6 * u;
            R es = r_abs(rv(s) - r_asin(v)), ek = r_abs(rv(k) - r_acos(v));
            PBT_CHECK(c.within(dbl(es), dbl(A)), "asin is ", dbl(rv(s)), ", expected ", dbl(r_asin(v)), ", error ", dbl(es), ", allowed ", dbl(A));
            PBT_CHECK(c.within(dbl(ek), dbl(A)), "acos is ", dbl(rv(k)), ", expected ", dbl(r_acos(v)), ", error ", dbl(ek), ", allowed ", dbl(A));
            if constexpr(std::is_same_v<F, f32>)
            {
                R A32 = R(3.2e-4L);
                PBT_CHECK(c.within(dbl(es), dbl(A32)) && c.within(dbl(ek), dbl(A32)), "asin or acos of fixed32 is off by ", dbl(es), " or ", dbl(ek), ", allowed ", dbl(A32));
            }
        }
    }
    static void run(Src& s, Case& c)
    {
        constexpr i128 one = static_cast<i128>(1) << X::f;
        i128 a;
        switch(s.draw(4))
        {
        case 0:
            a = gen_raw<F>(s);
            break;
        case 1:
            {
                i128 d = gen_raw<F>(s, 0, one) >> s.draw(static_cast<uint64_t>(X::f));
                a = (s.draw(2) ? one : -one) + (s.draw(2) ? d : -d);
                break;
            }
        default:
            a = gen_raw<F>(s, -one, one);
        }
        check(c, fold(s, a, X::min, X::max));
    }
    static void all32(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(1ull << 32))); }
    // all the numbers of [-2, 2]
    static void all2(Src& s, Case& c) { check(c, static_cast<i128>(s.index(262145)) - 131072); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Arc, BOTH, 3, 1, 64>(signed_storage{}, "sweep/arc", 5000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "outside of [-1, 1] for atan", "inside of [-1, 1]", "magnitude above 0.99 for asin and acos", "asin and acos outside of their domain", "the minimum"});
    pbt::rule("any number, numbers of [-1, 1] and numbers next to 1 and -1; non-trivial: not zero");
    each<Arc>(types<f32, f64>{}, "arc", 4000000, 60000000);
    each<Arc>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>>{}, "arc", 300000, 8000000);
    each<Arc>(types<fx<int64_t, 48>>{}, "arc", 60000, 1000000);
    each<Arc>(types<fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "arc", 300000, 8000000);
    pbt::add_all("all2/i32f16", 262145, &Arc<f32>::all2);
    pbt::add_all_thorough("all/i32f16", 4000000, 1ull << 32, &Arc<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
