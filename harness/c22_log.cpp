// C22: logarithms.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_POW2, L_NEAR1, L_TINY, L_DOMAIN, L_BIG, L_FEW };

template <class F>
struct Log
{
    typedef traits<F> X;
    typedef Real<F> R;
    static void check(Case& c, i128 a)
    {
        c.in(a);
        const F x = mk<F>(a);
        c.nontrivial = a > 0;
        PBT_DESC(show(x));
        int threw = 0;
        F y[3];
        auto call = [&](int i, auto fn)
        {
            try
            {
                y[i] = fn();
            }
            catch(const std::domain_error&)
            {
                threw |= 1 << i;
            }
        };
        call(0, [&] { return log2(x); });
        call(1, [&] { return log(x); });
        call(2, [&] { return log10(x); });
        if(a <= 0)
        {
            c.label(L_DOMAIN);
            PBT_CHECK(threw == 7, "logarithms of a number that is not positive do not all throw std::domain_error (mask ", threw, ")");
            return;
        }
        PBT_CHECK(threw == 0, "logarithms of a positive number throw (mask ", threw, ")");
        const R v = rv(x), u = rulp<F>();
        c.label_if(L_POW2, (a & (a - 1)) == 0);
        c.label_if(L_NEAR1, r_abs(v - 1) < R(0.01L));
        c.label_if(L_TINY, a < 70);
        c.label_if(L_BIG, a > X::max / 2);
        R w[3] = {r_log2(v), r_log(v), r_log10(v)};
        R al[3] = {5 * u, (6 + r_abs(w[1]) * R(0.8L)) * u, (4 + r_abs(w[2]) / 3) * u};
        static const char* nm[] = {"log2", "log", "log10"};
        for(int i = 0; i < 3; ++i)
        {
            R e = r_abs(rv(y[i]) - w[i]);
            PBT_CHECK(c.within(dbl(e), dbl(al[i])), nm[i], " is ", dbl(rv(y[i])), ", expected ", dbl(w[i]), ", error ", dbl(e / u), " ulp, allowed ", dbl(al[i] / u));
        }
        if((a & (a - 1)) == 0)
        {
            i128 k = 0;
            while((static_cast<i128>(1) << k) < a)
                ++k;
            PBT_CHECK(raw(y[0]) == (k - static_cast<i128>(X::f)) * (static_cast<i128>(1) << X::f), "log2 of 2^", k - static_cast<i128>(X::f), " is raw ", raw(y[0]));
        }
    }
    // types with few integral bits: only arguments with a representable result
    static void few(Src& s, Case& c)
    {
        const int ints = X::bits - 1 - static_cast<int>(X::f); // log2 lies in [-2^ints, 2^ints)
        const int top = ints > 5 ? 0 : 1 << ints;
        i128 lo = top == 0 || top >= static_cast<int>(X::f) ? 1 : static_cast<i128>(1) << (static_cast<int>(X::f) - top);
        i128 hi = X::max;
        i128 a;
        switch(s.draw(4))
        {
        case 0:
            a = (static_cast<i128>(1) << s.draw(X::bits - 1)) + static_cast<i128>(s.draw(5)) - 2;
            break;
        case 1:
            a = gen_raw<F>(s, lo, hi);
            break;
        default:
            a = static_cast<i128>(s.draw(0) >> 1 >> s.draw(63));
        }
        if(a < lo || a > hi)
            a = lo + (a < 0 ? -a : a) % (hi - lo + 1);
        c.in(a);
        const F x = mk<F>(a);
        c.nontrivial = true;
        c.label(L_FEW);
        PBT_DESC(show(x));
        const R v = rv(x), u = rulp<F>(), w = r_log2(v);
        const F y = log2(x);
        R e = r_abs(rv(y) - w);
        PBT_CHECK(c.within(dbl(e), dbl(5 * u)), "log2 is ", dbl(rv(y)), ", expected ", dbl(w), ", error ", dbl(e / u), " ulp, allowed 5");
    }
    static void run(Src& s, Case& c)
    {
        if(s.draw(8) == 0)
            check(c, gen_raw<F>(s, X::min, 0));
        else if(s.draw(4) == 0)
        {
            // next to powers of e, 10 and 2
            static const ld base[] = {M_El, 10, 2, M_SQRT2l};
            ld p = powl(base[s.draw(4)], static_cast<ld>(s.range(-12, 30)));
            ld r = std::ldexp(p, static_cast<int>(X::f));
            i128 v = r < 1e37L ? static_cast<i128>(r) : X::max;
            check(c, fold(s, v + static_cast<i128>(s.draw(5)) - 2, 1, X::max));
        }
        else
            check(c, gen_raw<F>(s, 1, X::max));
    }
    static void all32(Src& s, Case& c) { check(c, static_cast<i128>(s.index(1ull << 31))); }
};

template <class F>
struct Few
{
    static void run(Src& s, Case& c) { Log<F>::few(s, c); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Log, BOTH, 6, 1, 50>(signed_storage{}, "sweep/log", 5000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"power of two", "within 0.01 of 1", "less than 70 ulp", "zero or negative", "upper half of the range", "few integral bits"});
    pbt::rule("positive numbers, numbers next to powers of e, 10 and 2, and numbers that are not positive; non-trivial: positive; for types with few integral bits numbers with a representable logarithm, all non-trivial");
    each<Log>(types<f32, f64>{}, "log", 2500000, 50000000);
    each<Log>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>>{}, "log", 200000, 6000000);
    each<Few>(types<fx<int32_t, 26>, fx<int32_t, 28>, fx<int32_t, 29>, fx<int32_t, 30>, fx<int32_t, 30, true>, fx<int64_t, 56>, fx<int64_t, 58>, fx<int64_t, 61>, fx<int64_t, 62>, fx<int16_t, 14>, fx<int16_t, 12>, fx<int8_t, 6>, fx<int8_t, 5>>{}, "few", 150000, 4000000);
    each<Log>(types<fx<int64_t, 48>>{}, "log", 50000, 1000000);
    pbt::add_all_thorough("all/i32f16", 4000000, 1ull << 31, &Log<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
