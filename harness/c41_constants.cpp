// C41: constants which are passed as template arguments (pi, log2 e, log2 10) and the iteration limit of cbrt are used.
#include "ref.hpp"
#include <array>
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_NEARPI, L_RECIP, L_SMALLP, L_BIGP, L_NEGP };

constexpr int N_CONST = 20;

// the i-th constant of the type, as a raw value; pi and its neighbours, rough values of pi, integers, and arbitrary ones
template <class F>
constexpr F constant(int i)
{
    typedef traits<F> X;
    constexpr i128 one = static_cast<i128>(1) << X::f;
    // rounded down, for rounding types to nearest
    const i128 pi = ((static_cast<i128>(0x6487ED5110B4611All) >> (60 - X::f)) + (X::r ? 1 : 0)) >> 1;
    i128 v = 0;
    switch(i)
    {
    case 0: v = pi; break;
    case 1: v = pi + 1; break;
    case 2: v = pi - 1; break;
    case 3: v = pi + (one >> 9) + 1; break;
    case 4: v = pi - (one >> 10) - 1; break;
    case 5: v = 3 * one; break;
    case 6: v = 22 * one / 7; break;
    case 7: v = one; break;
    case 8: v = 2 * one; break;
    case 9: v = one / 2; break;
    case 10: v = X::ibits >= 9 ? 200 * one : 5 * one; break;
    case 11: v = X::ibits >= 9 ? 180 * one : 6 * one; break;
    case 12: v = static_cast<i128>(0x171547652B82FE17ll) >> (60 - X::f); break; // log2 e
    case 13: v = static_cast<i128>(0x35269E12F346E2BFll) >> (60 - X::f); break; // log2 10
    case 14: v = -one; break;
    default:
        {
            uint64_t h = static_cast<uint64_t>(i) * 0x9E3779B97F4A7C15ull + X::f * 0xBF58476D1CE4E5B9ull;
            h ^= h >> 29;
            h *= 0x94D049BB133111EBull;
            h ^= h >> 32;
            v = static_cast<i128>(h % static_cast<uint64_t>(8 * one)) >> (h >> 62);
            if(v < one / 4)
                v += one;
        }
    }
    return F::from_internal_value(static_cast<typename X::T>(v));
}

template <class F>
struct Functions
{
    F (*sin)(F);
    F (*cos)(F);
    F (*atan)(F);
    F (*asin)(F);
    F (*acos)(F);
    F (*degrees)(F);
    F (*radians)(F);
    F (*log)(F);
    F (*log10)(F);
};

template <class T, class I, unsigned f, bool r, eirin::fixed_num<T, I, f, r> p>
constexpr Functions<eirin::fixed_num<T, I, f, r>> functions()
{
    typedef eirin::fixed_num<T, I, f, r> F;
    return {
        [](F x)
        { return eirin::sin<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::cos<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::atan<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::asin<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::acos<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::degrees<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::radians<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::log<T, I, f, r, p>(x); },
        [](F x)
        { return eirin::log10<T, I, f, r, p>(x); },
    };
}

template <class F>
struct Passed
{
    typedef traits<F> X;
    typedef typename X::T T;
    typedef typename X::I I;
    typedef Real<F> R;
    static constexpr unsigned f = X::f;
    static constexpr bool r = X::r;

    template <int... i>
    static constexpr std::array<Functions<F>, N_CONST> table(std::integer_sequence<int, i...>)
    {
        return {functions<T, I, f, r, constant<F>(i)>()...};
    }
    static constexpr std::array<Functions<F>, N_CONST> fs = table(std::make_integer_sequence<int, N_CONST>());

    static constexpr i128 one = static_cast<i128>(1) << X::f;

    static void near(Case& c, const char* name, R y, R w, R allowed)
    {
        const R e = r_abs(y - w);
        PBT_CHECK(c.within(dbl(e), dbl(allowed)), name, " is ", dbl(y), ", expected ", dbl(w), ", error ", dbl(e / rulp<F>()), " ulp, allowed ", dbl(allowed / rulp<F>()));
    }

    static void run(Src& s, Case& c)
    {
        const int i = static_cast<int>(s.draw(N_CONST));
        const F p = constant<F>(i);
        const R u = rulp<F>(), P = rv(p), top = r_ldexp(R(1), X::ibits);
        const Functions<F>& fn = fs[static_cast<size_t>(i)];
        const int what = static_cast<int>(s.draw(6));
        i128 a = what == 1 ? gen_raw<F>(s, -one, one) : gen_raw<F>(s);
        if(what >= 2 && s.draw(2))
            a = a / static_cast<i128>(1 + s.draw(400));
        c.in(a);
        c.in(raw(p));
        const F x = mk<F>(a);
        const R v = rv(x), real_pi = rv(constant<F>(0)), d = r_abs(P - real_pi);
        c.nontrivial = a != 0 && i != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_NEARPI, i < 7);
        c.label_if(L_SMALLP, r_abs(P) <= R(1));
        c.label_if(L_BIGP, P > R(4));
        c.label_if(L_NEGP, raw(p) < 0);
        PBT_DESC("operation ", what, " ", show(x), " with the constant ", show(p));
        switch(what)
        {
        case 0: // arc tangent: the constant only matters outside of [-1, 1]
            {
                const bool recip = a > one || a < -one;
                c.label_if(L_RECIP, recip);
                R w = rv(eirin::atan(x));
                if(recip)
                    w += (a > 0 ? R(1) : R(-1)) * (P - real_pi) / 2;
                near(c, "atan", rv(fn.atan(x)), w, 2 * u);
                break;
            }
        case 1:
            if(s.draw(2) == 0) // the values which do not need an arc tangent
            {
                near(c, "asin(1)", rv(fn.asin(F(1))), P / 2, u);
                near(c, "asin(-1)", rv(fn.asin(F(-1))), -P / 2, u);
                near(c, "acos(-1)", rv(fn.acos(F(-1))), P, R(0));
                near(c, "acos(0)", rv(fn.acos(F(0))), P / 2, u);
                near(c, "acos(1)", rv(fn.acos(F(1))), R(0), R(0));
            }
            else if(i < 7)
            {
                near(c, "asin", rv(fn.asin(x)), rv(eirin::asin(x)), d + 3 * u);
                near(c, "acos", rv(fn.acos(x)), rv(eirin::acos(x)), 2 * d + 4 * u);
            }
            break;
        case 2:
            {
                const R q = v / P, w = q * 180, al = R(183) * u;
                if(r_abs(q) + 2 * u < top && r_abs(w) + al < top)
                    near(c, "degrees", rv(fn.degrees(x)), w, al);
                break;
            }
        case 3:
            {
                const R w = v / 180 * P, al = (r_abs(P) + 2) * u;
                if(r_abs(w) + al < top)
                    near(c, "radians", rv(fn.radians(x)), w, al);
                break;
            }
        case 4:
            {
                if(a <= 0)
                {
                    bool t1 = false, t2 = false;
                    try
                    {
                        (void)fn.log(x);
                    }
                    catch(const std::domain_error&)
                    {
                        t1 = true;
                    }
                    try
                    {
                        (void)fn.log10(x);
                    }
                    catch(const std::domain_error&)
                    {
                        t2 = true;
                    }
                    PBT_CHECK(t1 && t2, "log or log10 of ", show(x), " does not throw");
                    break;
                }
                const R w = rv(eirin::log2(x)) / P;
                if(r_abs(w) + 2 * u < top)
                {
                    near(c, "log", rv(fn.log(x)), w, 2 * u);
                    near(c, "log10", rv(fn.log10(x)), w, 2 * u);
                }
                break;
            }
        default:
            if(i == 0)
            {
                PBT_CHECK(raw(fn.sin(x)) == raw(eirin::sin(x)), "sin with the default pi is raw ", raw(fn.sin(x)), " instead of ", raw(eirin::sin(x)));
                PBT_CHECK(raw(fn.cos(x)) == raw(eirin::cos(x)), "cos with the default pi is raw ", raw(fn.cos(x)), " instead of ", raw(eirin::cos(x)));
                if(r_abs(v) * 60 < top)
                    PBT_CHECK(raw(fn.degrees(x)) == raw(eirin::degrees(x)), "degrees with the default pi is raw ", raw(fn.degrees(x)), " instead of ", raw(eirin::degrees(x)));
                PBT_CHECK(raw(fn.radians(x)) == raw(eirin::radians(x)), "radians with the default pi is raw ", raw(fn.radians(x)), " instead of ", raw(eirin::radians(x)));
                PBT_CHECK(raw(fn.atan(x)) == raw(eirin::atan(x)), "atan with the default pi is raw ", raw(fn.atan(x)), " instead of ", raw(eirin::atan(x)));
            }
            else if(i < 7 && r_abs(v) < 100)
            {
                R E = (2 + r_abs(v)) * d + R(1e-5L) + 40 * u;
                near(c, "sin", rv(fn.sin(x)), rv(eirin::sin(x)), E);
                near(c, "cos", rv(fn.cos(x)), rv(eirin::cos(x)), E);
            }
            const i128 k = raw(eirin::cbrt(x));
            PBT_CHECK((raw(eirin::cbrt<T, I, f, r, 100>(x)) == k && raw(eirin::cbrt<T, I, f, r, 200>(x)) == k && raw(eirin::cbrt<T, I, f, r, 1000>(x)) == k), "cbrt depends on the limit of the iterations: raw ", raw(eirin::cbrt<T, I, f, r, 100>(x)), ", ", k, ", ", raw(eirin::cbrt<T, I, f, r, 1000>(x)));
        }
    }
};

static int r0 = []
{
    pbt::labels({"negative argument", "a constant next to pi", "atan outside of [-1, 1]", "constant at most 1", "constant above 4", "negative constant"});
    pbt::rule("one of twenty constants of the type (pi, its neighbours, rough values of pi, integers, logarithms, arbitrary ones), a function and an argument; non-trivial: the argument is not zero and the constant is not the default pi");
    each<Passed>(types<f32, f64>{}, "passed", 1000000, 30000000);
    each<Passed>(types<fx<int32_t, 12>, fx<int32_t, 22>, fx<int64_t, 20>, fx<int64_t, 40>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "passed", 200000, 8000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
