// C24: powers, with error bounds propagated through repeated squaring.
#include "pow_bound.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEGEXP, L_NEGBASE, L_INTBASE, L_FRACEXP, L_ZEROBASE, L_SMALL, L_BIGEXP, L_DOMAIN, L_HUGE };

template <class F>
struct Pow
{
    typedef traits<F> X;
    static constexpr i128 one = static_cast<i128>(1) << X::f;
    static ld u() { return ulp<F>(); }
    static ld lim() { return top_value<F>(); }

    static i128 base(Src& s)
    {
        switch(s.draw(5))
        {
        case 0: // around 1
            {
                i128 d = gen_raw<F>(s, 0, one) >> s.draw(static_cast<uint64_t>(X::f));
                return fold(s, (s.draw(2) ? one : -one) + (s.draw(2) ? d : -d), X::min + 1, X::max);
            }
        case 1:
            return fold(s, s.range(-12, 12) * one, X::min + 1, X::max);
        case 2:
            return fold(s, gen_raw<F>(s, -one, one) * s.range(1, 20), X::min + 1, X::max);
        default:
            return gen_raw<F>(s, X::min + 1, X::max);
        }
    }

    template <class E>
    static void integral(Src& s, Case& c, i128 b, E n)
    {
        const F x = mk<F>(b);
        uint64_t m = n < 0 ? -static_cast<uint64_t>(static_cast<int64_t>(n)) : static_cast<uint64_t>(n);
        c.label_if(L_NEGEXP, n < 0);
        c.label_if(L_NEGBASE, b < 0);
        c.label_if(L_BIGEXP, m > 16);
        c.label_if(L_ZEROBASE, b == 0);
        // which overload of the exponent
        bool as_fixed = s.draw(2) && (static_cast<i128>(n) * one) >= X::min && (static_cast<i128>(n) * one) <= X::max;
        PBT_DESC("pow ", show(x), " ^ ", static_cast<i128>(n), as_fixed ? " (fixed point exponent)" : "");
        auto call = [&] { return as_fixed ? pow(x, mk<F>(static_cast<i128>(n) * one)) : pow(x, n); };
        if(n == 0)
        {
            PBT_CHECK(raw(call()) == one, "x^0 is raw ", raw(call()));
            return;
        }
        if(b == 0)
        {
            if(n > 0)
                PBT_CHECK(raw(call()) == 0, "0^n is raw ", raw(call()));
            return;
        }
        if(n == E(1))
        {
            PBT_CHECK(raw(call()) == b, "x^1 is raw ", raw(call()));
            return;
        }
        Approx w{};
        if(!repeated<F>(val(x), m, n < 0, w))
        {
            c.discarded = true;
            return;
        }
        c.nontrivial = true;
        const F y = call();
        ld err = std::fabs(val(y) - w.v), allowed = w.e * 1.01L + std::fabs(w.v) * 1e-17L;
        c.label_if(L_SMALL, std::fabs(w.v) < 64 * u());
        PBT_CHECK(c.within(static_cast<double>(err), static_cast<double>(allowed)), "the power is ", val(y), ", expected ", w.v, ", error ", err / u(), " ulp, allowed ", allowed / u());
        if(n > 0 && b % one == 0)
        {
            i128 k = b / one, r = 1;
            if(k == 1 || k == -1)
                r = m % 2 ? k : 1;
            else
                for(uint64_t i = 0; i < m; ++i)
                    r *= k; // |r| is below the maximum
            c.label(L_INTBASE);
            PBT_CHECK(raw(y) == r * one, "the power of an integer is raw ", raw(y), ", expected ", r * one);
        }
    }

    static void fraction(Src& s, Case& c)
    {
        i128 b = base(s);
        if(s.draw(8))
            b = b < 0 ? -b : b;
        i128 e;
        switch(s.draw(3))
        {
        case 0:
            e = gen_raw<F>(s, -one, one);
            break;
        case 1:
            e = s.range(-6, 6) * one + static_cast<i128>(s.draw(5)) * one / 4;
            break;
        default:
            e = gen_raw<F>(s, -one, one) * s.range(1, 8);
        }
        e = fold(s, e, X::min / 2, X::max / 2);
        if(e % one == 0)
            e += one / 2 + (one > 2 ? static_cast<i128>(s.draw(2)) : 0);
        c.in(b);
        c.in(e);
        const F x = mk<F>(b), ex = mk<F>(e);
        PBT_DESC("pow ", show(x), " ^ ", show(ex));
        if(b == 0)
        {
            if(e > 0)
                PBT_CHECK(raw(pow(x, ex)) == 0, "0^e is raw ", raw(pow(x, ex)));
            c.label(L_ZEROBASE);
            return;
        }
        i128 ei = e / one, ef = e % one; // toward zero
        if(b < 0)
        {
            c.label(L_DOMAIN);
            c.nontrivial = true;
            bool threw = false;
            try
            {
                (void)pow(x, ex);
            }
            catch(const std::domain_error&)
            {
                threw = true;
            }
            PBT_CHECK(threw, "a fractional power of a negative number does not throw std::domain_error");
            return;
        }
        // b^ei * exp(ef * log(b))
        Approx p{1, 0};
        if(ei != 0 && !repeated<F>(val(x), static_cast<uint64_t>(ei < 0 ? -ei : ei), ei < 0, p))
        {
            c.discarded = true;
            return;
        }
        ld lb = logl(val(x)), fe = std::ldexp(static_cast<ld>(ef), -static_cast<int>(X::f));
        ld el = (6 + std::fabs(lb) * 0.8L) * u();
        ld z = fe * lb, ez = std::fabs(fe) * el + u();
        ld q = expl(z);
        if(q * 5 > lim())
        {
            c.discarded = true;
            return;
        }
        ld eq = q * (1.3e-6L + (3 + std::fabs(z) + 1) * u()) + 5 * u();
        eq += (q + eq) * (expl(ez) - 1);
        ld want = p.v * q;
        ld allowed = (p.v * eq + q * p.e + p.e * eq + u()) * 1.01L;
        if(want + allowed >= lim())
        {
            c.discarded = true;
            return;
        }
        c.nontrivial = true;
        c.label(L_FRACEXP);
        c.label_if(L_NEGEXP, e < 0);
        const F y = pow(x, ex);
        ld err = std::fabs(val(y) - want);
        PBT_CHECK(c.within(static_cast<double>(err), static_cast<double>(allowed)), "the power is ", val(y), ", expected ", want, ", error ", err / u(), " ulp, allowed ", allowed / u());
    }

    // exponents of any magnitude, for bases of magnitude at most one
    static void huge(Src& s, Case& c, i128 b)
    {
        if(s.draw(3) == 0)
            b = s.draw(2) ? one : -one;
        else
            b %= one + 1;
        uint64_t n = s.draw(0) >> s.draw(64);
        if(s.draw(3) == 0)
            n = (static_cast<uint64_t>(1) << s.draw(64)) + s.draw(5) - 2;
        c.in(b);
        c.in(n);
        c.label(L_HUGE);
        switch(s.draw(4))
        {
        case 0:
            return integral<uint64_t>(s, c, b, n);
        case 1:
            return integral<int64_t>(s, c, b, static_cast<int64_t>(n));
        case 2:
            return integral<uint32_t>(s, c, b, static_cast<uint32_t>(n));
        default:
            return integral<int32_t>(s, c, b, static_cast<int32_t>(n));
        }
    }

    static void run(Src& s, Case& c)
    {
        if(s.draw(2))
            return fraction(s, c);
        i128 b = base(s);
        // exponents around the largest ones with a representable result
        ld l = std::fabs(log2l(std::fabs(val(mk<F>(b ? b : 1)))));
        ld top = std::log2(lim());
        int64_t nmax = l > 1e-9L ? static_cast<int64_t>(std::min<ld>(top / l + 2, 2000)) : 2000;
        if(s.draw(6) == 0)
            return huge(s, c, b);
        int64_t n = s.draw(3) ? s.range(-std::min<int64_t>(nmax, 40), std::min<int64_t>(nmax, 40)) : s.range(-nmax, nmax);
        c.in(b);
        c.in(static_cast<i128>(n));
        switch(s.draw(7))
        {
        case 0:
            return integral<int64_t>(s, c, b, n);
        case 1:
            return integral<uint32_t>(s, c, b, static_cast<uint32_t>(n < 0 ? -n : n));
        case 2:
            return integral<uint64_t>(s, c, b, static_cast<uint64_t>(n < 0 ? -n : n));
        case 3:
            return integral<int8_t>(s, c, b, static_cast<int8_t>(n % 127));
        case 4:
            return integral<int16_t>(s, c, b, static_cast<int16_t>(n));
        case 5:
            return integral<uint8_t>(s, c, b, static_cast<uint8_t>((n < 0 ? -n : n) % 256));
        default:
            return integral<int>(s, c, b, static_cast<int>(n));
        }
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Pow, BOTH, 5, 1, 40>(signed_storage{}, "sweep/pow", 10000, 300000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative exponent", "negative base", "integral base, exact", "fractional exponent", "base zero", "result below 64 ulp", "exponent above 16", "negative base with fractional exponent", "exponent of any magnitude"});
    pbt::rule("a base and an integral exponent of one of seven integer types or as fixed point number, or a fractional exponent; discarded when an intermediate result leaves the range; non-trivial: the power was compared with its propagated bound");
    each<Pow>(types<f32, f64>{}, "pow", 4000000, 100000000);
    each<Pow>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>>{}, "pow", 400000, 10000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
