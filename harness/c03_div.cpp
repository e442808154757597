// C03: division of non-rounding types truncates the exact quotient, the remainder is exact.
#include "gen.hpp"
using namespace g;

enum { L_NEG, L_INEXACT, L_EDGE, L_SMALLDIV, L_ZEROQ };

template <class F>
struct Div
{
    static i128 oracle(i128 a, i128 b) { return (a << traits<F>::f) / b; }

    static void check(Case& c, i128 a, i128 b)
    {
        typedef traits<F> X;
        i128 q = oracle(a, b), m = a % b;
        c.in(a);
        c.in(b);
        c.nontrivial = a != 0 && b != pow2(X::f);
        c.label_if(L_NEG, (a < 0) != (b < 0));
        c.label_if(L_INEXACT, (a << X::f) % b != 0);
        c.label_if(L_EDGE, q > X::max - X::max / 64 - 2 || q < X::min - X::min / 64 + 2);
        c.label_if(L_SMALLDIV, b < 16 && b > -16);
        c.label_if(L_ZEROQ, q == 0);
        F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), " / ", show(y), " = raw ", q, ", remainder raw ", m);
        if(fits<F>(q))
        {
            F d = x / y;
            PBT_CHECK(raw(d) == q, "a / b is raw ", raw(d), ", expected ", q);
            F z = x;
            F& ref = (z /= y);
            PBT_CHECK(&ref == &z && raw(z) == q, "a /= b is raw ", raw(z), ", expected ", q);
        }
        F e = x % y;
        PBT_CHECK(raw(e) == m, "a % b is raw ", raw(e), ", expected ", m);
        F z = x;
        F& ref = (z %= y);
        PBT_CHECK(&ref == &z && raw(z) == m, "a %= b is raw ", raw(z), ", expected ", m);
        PBT_CHECK(raw(x) == a && raw(y) == b, "an operand changed");
        if constexpr(X::ibits > 0)
        {
            PBT_CHECK(raw(x / mk<F>(pow2(X::f))) == a, "a / 1 is not a");
            if(a != 0)
            {
                z = x;
                z /= z;
                PBT_CHECK(raw(z) == pow2(X::f), "a /= a is raw ", raw(z));
                z = x;
                z %= z;
                PBT_CHECK(raw(z) == 0, "a %= a is raw ", raw(z));
            }
        }
    }

    static void run(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s), b = gen_raw<F>(s);
        if(b == 0)
            b = 1 + static_cast<i128>(s.draw(3));
        if(s.draw(8) != 0)
        {
            // make the quotient representable
            if(!fits<F>(oracle(a, b)) && s.draw(2))
            {
                i128 t = ((a < 0) == (b < 0)) ? traits<F>::max : traits<F>::min;
                if(t == 0)
                    t = 1;
                b = (a << traits<F>::f) / t;
                b = std::min(std::max(b, traits<F>::min), traits<F>::max);
                if(b == 0)
                    b = 1;
            }
            while(!fits<F>(oracle(a, b)))
                a /= 2;
        }
        check(c, a, b);
    }
};

template <class F>
struct Pairs8
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        uint64_t i = s.index(65536);
        i128 a = X::min + static_cast<i128>(i >> 8), b = X::min + static_cast<i128>(i & 255);
        if(b == 0)
        {
            c.discarded = true;
            return;
        }
        Div<F>::check(c, a, b);
    }
};

// (x * y) / y is x up to one ulp of the quotient when y is at least 1, and a == b * trunc(a / b) + a % b for integers b
template <class F>
struct Laws
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 lim = std::min(pow2(static_cast<unsigned>((X::bits - 1 + static_cast<int>(X::f)) / 2) - 1), X::max / 2);
        i128 a = gen_raw<F>(s, X::sgn ? -lim : 0, lim);
        i128 b = gen_raw<F>(s, pow2(X::f), std::max(lim, pow2(X::f)));
        c.in(a), c.in(b);
        c.nontrivial = a != 0 && b > pow2(X::f);
        F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), ", ", show(y));
        i128 d = raw((x * y) / y) - a;
        PBT_CHECK(d >= -1 && d <= 1, "(a * b) / b - a is raw ", d);
        if constexpr(X::sgn)
        {
            PBT_CHECK(raw((-x) / y) == -raw(x / y), "(-a) / b is not -(a / b)");
            PBT_CHECK(raw((-x) % y) == -raw(x % y), "(-a) % b is not -(a % b)");
        }
        i128 e = a - raw(x % y);
        PBT_CHECK(e % b == 0, "a - a % b is no multiple of b");
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Div, NO_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/div", 20000, 1000000);
    sweep<Div, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/div", 20000, 1000000);
    return 0;
}();
#else
static int r0 = (pbt::labels({"operands of different sign", "inexact quotient", "quotient at an end of the range", "tiny divisor", "zero quotient"}), pbt::rule("a generated dividend and a non-zero divisor; unless only the remainder is checked the operands are adjusted until the quotient is representable; non-trivial: dividend not zero and divisor not one"), 0);
static int r1 = each<Div>(mains{}, "div", 40000000, 1000000000);
static int r2 = each<Div>(small_signed{}, "div", 1500000, 40000000);
static int r3 = each<Div>(other_signed{}, "div", 3000000, 80000000);
static int r4 = each<Div>(unsigneds{}, "div", 3000000, 60000000);
static int r5 = each<Laws>(mains{}, "laws", 8000000, 200000000);
static int r6 = each<Laws>(types<fx<int16_t, 8>, fx<int32_t, 8>, fx<int32_t, 20>, fx<int64_t, 40>, fx<uint32_t, 16>>{}, "laws", 2000000, 30000000);
static int r8 = (pbt::add_all("all-pairs/i8f4", 65536, &Pairs8<fx<int8_t, 4>>::run), pbt::add_all("all-pairs/u8f4", 65536, &Pairs8<fx<uint8_t, 4>>::run), pbt::add_all("all-pairs/i8f6", 65536, &Pairs8<fx<int8_t, 6>>::run), 0);

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
