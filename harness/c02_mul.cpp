// C02: multiplication of non-rounding types is the exact product rounded down to a multiple of one ulp.
#include "gen.hpp"
using namespace g;

enum { L_NEG, L_INEXACT, L_EDGE, L_BIG, L_TINY };

template <class F>
struct Mul
{
    // a product which is too big for the type is reported as one that is just out of its range
    static i128 oracle(i128 a, i128 b)
    {
        if constexpr(!traits<F>::sgn)
        {
            u128 p = (static_cast<u128>(a) * static_cast<u128>(b)) >> traits<F>::f;
            return p > static_cast<u128>(traits<F>::max) ? traits<F>::max + 1 : static_cast<i128>(p);
        }
        return floor_div(a * b, pow2(traits<F>::f));
    }

    static void check(Case& c, i128 a, i128 b)
    {
        typedef traits<F> X;
        i128 r = oracle(a, b);
        c.in(a);
        c.in(b);
        c.nontrivial = a != 0 && b != 0;
        c.label_if(L_NEG, (a < 0) != (b < 0));
        c.label_if(L_INEXACT, ((static_cast<u128>(a) * static_cast<u128>(b)) & static_cast<u128>(pow2(X::f) - 1)) != 0);
        c.label_if(L_EDGE, r > X::max - X::max / 64 - 2 || r < X::min - X::min / 64 + 2);
        c.label_if(L_TINY, r == 0 || r == -1);
        F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), " * ", show(y), " = raw ", r);
        F p = x * y;
        PBT_CHECK(raw(p) == r, "a * b is raw ", raw(p), ", expected ", r);
        PBT_CHECK(raw(y * x) == r, "b * a is raw ", raw(y * x), ", expected ", r);
        F z = x;
        F& ref = (z *= y);
        PBT_CHECK(&ref == &z && raw(z) == r, "a *= b is raw ", raw(z), ", expected ", r);
        PBT_CHECK(raw(x) == a && raw(y) == b, "an operand changed");
        if(fits<F>(oracle(a, a)))
        {
            z = x;
            z *= z;
            PBT_CHECK(raw(z) == oracle(a, a), "a *= a is raw ", raw(z), ", expected ", oracle(a, a));
        }
        if constexpr(X::ibits > 0)
        {
            PBT_CHECK(raw(x * mk<F>(pow2(X::f))) == a, "a * 1 is not a");
            PBT_CHECK(raw(x * mk<F>(0)) == 0, "a * 0 is not 0");
        }
    }

    static void run(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s), b = gen_raw<F>(s);
        bool keep = s.draw(2);
        // shrink the second factor until the product is representable, or aim at the end of the range.
        if(!fits<F>(oracle(a, b)))
        {
            if(keep && a != 0)
            {
                i128 t = ((a < 0) == (b < 0)) ? traits<F>::max : traits<F>::min;
                t -= t / pow2(static_cast<unsigned>(s.draw(60)) + 1) * static_cast<i128>(s.draw(2));
                b = (t << std::min(traits<F>::f, 62u)) / a;
                b = std::min(std::max(b, traits<F>::min), traits<F>::max);
            }
            while(!fits<F>(oracle(a, b)))
                b /= 2;
        }
        check(c, a, b);
    }
};

template <class F>
struct Pairs8
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        uint64_t i = s.index(65536);
        i128 a = X::min + static_cast<i128>(i >> 8), b = X::min + static_cast<i128>(i & 255);
        if(!fits<F>(Mul<F>::oracle(a, b)))
        {
            c.discarded = true;
            return;
        }
        Mul<F>::check(c, a, b);
    }
};

// monotone in each factor, and distributes over addition up to one ulp: relations between several products
template <class F>
struct Laws
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        // factors below sqrt of the range so that every product is representable
        i128 lim = pow2(static_cast<unsigned>((X::bits - 1 + static_cast<int>(X::f)) / 2) - 2);
        lim = std::min(lim, X::max / 4);
        i128 lo = X::sgn ? -lim : 0;
        i128 a = gen_raw<F>(s, lo, lim), b = gen_raw<F>(s, lo, lim), d = gen_raw<F>(s, lo, lim);
        c.in(a), c.in(b), c.in(d);
        c.nontrivial = a && b && d;
        F x = mk<F>(a), y = mk<F>(b), z = mk<F>(d);
        PBT_DESC(show(x), ", ", show(y), ", ", show(z));
        i128 diff = raw(x * (y + z)) - raw(x * y + x * z);
        PBT_CHECK(diff == 0 || diff == 1, "a * (b + c) - (a * b + a * c) is raw ", diff);
        if(a >= 0 && b <= d)
            PBT_CHECK(raw(x * y) <= raw(x * z), "not monotone");
        if(X::sgn)
        {
            // (-a) * (-b) == a * b
            PBT_CHECK(raw((-x) * (-y)) == raw(x * y), "(-a) * (-b) is not a * b");
            i128 n = raw((-x) * y) + raw(x * y);
            PBT_CHECK(n == 0 || n == -1, "(-a) * b + a * b is raw ", n);
        }
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Mul, NO_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/mul", 20000, 1000000);
    sweep<Mul, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/mul", 20000, 1000000);
    return 0;
}();
#else
static int r0 = (pbt::labels({"factors of different sign", "inexact product", "product at an end of the range", "big", "product rounds to 0 or -1 ulp"}), pbt::rule("two generated factors; when the product is not representable the second one is replaced so that the product is at the end of the range or halved until it fits; non-trivial: no factor is zero"), 0);
static int r1 = each<Mul>(mains{}, "mul", 60000000, 1500000000);
static int r2 = each<Mul>(small_signed{}, "mul", 1500000, 40000000);
static int r3 = each<Mul>(other_signed{}, "mul", 3000000, 80000000);
static int r4 = each<Mul>(unsigneds{}, "mul", 3000000, 60000000);
static int r5 = each<Laws>(mains{}, "laws", 10000000, 300000000);
static int r6 = each<Laws>(types<fx<int16_t, 8>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int64_t, 48>, fx<uint32_t, 16>>{}, "laws", 2000000, 30000000);
typedef types<fx<int32_t, 31>, fx<int64_t, 63>, fx<int8_t, 7>> full_fraction;
static int r7 = each<Mul>(full_fraction{}, "mul", 1000000, 20000000);
static int r8 = (pbt::add_all("all-pairs/i8f4", 65536, &Pairs8<fx<int8_t, 4>>::run), pbt::add_all("all-pairs/u8f4", 65536, &Pairs8<fx<uint8_t, 4>>::run), pbt::add_all("all-pairs/i8f6", 65536, &Pairs8<fx<int8_t, 6>>::run), 0);

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
