// C18: square root and hypotenuse, decided by exact integer inequalities.
#include "ref.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_TINY, L_BIG, L_SQUARE, L_NEXT };

inline q128 q(i128 v) { return static_cast<q128>(v); }

template <class F>
struct Sqrt
{
    typedef traits<F> X;
    // |r^2 - S| <= 5/65536 + (c1 r + c0) ulp, where S = s / 2^(2f)
    static void bound(Case& c, const char* what, i128 r, i128 s, int c0)
    {
        PBT_CHECK(r >= 0, what, " is negative, raw ", r);
        i128 d = r * r - s;
        if(d < 0)
            d = -d;
        q128 allowed = ldexpq(5, 2 * static_cast<int>(X::f) - 16) + q(2 * r) + ldexpq(c0, X::f);
        PBT_CHECK(c.within(dbl(q(d)), dbl(allowed)), what, " is raw ", r, ", the error of its square is ", dbl(ldexpq(q(d), -2 * static_cast<int>(X::f))), ", allowed ", dbl(ldexpq(allowed, -2 * static_cast<int>(X::f))));
    }
    static void check(Case& c, i128 a)
    {
        c.in(a);
        c.nontrivial = a > 0;
        c.label_if(L_TINY, a < 70);
        c.label_if(L_BIG, a > X::max / 4);
        const F x = mk<F>(a);
        PBT_DESC("sqrt ", show(x));
        i128 r = raw(sqrt(x));
        i128 s = a << X::f;
        if constexpr(std::is_same_v<F, f32> || std::is_same_v<F, fx<int32_t, 16, true>>)
        {
            PBT_CHECK(r >= 0 && r * r <= s && (r + 1) * (r + 1) > s, "sqrt is raw ", r, ", not the greatest number whose square is not greater than x");
            c.label_if(L_SQUARE, r * r == s);
        }
        else
            bound(c, "sqrt", r, s, 3);
        if(a == 0)
            PBT_CHECK(r == 0, "sqrt(0) is raw ", r);
        PBT_CHECK(raw(x) == a, "the operand changed");
    }
    static void run(Src& s, Case& c)
    {
        i128 a;
        if(s.draw(3) == 0)
        {
            // next to a square
            i128 lim = static_cast<i128>(std::sqrt(static_cast<double>(X::max >> X::f)));
            i128 rt = gen_raw<F>(s, 0, std::min(X::max, (lim << X::f) + (pow2(X::f) - 1)));
            i128 sq = (rt * rt) >> X::f;
            a = fold(s, sq + static_cast<i128>(s.draw(5)) - 2, 0, X::max);
            c.label(L_NEXT);
        }
        else
            a = gen_raw<F>(s, 0, X::max);
        check(c, a);
    }
    static void all32(Src& s, Case& c) { check(c, static_cast<i128>(s.index(1ull << 31))); }
};

template <class F>
struct Hypot
{
    typedef traits<F> X;
    static void run(Src& s, Case& c)
    {
        // the sum of the squares, as computed and exactly, has to be representable
        ld lim = std::sqrt(static_cast<ld>(X::max) * std::ldexp(static_cast<ld>(1), static_cast<int>(X::f)));
        i128 m = std::min(X::max, static_cast<i128>(lim));
        i128 cap = X::max << X::f;
        bool three = s.draw(2);
        i128 a[3];
        i128 left = cap - 8 * pow2(X::f), sum = 0;
        if(left < 0)
            left = 0;
        for(int i = 0; i < 2 + three; ++i)
        {
            i128 mm = static_cast<i128>(std::sqrt(static_cast<ld>(left)));
            while(mm * mm > left)
                --mm;
            mm = std::min(mm, m);
            a[i] = gen_raw<F>(s, X::sgn ? -mm : 0, mm);
            sum += a[i] * a[i];
            left = cap - 8 * pow2(X::f) - sum;
        }
        c.in(a[0]);
        c.in(a[1]);
        if(three)
            c.in(a[2]);
        c.nontrivial = a[0] != 0 && a[1] != 0;
        c.label_if(L_BIG, sum > cap / 4);
        const F x = mk<F>(a[0]), y = mk<F>(a[1]);
        PBT_DESC("hypot ", show(x), " ", show(y), three ? " raw " + pbt::to_s(a[2]) : std::string());
        i128 r = three ? raw(hypot(x, y, mk<F>(a[2]))) : raw(hypot(x, y));
        Sqrt<F>::bound(c, "hypot", r, sum, 6);
        if(!X::sgn)
        {
            i128 r3 = three ? raw(hypot(mk<F>(a[2]), x, y)) : raw(hypot(y, x));
            PBT_CHECK(r3 == r, "hypot depends on the order of its arguments: raw ", r, " and ", r3);
            return;
        }
        i128 r2 = three ? raw(hypot(-x, y, mk<F>(-a[2]))) : raw(hypot(x, -y));
        Sqrt<F>::bound(c, "hypot with opposite signs", r2, sum, 6);
        i128 r3 = three ? raw(hypot(mk<F>(a[2]), x, y)) : raw(hypot(y, x));
        PBT_CHECK(r3 == r, "hypot depends on the order of its arguments: raw ", r, " and ", r3);
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Sqrt, BOTH, 1, 1, 64>(signed_storage{}, "sweep/sqrt", 20000, 500000);
    sweep<Hypot, BOTH, 1, 1, 64>(signed_storage{}, "sweep/hypot", 10000, 300000);
    sweep<Sqrt, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/sqrt", 20000, 500000);
    sweep<Hypot, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/hypot", 10000, 300000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"less than 70 ulp", "upper three quarters of the range", "exact square", "next to a square"});
    pbt::rule("a non-negative number, or two or three numbers with a representable sum of squares; non-trivial: the number is not zero, respectively at least two are not zero");
    each<Sqrt>(types<f32, f64>{}, "sqrt", 10000000, 400000000);
    each<Sqrt>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 20>, fx<int32_t, 24>, fx<int64_t, 8>, fx<int64_t, 16>, fx<int64_t, 24>, fx<int64_t, 40>, fx<int64_t, 48>>{}, "sqrt", 500000, 20000000);
    each<Hypot>(types<f32, f64>{}, "hypot", 3000000, 100000000);
    each<Hypot>(types<fx<int32_t, 8>, fx<int32_t, 12>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 48>>{}, "hypot", 300000, 10000000);
    pbt::add_all_thorough("all/i32f16", 40000000, 1ull << 31, &Sqrt<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
