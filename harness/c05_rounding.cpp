// C05: types with rounding enabled give the nearest representable result, halves away from zero.
#include "gen.hpp"
using namespace g;

enum { L_TIE, L_NEG, L_MUL, L_DIV, L_FLOAT, L_NARROW, L_NEXTTIE };

template <class F>
struct Mul
{
    typedef traits<F> X;
    static i128 oracle(i128 a, i128 b)
    {
        if constexpr(!X::sgn)
        {
            u128 p = static_cast<u128>(a) * static_cast<u128>(b);
            u128 r = (p >> X::f) + ((p >> (X::f - 1)) & 1);
            return r > static_cast<u128>(X::max) ? X::max + 1 : static_cast<i128>(r);
        }
        return round_div(a * b, pow2(X::f));
    }
    static void run(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s), b = gen_raw<F>(s);
        if(s.draw(3) == 0)
        {
            // a tie: a and b have together exactly f - 1 trailing zeros; then maybe one ulp of a beside it
            unsigned k = static_cast<unsigned>(s.draw(X::f));
            a = (static_cast<i128>(s.draw(1ull << 12)) * 2 + 1) << k;
            b = (static_cast<i128>(s.draw(1ull << 12)) * 2 + 1) << (X::f - 1 - k);
            if(X::sgn && s.draw(2))
                a = -a;
            if(X::sgn && s.draw(2))
                b = -b;
            a += static_cast<i128>(s.draw(3)) - 1;
            a = std::min(std::max(a, X::min), X::max);
            b = std::min(std::max(b, X::min), X::max);
        }
        while(!fits<F>(oracle(a, b)))
            b /= 2;
        i128 r = oracle(a, b);
        c.in(a), c.in(b);
        c.label(L_MUL);
        u128 low = (static_cast<u128>(a) * static_cast<u128>(b)) & static_cast<u128>(pow2(X::f) - 1);
        c.label_if(L_TIE, low == static_cast<u128>(pow2(X::f - 1)));
        c.label_if(L_NEXTTIE, low == static_cast<u128>(pow2(X::f - 1)) - 1 || low == static_cast<u128>(pow2(X::f - 1)) + 1);
        c.label_if(L_NEG, (a < 0) != (b < 0));
        c.nontrivial = low != 0;
        F x = mk<F>(a), y = mk<F>(b), z = x;
        PBT_DESC(show(x), " * ", show(y), " = raw ", r);
        PBT_CHECK(raw(x * y) == r, "a * b is raw ", raw(x * y), ", expected ", r);
        PBT_CHECK(raw(y * x) == r, "b * a is raw ", raw(y * x), ", expected ", r);
        F& ref = (z *= y);
        PBT_CHECK(&ref == &z && raw(z) == r, "a *= b is raw ", raw(z), ", expected ", r);
        if(fits<F>(oracle(a, a)))
        {
            z = x;
            z *= z;
            PBT_CHECK(raw(z) == oracle(a, a), "a *= a is raw ", raw(z), ", expected ", oracle(a, a));
        }
    }
};

template <class F>
struct Div
{
    typedef traits<F> X;
    static i128 oracle(i128 a, i128 b) { return round_div(a << X::f, b); }
    static void run(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s), b = gen_raw<F>(s);
        if(b == 0)
            b = 1 + static_cast<i128>(s.draw(4));
        if(s.draw(3) == 0)
        {
            // a quotient next to a tie: a ~ (2q + 1) / 2 * b / 2^f
            i128 q = gen_raw<F>(s);
            b = X::sgn && s.draw(2) ? -pow2(static_cast<unsigned>(s.draw(static_cast<uint64_t>(X::bits - 1)))) : pow2(static_cast<unsigned>(s.draw(static_cast<uint64_t>(X::bits - 1))));
            i128 k = b * (static_cast<i128>(s.draw(15)) + 1);
            if(fits<F>(k))
                b = k;
            i128 h = ((q % pow2(40)) * 2 + 1);
            i128 t = floor_div(h * b, pow2(X::f + 1));
            a = t + static_cast<i128>(s.draw(2));
            a = std::min(std::max(a, X::min), X::max);
        }
        while(!fits<F>(oracle(a, b)))
            a /= 2;
        i128 r = oracle(a, b), m = (a << X::f) % b;
        c.in(a), c.in(b);
        c.label(L_DIV);
        c.label_if(L_TIE, m != 0 && (m < 0 ? -m : m) * 2 == (b < 0 ? -b : b));
        c.label_if(L_NEG, (a < 0) != (b < 0));
        c.nontrivial = m != 0;
        F x = mk<F>(a), y = mk<F>(b), z = x;
        PBT_DESC(show(x), " / ", show(y), " = raw ", r);
        PBT_CHECK(raw(x / y) == r, "a / b is raw ", raw(x / y), ", expected ", r);
        F& ref = (z /= y);
        PBT_CHECK(&ref == &z && raw(z) == r, "a /= b is raw ", raw(z), ", expected ", r);
        PBT_CHECK(raw(x.divide(y)) == r, "a.divide(b) is raw ", raw(x.divide(y)), ", expected ", r);
        z = x;
        z.divide_by(y);
        PBT_CHECK(raw(z) == r, "a.divide_by(b) is raw ", raw(z), ", expected ", r);
        i128 e = a % b;
        PBT_CHECK(raw(x % y) == e, "a % b is raw ", raw(x % y), ", expected ", e);
    }
};

// construction from floating point numbers
template <class F, class D>
struct FromFloat
{
    typedef traits<F> X;
    static void run(Src& s, Case& c)
    {
        // a raw value plus a fraction of an ulp
        i128 a = gen_raw<F>(s, X::min + 1, X::max - 1);
        ld part;
        switch(s.draw(5))
        {
        case 0:
            part = 0.5L;
            break;
        case 1:
            part = 0;
            break;
        case 2:
            part = 0.5L - std::ldexp(1.0L, -static_cast<int>(s.draw(60)) - 2);
            break;
        case 3:
            part = 0.5L + std::ldexp(1.0L, -static_cast<int>(s.draw(60)) - 2);
            break;
        default:
            part = std::ldexp(static_cast<ld>(s.draw(1ull << 40)), -40);
        }
        D d = static_cast<D>(std::ldexp(static_cast<ld>(a) + part, -static_cast<int>(X::f)));
        // the oracle works on the exact value of d
        ld sc = std::ldexp(static_cast<ld>(d), static_cast<int>(X::f)); // exact
        ld t = std::trunc(sc), rest = sc - t; // exact
        i128 r = static_cast<i128>(t) + (rest >= 0.5L ? 1 : 0) - (rest <= -0.5L ? 1 : 0);
        if(!fits<F>(r))
        {
            c.discarded = true;
            return;
        }
        c.in(a), c.in(static_cast<uint64_t>(part * 1e15L));
        c.label(L_FLOAT);
        c.label_if(L_TIE, rest == 0.5L || rest == -0.5L);
        c.label_if(L_NEG, d < 0);
        c.nontrivial = rest != 0;
        PBT_DESC(X::name(), " from ", d, " = raw ", r);
        F x(d);
        PBT_CHECK(raw(x) == r, "constructed raw ", raw(x), ", expected ", r);
    }
};

// conversion from a type with more fraction bits
template <class F, class G>
struct Narrow
{
    typedef traits<F> X;
    static void run(Src& s, Case& c)
    {
        constexpr unsigned d = traits<G>::f - X::f;
        i128 a = gen_raw<G>(s);
        if(s.draw(3) == 0)
        {
            a = floor_div(a, pow2(d)) * pow2(d) + pow2(d - 1) + static_cast<i128>(s.draw(3)) - 1;
            a = std::min(std::max(a, traits<G>::min), traits<G>::max);
        }
        while(!fits<F>(round_div(a, pow2(d))))
            a /= 2;
        i128 r = round_div(a, pow2(d));
        i128 m = a & (pow2(d) - 1);
        c.in(a);
        c.label(L_NARROW);
        c.label_if(L_TIE, m == pow2(d - 1));
        c.label_if(L_NEG, a < 0);
        c.nontrivial = m != 0;
        G x = mk<G>(a);
        PBT_DESC(show(x), " to ", X::name(), " = raw ", r);
        PBT_CHECK(raw(F(x)) == r, "converted to raw ", raw(F(x)), ", expected ", r);
        F y = F::template from_fixed_num_value<traits<G>::f>(x.internal_value());
        PBT_CHECK(raw(y) == r, "from_fixed_num_value is raw ", raw(y), ", expected ", r);
    }
};

// every target, from one, a third of the possible and all possible additional fraction bits
template <class F>
struct NarrowTo
{
    static void run(Src& s, Case& c)
    {
        typedef typename traits<F>::T T;
        typedef std::conditional_t<traits<F>::sgn, int64_t, uint64_t> W;
        constexpr unsigned f = traits<F>::f, top = traits<F>::sgn ? 62 : 63, wide = sizeof(T) == 8 ? 64 : sizeof(T) * 8 - traits<F>::sgn - 1;
        switch(s.draw(4))
        {
        case 0:
            return Narrow<F, fx<W, f + 1>>::run(s, c);
        case 1:
            return Narrow<F, fx<W, f + 1 + (top - f - 1) / 3>>::run(s, c);
        case 2:
            if constexpr(f < wide && wide < 64)
                return Narrow<F, fx<T, wide>>::run(s, c);
            [[fallthrough]];
        default:
            return Narrow<F, fx<W, top>>::run(s, c);
        }
    }
};
template <class F>
struct FromFloats
{
    static void run(Src& s, Case& c)
    {
        switch(s.draw(3))
        {
        case 0:
            return FromFloat<F, float>::run(s, c);
        case 1:
            return FromFloat<F, double>::run(s, c);
        default:
            return FromFloat<F, ld>::run(s, c);
        }
    }
};

typedef fx<int32_t, 16, true> R32;
typedef fx<int64_t, 32, true> R64;
typedef types<fx<int32_t, 16, true>, fx<int64_t, 32, true>> rmains;
typedef types<fx<int8_t, 4, true>, fx<int16_t, 8, true>, fx<int32_t, 1, true>, fx<int32_t, 8, true>, fx<int32_t, 24, true>, fx<int32_t, 30, true>, fx<int64_t, 16, true>, fx<int64_t, 48, true>, fx<int64_t, 61, true>> rothers;
typedef types<fx<uint32_t, 16, true>, fx<uint16_t, 8, true>, fx<uint64_t, 32, true>> runs;
#ifdef SWEEP
static int r0 = []
{
    sweep<Mul, ONLY_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/mul", 20000, 1000000);
    sweep<Div, ONLY_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/div", 20000, 1000000);
    sweep<NarrowTo, ONLY_ROUNDING, 1, 1, 61>(signed_storage{}, "sweep/narrow", 20000, 1000000);
    sweep<NarrowTo, ONLY_ROUNDING, 1, 1, 61>(unsigned_storage{}, "sweep/narrow", 20000, 1000000);
    sweep<FromFloats, ONLY_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/float", 20000, 1000000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"exact tie", "negative result", "product", "quotient", "construction from a floating point number", "conversion from more fraction bits", "one unit beside a tie"});
    pbt::rule("operands generated freely or so that the exact result is on or one unit beside a tie; non-trivial: the exact result is not representable, so that rounding happens");
    each<Mul>(rmains{}, "mul", 30000000, 600000000);
    each<Mul>(rothers{}, "mul", 2000000, 50000000);
    each<Mul>(runs{}, "mul", 2000000, 50000000);
    each<Div>(rmains{}, "div", 20000000, 400000000);
    each<Div>(rothers{}, "div", 2000000, 50000000);
    each<Div>(types<fx<uint32_t, 16, true>, fx<uint16_t, 8, true>>{}, "div", 2000000, 50000000);
    pbt::add("float/i32f16r", 4000000, 80000000, &FromFloat<R32, float>::run);
    pbt::add("double/i32f16r", 4000000, 80000000, &FromFloat<R32, double>::run);
    pbt::add("long-double/i32f16r", 2000000, 40000000, &FromFloat<R32, ld>::run);
    pbt::add("float/i64f32r", 4000000, 80000000, &FromFloat<R64, float>::run);
    pbt::add("double/i64f32r", 4000000, 80000000, &FromFloat<R64, double>::run);
    pbt::add("double/i16f8r", 2000000, 40000000, &FromFloat<fx<int16_t, 8, true>, double>::run);
    pbt::add("double/i64f48r", 2000000, 40000000, &FromFloat<fx<int64_t, 48, true>, double>::run);
    pbt::add("double/u32f16r", 2000000, 40000000, &FromFloat<fx<uint32_t, 16, true>, double>::run);
    pbt::add("narrow/i64f32-i32f16r", 6000000, 100000000, &Narrow<R32, f64>::run);
    pbt::add("narrow/i64f32r-i32f16r", 2000000, 100000000, &Narrow<R32, R64>::run);
    pbt::add("narrow/i64f48-i64f32r", 4000000, 100000000, &Narrow<R64, fx<int64_t, 48>>::run);
    pbt::add("narrow/i32f16-i16f8r", 2000000, 100000000, &Narrow<fx<int16_t, 8, true>, f32>::run);
    pbt::add("narrow/i64f33-i64f32r", 2000000, 50000000, &Narrow<R64, fx<int64_t, 33>>::run);
    pbt::add("narrow/u32f31-u32f16r", 2000000, 50000000, &Narrow<fx<uint32_t, 16, true>, fx<uint32_t, 31>>::run);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
