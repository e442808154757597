// C09: conversions from and to integers and floating point numbers.
#include "gen.hpp"
using namespace g;

enum { L_INT, L_FLOAT, L_NEG, L_FRAC, L_EDGE, L_TO };

// integers
template <class F, class V>
struct Ints
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        constexpr i128 ilo = X::sgn ? -(static_cast<i128>(1) << X::ibits) : 0, ihi = (static_cast<i128>(1) << X::ibits) - 1;
        V v = gen_int<V>(s, ilo, ihi);
        i128 iv = static_cast<i128>(v);
        i128 a = gen_raw<F>(s);
        i128 fl = floor_div(a, pow2(X::f));
        c.in(iv), c.in(a);
        c.nontrivial = iv != 0 || a != 0;
        c.label(L_INT);
        c.label_if(L_NEG, iv < 0 || a < 0);
        c.label_if(L_FRAC, (a & (pow2(X::f) - 1)) != 0);
        PBT_DESC("integer ", iv, " and ", show(mk<F>(a)), " with floor ", fl);
        F x(v);
        PBT_CHECK(raw(x) == (iv << X::f), "constructed raw ", raw(x), ", expected ", iv << X::f);
        PBT_CHECK(static_cast<i128>(static_cast<V>(x)) == iv, "integer -> fixed -> integer gives ", static_cast<i128>(static_cast<V>(x)));
        if(fl >= static_cast<i128>(std::numeric_limits<V>::min()) && fl <= static_cast<i128>(std::numeric_limits<V>::max()))
            PBT_CHECK(static_cast<i128>(static_cast<V>(mk<F>(a))) == fl, "cast to integer gives ", static_cast<i128>(static_cast<V>(mk<F>(a))), ", expected ", fl);
    }
};

// floating point numbers
template <class F, class D>
struct Floats
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s);
        const F x = mk<F>(a);
        // to: the nearest floating point number (exact when the mantissa suffices)
        c.in(a);
        c.label_if(L_NEG, a < 0);
        c.nontrivial = a != 0;
        D d = static_cast<D>(x);
        ld exact = std::ldexp(static_cast<ld>(x.internal_value()), -static_cast<int>(X::f));
        D want = static_cast<D>(exact);
        PBT_DESC(show(x), " as floating point number of ", sizeof(D), " bytes");
        PBT_CHECK(d == want, "cast gives ", d, ", expected ", want);
        // and back
        ld sc = std::ldexp(static_cast<ld>(d), static_cast<int>(X::f));
        i128 back = static_cast<i128>(sc);
        if(!X::r && fits<F>(back) && std::fabs(sc) < 1e30L)
            PBT_CHECK(raw(F(d)) == back, "constructed from ", d, ": raw ", raw(F(d)), ", expected ", back);
        if(std::numeric_limits<D>::digits >= X::bits)
            PBT_CHECK(raw(F(d)) == a, "the round trip gives raw ", raw(F(d)));

        // from any floating point number inside of the range: truncated
        D e;
        switch(s.draw(4))
        {
        case 0: // raw value plus a part of an ulp
            e = static_cast<D>(std::ldexp(static_cast<ld>(gen_raw<F>(s)) + std::ldexp(static_cast<ld>(s.draw(1ull << 40)), -40), -static_cast<int>(X::f)));
            break;
        case 1: // random exponent and mantissa
            e = static_cast<D>(std::ldexp(static_cast<ld>(s.draw(0)), static_cast<int>(s.range(-140, X::ibits)) - 64));
            if(s.draw(2))
                e = -e;
            break;
        case 2: // neighbour of a representable number
            e = static_cast<D>(std::ldexp(static_cast<ld>(gen_raw<F>(s)), -static_cast<int>(X::f)));
            e = s.draw(2) ? std::nextafter(e, D(1e30)) : std::nextafter(e, D(-1e30));
            break;
        default:
            e = static_cast<D>(static_cast<ld>(static_cast<int64_t>(s.draw(2000))) / 1000.0L - 1.0L);
        }
        sc = std::ldexp(static_cast<ld>(e), static_cast<int>(X::f));
        ld t = std::trunc(sc);
        if(X::r || !(std::fabs(t) < 1e30L) || !fits<F>(static_cast<i128>(t)) || (!X::sgn && e < 0))
            return;
        i128 r = static_cast<i128>(t);
        c.label(L_FLOAT);
        c.label_if(L_FRAC, t != sc);
        PBT_DESC(show(x), " and ", e, " with truncated raw ", r);
        PBT_CHECK(raw(F(e)) == r, "constructed from ", e, ": raw ", raw(F(e)), ", expected ", r);
    }
};

template <class F>
struct IntsInt : Ints<F, int>
{};
template <class F>
struct IntsLong : Ints<F, long>
{};
template <class F>
struct FloatsFloat : Floats<F, float>
{};
template <class F>
struct FloatsDouble : Floats<F, double>
{};
template <class F>
struct FloatsLong : Floats<F, ld>
{};

#ifdef SWEEP
static int r0 = []
{
    sweep<IntsInt, BOTH, 1, 1, 64>(signed_storage{}, "sweep/int", 10000, 300000);
    sweep<IntsLong, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/long", 10000, 300000);
    sweep<FloatsFloat, BOTH, 0, 1, 64>(signed_storage{}, "sweep/float", 10000, 300000);
    sweep<FloatsDouble, BOTH, 0, 1, 64>(signed_storage{}, "sweep/double", 10000, 300000);
    sweep<FloatsLong, BOTH, 0, 1, 64>(signed_storage{}, "sweep/long-double", 10000, 300000);
    sweep<FloatsDouble, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/double", 10000, 300000);
    return 0;
}();
#else
template <class F>
void reg_other(uint64_t q, uint64_t t)
{
    auto n = traits<F>::name();
    pbt::add("char/" + n, q, t, &Ints<F, char>::run);
    pbt::add("bool/" + n, q, t, &Ints<F, bool>::run);
    pbt::add("wchar_t/" + n, q, t, &Ints<F, wchar_t>::run);
    pbt::add("char8_t/" + n, q, t, &Ints<F, char8_t>::run);
    pbt::add("char16_t/" + n, q, t, &Ints<F, char16_t>::run);
    pbt::add("char32_t/" + n, q, t, &Ints<F, char32_t>::run);
    pbt::add("ullong/" + n, q, t, &Ints<F, unsigned long long>::run);
}
template <class F>
void reg(uint64_t q, uint64_t t)
{
    auto n = traits<F>::name();
    if constexpr(traits<F>::ibits > 0)
    {
        pbt::add("int/" + n, q, t, &Ints<F, int>::run);
        pbt::add("unsigned/" + n, q / 2, t / 2, &Ints<F, unsigned>::run);
        pbt::add("long/" + n, q, t, &Ints<F, long>::run);
        pbt::add("ulong/" + n, q / 2, t / 2, &Ints<F, unsigned long>::run);
        pbt::add("short/" + n, q / 4, t / 4, &Ints<F, short>::run);
        pbt::add("ushort/" + n, q / 4, t / 4, &Ints<F, unsigned short>::run);
        pbt::add("schar/" + n, q / 4, t / 4, &Ints<F, signed char>::run);
        pbt::add("uchar/" + n, q / 4, t / 4, &Ints<F, unsigned char>::run);
        pbt::add("llong/" + n, q / 4, t / 4, &Ints<F, long long>::run);
    }
    pbt::add("float/" + n, q * 2, t * 2, &Floats<F, float>::run);
    pbt::add("double/" + n, q * 2, t * 2, &Floats<F, double>::run);
    pbt::add("long-double/" + n, q, t, &Floats<F, ld>::run);
}
static int r0 = []
{
    pbt::labels({"integers", "from a floating point number", "negative", "not representable, truncated or floored"});
    pbt::rule("a representable integer of sixteen types and a number cast to it; or a number cast to a floating point type and back, and a floating point number (a raw value plus a part of an ulp, any exponent, a neighbour of a representable number, or a small decimal); non-trivial: not zero");
    reg<f32>(2500000, 60000000);
    reg<f64>(2500000, 60000000);
    reg_other<f32>(300000, 6000000);
    reg_other<f64>(300000, 6000000);
    reg_other<fx<int64_t, 8>>(100000, 2000000);
    reg<fx<int8_t, 4>>(200000, 2000000);
    reg<fx<int16_t, 8>>(300000, 6000000);
    reg<fx<int32_t, 1>>(300000, 6000000);
    reg<fx<int32_t, 24>>(400000, 6000000);
    reg<fx<int32_t, 31>>(400000, 6000000);
    reg<fx<int64_t, 16>>(400000, 6000000);
    reg<fx<int64_t, 48>>(400000, 6000000);
    reg<fx<int64_t, 62>>(400000, 6000000);
    reg<fx<uint32_t, 16>>(400000, 6000000);
    reg<fx<uint64_t, 32>>(400000, 6000000);
    reg<fx<int32_t, 16, true>>(300000, 4000000);
    reg<fx<int64_t, 32, true>>(300000, 4000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
