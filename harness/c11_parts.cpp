// C11: floor, ceil, trunc, round, abs, modf and the parts of a number.
#include "gen.hpp"
#include <eirin/math.hpp>
using namespace g;

enum { L_NEG, L_INTEGER, L_HALF, L_EDGE, L_SATURATE };

template <class F>
struct Parts
{
    typedef traits<F> X;
    static void check(Case& c, i128 a)
    {
        constexpr i128 one = static_cast<i128>(1) << X::f;
        i128 fl = floor_div(a, one) * one;
        i128 tr = a / one * one;
        i128 ce = -floor_div(-a, one) * one;
        i128 ro = round_div(a, one) * one;
        c.in(a);
        c.nontrivial = a % one != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_INTEGER, a % one == 0);
        c.label_if(L_HALF, a - fl == one / 2);
        c.label_if(L_EDGE, a > X::max - 2 * one || a < X::min + 2 * one);
        c.label_if(L_SATURATE, ce > X::max);
        const F x = mk<F>(a);
        PBT_DESC(show(x));
        PBT_CHECK(raw(floor(x)) == fl, "floor is raw ", raw(floor(x)), ", expected ", fl);
        PBT_CHECK(raw(ceil(x)) == std::min(ce, X::max), "ceil is raw ", raw(ceil(x)), ", expected ", std::min(ce, X::max));
        PBT_CHECK(raw(trunc(x)) == tr, "trunc is raw ", raw(trunc(x)), ", expected ", tr);
        if(fits<F>(ro))
            PBT_CHECK(raw(round(x)) == ro, "round is raw ", raw(round(x)), ", expected ", ro);
        i128 ab = a < 0 ? -a : a;
        if(fits<F>(ab))
            PBT_CHECK(raw(abs(x)) == ab, "abs is raw ", raw(abs(x)), ", expected ", ab);
        F ip = mk<F>(123 % X::max);
        F fr = modf(x, ip);
        PBT_CHECK(raw(ip) == fl && raw(fr) == a - fl, "modf gives raw ", raw(ip), " and ", raw(fr), ", expected ", fl, " and ", a - fl);
        // the target of modf may be the number itself
        F y = x;
        F fr2 = modf(y, y);
        PBT_CHECK(raw(y) == fl && raw(fr2) == a - fl, "modf(x, x) gives raw ", raw(y), " and ", raw(fr2));
        i128 ipart = static_cast<i128>(x.integral_part()), fpart = static_cast<i128>(x.fractional_part());
        PBT_CHECK(ipart == ab / one, "integral_part is ", ipart, ", expected ", ab / one);
        PBT_CHECK(fpart == a % one, "fractional_part is ", fpart, ", expected ", a % one);
        if(X::sgn && a >= 0)
            PBT_CHECK(static_cast<i128>(x.raw_integral_part()) == a / one, "raw_integral_part of a non-negative number is ", static_cast<i128>(x.raw_integral_part()));
        // idempotence
        PBT_CHECK(raw(floor(floor(x))) == fl && raw(trunc(trunc(x))) == tr, "not idempotent");
        PBT_CHECK(raw(x) == a, "the operand changed");
    }
    static void run(Src& s, Case& c) { check(c, gen_raw<F>(s)); }
    static void all16(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(65536))); }
    static void all8(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(256))); }
    static void all32(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(1ull << 32))); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Parts, BOTH, 1, 1, 64>(signed_storage{}, "sweep/parts", 20000, 1000000);
    sweep<Parts, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/parts", 20000, 1000000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "integer", "exact half", "within two of an end of the range", "ceil saturates"});
    pbt::rule("a generated or enumerated number; non-trivial: it has a fractional part");
    each<Parts>(mains{}, "parts", 20000000, 500000000);
    each<Parts>(types<fx<int32_t, 1>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int32_t, 30>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>>{}, "parts", 2000000, 40000000);
    each<Parts>(types<fx<uint16_t, 8>, fx<uint32_t, 16>, fx<uint64_t, 32>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "parts", 2000000, 40000000);
    pbt::add_all("all/i8f4", 256, &Parts<fx<int8_t, 4>>::all8);
    pbt::add_all("all/i8f1", 256, &Parts<fx<int8_t, 1>>::all8);
    pbt::add_all("all/i8f6", 256, &Parts<fx<int8_t, 6>>::all8);
    pbt::add_all("all/i16f8", 65536, &Parts<fx<int16_t, 8>>::all16);
    pbt::add_all("all/i16f14", 65536, &Parts<fx<int16_t, 14>>::all16);
    pbt::add_all("all/u16f8", 65536, &Parts<fx<uint16_t, 8>>::all16);
    pbt::add_all_thorough("all/i32f16", 60000000, 1ull << 32, &Parts<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
