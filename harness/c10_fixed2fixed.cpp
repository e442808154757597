// C10: conversions between fixed point types.
#include "gen.hpp"
using namespace g;

enum { L_WIDER, L_NARROWER, L_NEG, L_LOSSY, L_EDGE };

template <class A, class B>
struct Conv
{
    typedef traits<A> XA;
    typedef traits<B> XB;
    static constexpr int d = static_cast<int>(XB::f) - static_cast<int>(XA::f);

    static bool representable(i128 a)
    {
        if constexpr(d >= 0)
        {
            i128 lo = floor_div(XB::min + (pow2(d) - 1), pow2(d)), hi = floor_div(XB::max, pow2(d));
            return a >= lo && a <= hi;
        }
        else
            return fits<B>(a / pow2(-d));
    }

    static void run(Src& s, Case& c)
    {
        i128 a;
        if(s.draw(2))
            a = gen_raw<A>(s);
        else
        {
            // the image of a number of the target, with some of the bits that get lost
            i128 b = gen_raw<B>(s);
            if constexpr(d >= 0)
                a = floor_div(b, pow2(d));
            else
                a = b > (static_cast<i128>(1) << 100 >> -d) ? 0 : b * pow2(-d) + static_cast<i128>(s.draw(static_cast<uint64_t>(pow2(-d)))) * (b < 0 ? -1 : 1);
            a = std::min(std::max(a, XA::min), XA::max);
        }
        if(!XB::sgn && a < 0)
            a = a == XA::min ? XA::max : -a;
        while(!representable(a))
            a /= 2;
        i128 r;
        if constexpr(d >= 0)
            r = a * pow2(d);
        else
            r = a / pow2(-d);
        c.in(a);
        c.nontrivial = a != 0;
        c.label(d >= 0 ? L_WIDER : L_NARROWER);
        c.label_if(L_NEG, a < 0);
        if constexpr(d < 0)
            c.label_if(L_LOSSY, a % pow2(-d) != 0);
        c.label_if(L_EDGE, r > XB::max - XB::max / 64 - 2 || r < XB::min - XB::min / 64 + 2);
        A x = mk<A>(a);
        PBT_DESC(show(x), " to ", XB::name(), " = raw ", r);
        B y(x);
        PBT_CHECK(raw(y) == r, "converted to raw ", raw(y), ", expected ", r);
        B z = B::template from_fixed_num_value<XA::f>(x.internal_value());
        PBT_CHECK(raw(z) == r, "from_fixed_num_value gives raw ", raw(z), ", expected ", r);
        PBT_CHECK(raw(x) == a, "the source changed");
        // numbers which lost no bits come back
        if constexpr(d >= 0)
        {
            A w(y);
            PBT_CHECK(raw(w) == a, "the round trip gives raw ", raw(w));
        }
        // raw access is the identity
        PBT_CHECK(raw(A::from_internal_value(x.internal_value())) == a, "from_internal_value(internal_value()) is another number");
    }
};

typedef types<fx<int8_t, 4>, fx<int16_t, 8>, fx<int32_t, 1>, fx<int32_t, 8>, f32, fx<int32_t, 24>, fx<int32_t, 30>, fx<int64_t, 16>, f64, fx<int64_t, 33>, fx<int64_t, 48>, fx<int64_t, 62>, fx<uint32_t, 16>, fx<uint64_t, 32>, fx<uint16_t, 15>> pool;

template <class A, class... B>
void row(types<B...>, uint64_t q, uint64_t t)
{
    (pbt::add(traits<A>::name() + "-" + traits<B>::name(), q, t, &Conv<A, B>::run), ...);
}
template <class... A>
void table(types<A...>)
{
    (row<A>(pool{}, 300000, 6000000), ...);
}
template <class F>
struct To32 : Conv<F, f32>
{};
template <class F>
struct From32 : Conv<f32, F>
{};
template <class F>
struct To64 : Conv<F, f64>
{};
template <class F>
struct From64 : Conv<f64, F>
{};

#ifdef SWEEP
static int r0 = []
{
    sweep<To32, BOTH, 1, 1, 64>(signed_storage{}, "sweep/to-32", 5000, 200000);
    sweep<To32, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/to-32", 5000, 200000);
    sweep<From32, NO_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/from-32", 5000, 200000);
    sweep<From32, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/from-32", 5000, 200000);
    sweep<To64, BOTH, 1, 1, 64>(signed_storage{}, "sweep/to-64", 5000, 200000);
    sweep<To64, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/to-64", 5000, 200000);
    sweep<From64, NO_ROUNDING, 1, 1, 64>(signed_storage{}, "sweep/from-64", 5000, 200000);
    sweep<From64, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/from-64", 5000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"to at least as many fraction bits", "to fewer fraction bits", "negative", "loses bits", "at an end of the range"});
    pbt::rule("a number of the source type whose value is inside of the range of the target type, generated in the source or as the image of a number of the target plus bits that get lost; non-trivial: not zero");
    pbt::add("main/i32f16-i64f32", 15000000, 400000000, &Conv<f32, f64>::run);
    pbt::add("main/i64f32-i32f16", 15000000, 400000000, &Conv<f64, f32>::run);
    pbt::add("rounding/i32f16-i32f16r", 1000000, 20000000, &Conv<f32, fx<int32_t, 16, true>>::run);
    pbt::add("rounding/i32f16r-i32f16", 1000000, 20000000, &Conv<fx<int32_t, 16, true>, f32>::run);
    pbt::add("rounding/i64f32r-i32f16", 1000000, 20000000, &Conv<fx<int64_t, 32, true>, f32>::run);
    pbt::add("rounding/i32f16r-i64f32r", 1000000, 20000000, &Conv<fx<int32_t, 16, true>, fx<int64_t, 32, true>>::run);
    table(pool{});
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
