// C04: arithmetic between a fixed point number and an integer of any type.
#include "gen.hpp"
using namespace g;

enum { L_ADD, L_MUL, L_DIV, L_REM, L_RDIV, L_NEG, L_WIDE, L_UNS };

template <class F, class V>
struct Mixed
{
    typedef traits<F> X;
    static constexpr i128 ilo = X::sgn ? -(static_cast<i128>(1) << X::ibits) : 0; // representable integers
    static constexpr i128 ihi = (static_cast<i128>(1) << X::ibits) - 1;

    static void run(Src& s, Case& c)
    {
        constexpr i128 vmin = std::numeric_limits<V>::min(), vmax = std::numeric_limits<V>::max();
        uint64_t op = s.draw(5);
        i128 a = gen_raw<F>(s);
        // for products and quotients any integer will do, otherwise a representable one
        i128 lo = X::sgn ? vmin : 0, hi = vmax;
        if(op == 0 || op == 3 || op == 4)
            lo = std::max(lo, ilo), hi = std::min(hi, ihi);
        V v = gen_int<V>(s, lo, hi);
        i128 iv = static_cast<i128>(v);
        if(s.draw(4) == 0)
        {
            // a sum next to zero or an end of the range, or a number next to a multiple of the integer
            const i128 d = static_cast<i128>(s.draw(11)) - 5, end = s.draw(3) == 0 ? X::max : s.draw(2) ? X::min : 0;
            i128 w = iv;
            if(op == 3 || op == 4)
                w = iv << X::f;
            const i128 k = w == 0 ? 0 : gen_raw<F>(s) / w, v2 = op == 0 ? end - (iv << X::f) * (s.draw(2) ? 1 : -1) + d : k * w + d;
            if(fits<F>(v2))
                a = v2;
        }
        F x = mk<F>(a), z = x;
        c.in(op), c.in(a), c.in(iv);
        c.label_if(L_NEG, a < 0 || iv < 0);
        c.label_if(L_WIDE, sizeof(V) > sizeof(typename F::value_type));
        c.label_if(L_UNS, std::is_unsigned_v<V> && a < 0);
        c.nontrivial = a != 0 && iv != 0 && iv != 1;
        switch(op)
        {
        case 0:
            {
                c.label(L_ADD);
                i128 r = a + (iv << X::f), d = a - (iv << X::f), e = (iv << X::f) - a;
                PBT_DESC(show(x), " +- (", sizeof(V), std::is_signed_v<V> ? " bytes, signed) " : " bytes, unsigned) ", iv);
                if(fits<F>(r))
                {
                    PBT_CHECK(raw(x + v) == r, "a + n is raw ", raw(x + v), ", expected ", r);
                    PBT_CHECK(raw(v + x) == r, "n + a is raw ", raw(v + x), ", expected ", r);
                    F& ref = (z += v);
                    PBT_CHECK(&ref == &z && raw(z) == r, "a += n is raw ", raw(z), ", expected ", r);
                }
                if(fits<F>(d))
                {
                    PBT_CHECK(raw(x - v) == d, "a - n is raw ", raw(x - v), ", expected ", d);
                    z = x;
                    F& ref = (z -= v);
                    PBT_CHECK(&ref == &z && raw(z) == d, "a -= n is raw ", raw(z), ", expected ", d);
                }
                if(fits<F>(e))
                    PBT_CHECK(raw(v - x) == e, "n - a is raw ", raw(v - x), ", expected ", e);
                break;
            }
        case 1:
            {
                c.label(L_MUL);
                if(iv != 0 && s.draw(2))
                {
                    // aim at the representable products
                    i128 q = X::max / (iv < 0 ? -iv : iv) + 1;
                    a = q ? a % q : 0;
                    x = mk<F>(a);
                    z = x;
                    c.in(a);
                }
                i128 r;
                PBT_DESC(show(x), " * ", iv);
                if(__builtin_mul_overflow(a, iv, &r) || !fits<F>(r))
                {
                    c.nontrivial = false;
                    return;
                }
                PBT_CHECK(raw(x * v) == r, "a * n is raw ", raw(x * v), ", expected ", r);
                PBT_CHECK(raw(v * x) == r, "n * a is raw ", raw(v * x), ", expected ", r);
                F& ref = (z *= v);
                PBT_CHECK(&ref == &z && raw(z) == r, "a *= n is raw ", raw(z), ", expected ", r);
                break;
            }
        case 2:
            {
                c.label(L_DIV);
                if(iv == 0)
                {
                    v = static_cast<V>(1);
                    iv = 1;
                }
                if constexpr(!X::r)
                {
                    i128 q = a / iv;
                    PBT_DESC(show(x), " / ", iv, " = raw ", q);
                    if(!fits<F>(q))
                        return;
                    PBT_CHECK(raw(x / v) == q, "a / n is raw ", raw(x / v), ", expected ", q);
                    F& ref = (z /= v);
                    PBT_CHECK(&ref == &z && raw(z) == q, "a /= n is raw ", raw(z), ", expected ", q);
                }
                break;
            }
        case 3:
            {
                c.label(L_REM);
                if(iv != 0)
                {
                    i128 m = a % (iv << X::f);
                    PBT_DESC(show(x), " % ", iv, " = raw ", m);
                    PBT_CHECK(raw(x % v) == m, "a % n is raw ", raw(x % v), ", expected ", m);
                    F& ref = (z %= v);
                    PBT_CHECK(&ref == &z && raw(z) == m, "a %= n is raw ", raw(z), ", expected ", m);
                }
                if(a != 0)
                {
                    i128 m = (iv << X::f) % a;
                    PBT_CHECK(raw(v % x) == m, "n % a is raw ", raw(v % x), ", expected ", m);
                }
                break;
            }
        default:
            {
                c.label(L_RDIV);
                PBT_DESC(iv, " / ", show(x));
                if(a == 0)
                    return;
                if(true)
                {
                    i128 n = iv << X::f;
                    i128 q = X::r ? round_div(n << X::f, a) : (n << X::f) / a;
                    if(!fits<F>(q))
                        return;
                    PBT_CHECK(raw(v / x) == q, "n / a is raw ", raw(v / x), ", expected ", q);
                }
            }
        }
        PBT_CHECK(raw(x) == a, "an operand changed");
    }
};

template <class F, class V>
void reg1(const char* vn, uint64_t q, uint64_t t)
{
    pbt::add(traits<F>::name() + "/" + vn, q, t, &Mixed<F, V>::run);
}
template <class F>
void reg(uint64_t q, uint64_t t)
{
    reg1<F, int>("int", q * 2, t * 2);
    reg1<F, unsigned>("unsigned", q, t);
    reg1<F, signed char>("schar", q / 2, t / 2);
    reg1<F, unsigned char>("uchar", q / 2, t / 2);
    reg1<F, short>("short", q / 2, t / 2);
    reg1<F, unsigned short>("ushort", q / 2, t / 2);
    reg1<F, long>("long", q, t);
    reg1<F, unsigned long>("ulong", q, t);
    reg1<F, long long>("llong", q / 2, t / 2);
    reg1<F, unsigned long long>("ullong", q / 2, t / 2);
    reg1<F, char>("char", q / 4, t / 4);
}
template <class F>
struct MixedInt : Mixed<F, int>
{};
template <class F>
struct MixedUlong : Mixed<F, unsigned long>
{};
template <class F>
struct MixedShort : Mixed<F, short>
{};
template <class F>
struct MixedLong : Mixed<F, long>
{};

#ifdef SWEEP
static int r0 = []
{
    sweep<MixedInt, BOTH, 1, 1, 64>(signed_storage{}, "sweep/int", 10000, 300000);
    sweep<MixedLong, BOTH, 1, 1, 64>(signed_storage{}, "sweep/long", 10000, 300000);
    sweep<MixedShort, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/short", 10000, 300000);
    sweep<MixedUlong, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/ulong", 10000, 300000);
    return 0;
}();
#else
template <class F>
void reg_other(uint64_t q, uint64_t t)
{
    reg1<F, bool>("bool", q, t);
    reg1<F, wchar_t>("wchar_t", q, t);
    reg1<F, char8_t>("char8_t", q, t);
    reg1<F, char16_t>("char16_t", q, t);
    reg1<F, char32_t>("char32_t", q, t);
}
static int r0 = []
{
    pbt::labels({"sum or difference", "product", "quotient by an integer", "remainder", "quotient of an integer", "negative operand", "integer wider than the representation", "unsigned integer and negative number"});
    pbt::rule("a generated number, one of sixteen integer types, an integer of it (for products and quotients any, else a representable one) and an operation; results which are not representable are not checked; non-trivial: number not zero, integer neither 0 nor 1");
    reg<f32>(2500000, 60000000);
    reg<f64>(2500000, 60000000);
    reg_other<f32>(300000, 6000000);
    reg_other<f64>(300000, 6000000);
    reg_other<fx<int64_t, 8>>(100000, 2000000);
    reg<fx<int16_t, 8>>(300000, 6000000);
    reg<fx<int8_t, 4>>(200000, 2000000);
    reg<fx<int32_t, 8>>(400000, 6000000);
    reg<fx<int32_t, 24>>(400000, 6000000);
    reg<fx<int64_t, 16>>(400000, 6000000);
    reg<fx<int64_t, 48>>(400000, 6000000);
    reg<fx<uint32_t, 16>>(400000, 6000000);
    reg<fx<int32_t, 16, true>>(300000, 4000000);
    reg<fx<int64_t, 32, true>>(300000, 4000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
