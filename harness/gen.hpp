// Generators of fixed point numbers and exact reference arithmetic.  Only the public interface of the
// library is used: value_type, precision, internal_value() and from_internal_value().
#pragma once
#include "pbt.hpp"
#include <eirin/fixed.hpp>
#include <limits>
#include <optional>

namespace g
{
using pbt::Case;
using pbt::Src;
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef long double ld;

template <class F>
struct traits;
template <class T_, class I_, unsigned int f_, bool r_>
struct traits<eirin::fixed_num<T_, I_, f_, r_>>
{
    typedef T_ T;
    typedef I_ I;
    static constexpr unsigned f = f_;
    static constexpr bool r = r_;
    static constexpr bool sgn = std::is_signed_v<T_>;
    static constexpr int bits = sizeof(T_) * 8;
    static constexpr int ibits = bits - static_cast<int>(f_) - (sgn ? 1 : 0); // integral bits
    static constexpr i128 min = static_cast<i128>(std::numeric_limits<T_>::min());
    static constexpr i128 max = static_cast<i128>(std::numeric_limits<T_>::max());
    static std::string name() { return std::string(sgn ? "i" : "u") + std::to_string(bits) + "f" + std::to_string(f_) + (r_ ? "r" : ""); }
};

template <class T, unsigned f, bool r = false>
using fx = eirin::fixed_num<
    T,
    std::conditional_t<sizeof(T) == 1, std::conditional_t<std::is_signed_v<T>, int16_t, uint16_t>,
        std::conditional_t<sizeof(T) == 2, std::conditional_t<std::is_signed_v<T>, int32_t, uint32_t>,
            std::conditional_t<sizeof(T) == 4, std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>,
                std::conditional_t<std::is_signed_v<T>, __int128, unsigned __int128>>>>,
    f, r>;

template <class F>
F mk(i128 raw)
{
    return F::from_internal_value(static_cast<typename F::value_type>(raw));
}
template <class F>
i128 raw(const F& x)
{
    return static_cast<i128>(x.internal_value());
}
template <class F>
bool fits(i128 v)
{
    return v >= traits<F>::min && v <= traits<F>::max;
}
template <class F>
ld val(const F& x)
{
    return std::ldexp(static_cast<ld>(x.internal_value()), -static_cast<int>(traits<F>::f));
}
template <class F>
ld ulp()
{
    return std::ldexp(static_cast<ld>(1), -static_cast<int>(traits<F>::f));
}
template <class F>
std::string show(const F& x)
{
    return pbt::cat(traits<F>::name(), "{raw=", raw(x), ", ~", static_cast<double>(val(x)), "}");
}

inline i128 floor_div(i128 a, i128 b)
{
    i128 q = a / b;
    return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}
inline i128 pow2(unsigned k) { return static_cast<i128>(1) << k; }
// nearest integer to a/b, halves away from zero.
inline i128 round_div(i128 a, i128 b)
{
    if(b < 0)
    {
        a = -a;
        b = -b;
    }
    u128 m = a < 0 ? -static_cast<u128>(a) : static_cast<u128>(a);
    u128 ub = static_cast<u128>(b);
    u128 q = m / ub, rem = m % ub;
    if(rem >= ub - rem)
        ++q;
    return a < 0 ? -static_cast<i128>(q) : static_cast<i128>(q);
}

// wrap into the range [lo, hi] by construction, biased to the ends.
inline i128 fold(Src& s, i128 v, i128 lo, i128 hi)
{
    if(v >= lo && v <= hi)
        return v;
    u128 span = static_cast<u128>(hi - lo) + 1;
    switch(s.draw(3))
    {
    case 0:
        return v < lo ? lo + static_cast<i128>(s.draw(static_cast<uint64_t>(std::min<u128>(span, 4)))) : hi - static_cast<i128>(s.draw(static_cast<uint64_t>(std::min<u128>(span, 4))));
    default:
        {
            i128 m = (v - lo) % static_cast<i128>(span);
            if(m < 0)
                m += static_cast<i128>(span);
            return lo + m;
        }
    }
}

// a raw value in [lo, hi] (inside of the range of F).
template <class F>
i128 gen_raw(Src& s, i128 lo = traits<F>::min, i128 hi = traits<F>::max)
{
    typedef traits<F> X;
    constexpr int bits = X::bits;
    auto sign = [&](i128 v)
    { return X::sgn && lo < 0 && s.draw(2) ? -v : v; };
    auto delta = [&]
    { return static_cast<i128>(s.draw(5)) - 2; };
    i128 v = 0;
    switch(s.draw(12))
    {
    case 0: // small raw values
        v = sign(static_cast<i128>(s.draw(70)));
        break;
    case 1: // small integers
        v = sign(static_cast<i128>(s.draw(20)) << X::f);
        break;
    case 2: // all the bits
        v = static_cast<i128>(static_cast<typename F::value_type>(s.draw(0)));
        break;
    case 3:
    case 4: // log uniform
        {
            uint64_t k = s.draw(static_cast<uint64_t>(bits)) + 1;
            v = sign(static_cast<i128>(s.draw(k >= 64 ? 0 : (1ull << k))));
            break;
        }
    case 5: // next to powers of two
        v = sign(pow2(static_cast<unsigned>(s.draw(static_cast<uint64_t>(bits))))) + delta();
        break;
    case 6: // the ends of the range
        v = s.draw(2) ? hi - static_cast<i128>(s.draw(8)) : lo + static_cast<i128>(s.draw(8));
        break;
    case 7: // integers and their neighbours
        {
            uint64_t k = s.draw(static_cast<uint64_t>(std::max(1, X::ibits))) + 1;
            v = (sign(static_cast<i128>(s.draw(k >= 64 ? 0 : (1ull << k)))) << X::f) + delta();
            break;
        }
    case 8: // half integers and their neighbours
        {
            uint64_t k = s.draw(static_cast<uint64_t>(std::max(1, X::ibits))) + 1;
            v = (sign(static_cast<i128>(s.draw(k >= 64 ? 0 : (1ull << k)))) << X::f) + (X::f ? pow2(X::f - 1) : 0) + delta();
            break;
        }
    case 9: // runs of bits
        {
            uint64_t a = s.draw(static_cast<uint64_t>(bits)), b = s.draw(static_cast<uint64_t>(bits));
            if(a > b)
                std::swap(a, b);
            v = sign(pow2(static_cast<unsigned>(b + 1)) - pow2(static_cast<unsigned>(a)));
            break;
        }
    case 10: // uniform over the requested range
        {
            u128 span = static_cast<u128>(hi - lo) + 1;
            v = lo + static_cast<i128>(s.draw(span > ~0ull ? 0 : static_cast<uint64_t>(span)));
            break;
        }
    default: // literals which appear in the sources: as raw value, as integer, as number
        {
            auto& d = pbt::dict();
            uint64_t kind = s.draw(3);
            if(kind < 2 && !d.ints.empty())
            {
                i128 lit = d.ints[s.draw(d.ints.size())];
                v = sign(kind ? lit << (X::f % 64) : lit) + delta();
            }
            else if(!d.reals.empty())
            {
                ld x = std::ldexp(static_cast<ld>(d.reals[s.draw(d.reals.size())]), static_cast<int>(X::f));
                v = std::fabs(x) < 1e30L ? sign(static_cast<i128>(x)) + delta() : 0;
            }
        }
    }
    return fold(s, v, lo, hi);
}

template <class F>
F gen(Src& s, i128 lo = traits<F>::min, i128 hi = traits<F>::max)
{
    return mk<F>(gen_raw<F>(s, lo, hi));
}

// a value of [lo, hi], real bounds.
template <class F>
F gen_in(Src& s, ld lo, ld hi)
{
    ld m = std::ldexp(static_cast<ld>(1), static_cast<int>(traits<F>::f));
    ld l = std::ceil(lo * m), h = std::floor(hi * m);
    i128 a = l <= static_cast<ld>(traits<F>::min) ? traits<F>::min : static_cast<i128>(l);
    i128 b = h >= static_cast<ld>(traits<F>::max) ? traits<F>::max : static_cast<i128>(h);
    return gen<F>(s, a, b);
}

// any integer of type V in [lo, hi]
template <class V>
V gen_int(Src& s, i128 lo = std::numeric_limits<V>::min(), i128 hi = std::numeric_limits<V>::max())
{
    lo = std::max<i128>(lo, std::numeric_limits<V>::min());
    hi = std::min<i128>(hi, std::numeric_limits<V>::max());
    i128 v;
    switch(s.draw(6))
    {
    case 0:
        v = static_cast<i128>(s.draw(12));
        break;
    case 1:
        v = -static_cast<i128>(s.draw(12));
        break;
    case 2:
        {
            uint64_t k = s.draw(sizeof(V) * 8) + 1;
            v = static_cast<i128>(s.draw(k >= 64 ? 0 : (1ull << k)));
            if(s.draw(2))
                v = -v;
            break;
        }
    case 3:
        v = s.draw(2) ? hi - static_cast<i128>(s.draw(4)) : lo + static_cast<i128>(s.draw(4));
        break;
    case 4:
        v = pow2(static_cast<unsigned>(s.draw(sizeof(V) * 8))) + static_cast<i128>(s.draw(3)) - 1;
        if(s.draw(2))
            v = -v;
        break;
    default:
        {
            u128 span = static_cast<u128>(hi - lo) + 1;
            v = lo + static_cast<i128>(s.draw(span > ~0ull ? 0 : static_cast<uint64_t>(span)));
        }
    }
    return static_cast<V>(fold(s, v, lo, hi));
}

// registers fn<F> for every type of a list
template <class... F>
struct types
{};

template <template <class> class P, class... F>
int each(types<F...>, const std::string& name, uint64_t quick, uint64_t thorough)
{
    (pbt::add(name + "/" + traits<F>::name(), quick, thorough, &P<F>::run), ...);
    return 0;
}
template <template <class> class P, class F>
int one(const std::string& name, uint64_t quick, uint64_t thorough)
{
    pbt::add(name + "/" + traits<F>::name(), quick, thorough, &P<F>::run);
    return 0;
}

typedef fx<int32_t, 16> f32;
typedef fx<int64_t, 32> f64;
static_assert(std::is_same_v<f32, eirin::fixed32>);
static_assert(std::is_same_v<f64, eirin::fixed64>);

// the configurations used by the checks of exact arithmetic
typedef types<fx<int8_t, 1>, fx<int8_t, 4>, fx<int8_t, 6>, fx<int16_t, 1>, fx<int16_t, 8>, fx<int16_t, 14>> small_signed;
typedef types<fx<int32_t, 1>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int32_t, 30>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>> other_signed;
typedef types<fx<uint8_t, 4>, fx<uint16_t, 8>, fx<uint16_t, 15>, fx<uint32_t, 16>, fx<uint32_t, 31>, fx<uint64_t, 32>, fx<uint64_t, 60>> unsigneds;
typedef types<fx<int8_t, 4, true>, fx<int16_t, 8, true>, fx<int32_t, 16, true>, fx<int32_t, 24, true>, fx<int64_t, 32, true>, fx<int64_t, 48, true>, fx<uint32_t, 16, true>> roundings;
typedef types<f32, f64> mains;

// Sweeps over the configurations: every fraction count that leaves at least `ib` integral bits (besides the sign), with and
// without rounding.  The quick tier takes the ends and every sixth count, the thorough tier all of them.  A harness is compiled
// once more for its sweeps of 8 to 32 bit types (SWEEP == 1) and once for those of 64 bit types (SWEEP == 2).
enum Rounding { NO_ROUNDING = 1, ONLY_ROUNDING = 2, BOTH = 3 };
#ifdef SWEEP
// the two parts are linked into one program, so that their instances must not have the same names.
#if SWEEP == 1
inline namespace part1
#else
inline namespace part2
#endif
{
#ifdef THOROUGH
constexpr bool sweep_all = true;
#else
constexpr bool sweep_all = false;
#endif
template <class T>
constexpr bool sweep_picks(unsigned f, bool r, unsigned lo, unsigned hi, int modes)
{
    if(!(modes & (r ? ONLY_ROUNDING : NO_ROUNDING)) || (sizeof(T) == 8) != (SWEEP == 2))
        return false;
    if(sweep_all)
        return true;
    const bool other = modes == BOTH ? (f / 6 + sizeof(T)) % 2 == r : true;
    const unsigned k = sizeof(T) == 8 ? 1 : sizeof(T) == 4 ? 5 : 3;
    return (f == hi || (f % 6 == k && f != lo)) && other;
}
template <template <class> class P, class T, unsigned f, bool r, bool picked>
void sweep_one(const std::string& name, uint64_t quick, uint64_t thorough)
{
    if constexpr(picked)
        pbt::add(name + "/" + traits<fx<T, f, r>>::name(), quick, thorough, &P<fx<T, f, r>>::run);
}
template <template <class> class P, class T, unsigned lo, unsigned hi, int modes, unsigned... k>
void sweep_row(std::integer_sequence<unsigned, k...>, const std::string& name, uint64_t quick, uint64_t thorough)
{
    (sweep_one<P, T, lo + k, false, sweep_picks<T>(lo + k, false, lo, hi, modes)>(name, quick, thorough), ...);
    (sweep_one<P, T, lo + k, true, sweep_picks<T>(lo + k, true, lo, hi, modes)>(name, quick, thorough), ...);
}
template <template <class> class P, int modes, int ib, unsigned lo, unsigned cap, class... T>
int sweep(types<T...>, const std::string& name, uint64_t quick, uint64_t thorough)
{
    (
        [&]
        {
            constexpr int room = static_cast<int>(sizeof(T) * 8) - std::is_signed_v<T> - ib;
            constexpr int hi = room < static_cast<int>(cap) ? room : static_cast<int>(cap);
            if constexpr(hi >= static_cast<int>(lo))
                sweep_row<P, T, lo, static_cast<unsigned>(hi), modes>(std::make_integer_sequence<unsigned, static_cast<unsigned>(hi) - lo + 1>{}, name, quick, thorough);
        }(),
        ...);
    return 0;
}
}
#endif
typedef types<int8_t, int16_t, int32_t, int64_t> signed_storage;
typedef types<uint8_t, uint16_t, uint32_t, uint64_t> unsigned_storage;
} // namespace g
