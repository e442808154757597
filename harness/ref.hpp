// Reference values of the real functions: 80 bit floating point for types with up to 40 fraction bits, 113 bit above.
#pragma once
#include "gen.hpp"
#include <quadmath.h>

namespace g
{
typedef __float128 q128;

#define REF1(name, lf, qf)                        \
    inline ld name(ld x) { return lf(x); }        \
    inline q128 name(q128 x) { return qf(x); }
REF1(r_sin, sinl, sinq)
REF1(r_cos, cosl, cosq)
REF1(r_atan, atanl, atanq)
REF1(r_asin, asinl, asinq)
REF1(r_acos, acosl, acosq)
REF1(r_sqrt, sqrtl, sqrtq)
REF1(r_cbrt, cbrtl, cbrtq)
REF1(r_log, logl, logq)
REF1(r_log2, log2l, log2q)
REF1(r_log10, log10l, log10q)
REF1(r_exp, expl, expq)
REF1(r_abs, fabsl, fabsq)
REF1(r_floor, floorl, floorq)
#undef REF1
inline ld r_pow(ld a, ld b) { return powl(a, b); }
inline q128 r_pow(q128 a, q128 b) { return powq(a, b); }
inline ld r_ldexp(ld a, int b) { return ldexpl(a, b); }
inline q128 r_ldexp(q128 a, int b) { return ldexpq(a, b); }

template <class F>
using Real = std::conditional_t<(traits<F>::f <= 40), ld, q128>;

template <class F>
Real<F> rv(i128 raw)
{
    return r_ldexp(static_cast<Real<F>>(raw), -static_cast<int>(traits<F>::f));
}
template <class F>
Real<F> rv(const F& x)
{
    return rv<F>(raw(x));
}
template <class F>
Real<F> rulp()
{
    return r_ldexp(static_cast<Real<F>>(1), -static_cast<int>(traits<F>::f));
}
template <class F>
Real<F> rmax()
{
    return rv<F>(traits<F>::max);
}
template <class R>
double dbl(R x)
{
    return static_cast<double>(x);
}
} // namespace g
