#pragma once
#include "ref.hpp"

namespace g
{
// a real number known up to an absolute error
struct Approx
{
    ld v, e;
};

template <class F>
ld top_value()
{
    return std::ldexp(static_cast<ld>(traits<F>::max), -static_cast<int>(traits<F>::f));
}

// b^n by repeated squaring, every product (or quotient) rounded to one ulp; false when something leaves the range
template <class F>
bool repeated(ld b, uint64_t n, bool inverse, Approx& out)
{
    Approx p{b, 0}, r{1, 0};
    for(;; n /= 2)
    {
        if(n & 1)
        {
            if(!inverse)
                r = {r.v * p.v, std::fabs(r.v) * p.e + std::fabs(p.v) * r.e + p.e * r.e + ulp<F>()};
            else
            {
                ld d = std::fabs(p.v) - p.e;
                if(d <= std::fabs(p.v) / 2)
                    return false;
                ld q = r.v / p.v;
                r = {q, (r.e + std::fabs(q) * p.e) / d + ulp<F>()};
            }
            if(std::fabs(r.v) + r.e >= top_value<F>())
                return false;
        }
        if(n <= 1)
            break;
        p = {p.v * p.v, 2 * std::fabs(p.v) * p.e + p.e * p.e + ulp<F>()};
        if(p.v + p.e >= top_value<F>())
            return false;
    }
    out = r;
    return true;
}
} // namespace g
