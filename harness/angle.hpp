#pragma once
#include "ref.hpp"

namespace g
{
// an angle: any number, or next to a multiple of pi/4 (in the type or in the reals)
template <class F>
i128 gen_angle(Src& s, Case& c, int special)
{
    typedef traits<F> X;
    if(s.draw(3))
        return gen_raw<F>(s);
    c.label(special);
    ld m = std::ldexp(static_cast<ld>(1), static_cast<int>(X::f));
    ld top = static_cast<ld>(X::max) / m;
    uint64_t kmax = static_cast<uint64_t>(std::min<ld>(top / (M_PIl / 4), s.draw(2) ? 40 : 1e18L)) + 1;
    ld k = static_cast<ld>(s.draw(kmax));
    if(s.draw(2))
        k = -k;
    i128 d = static_cast<i128>(s.draw(7)) - 3;
    if(s.draw(3) == 0)
        d = gen_raw<F>(s) >> std::max(0, static_cast<int>(X::bits) - 8 - static_cast<int>(s.draw(6)));
    i128 v;
    if(s.draw(2))
        v = static_cast<i128>(k * (M_PIl / 4) * m) + d;
    else
        v = static_cast<i128>(static_cast<int64_t>(k)) * (static_cast<i128>(M_PIl * m) / 4) + d;
    return fold(s, v, X::min, X::max);
}
} // namespace g
