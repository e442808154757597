// Arguments for the operations of ops.hpp inside of the domains stated by the properties.
#pragma once
#include "angle.hpp"
#include "ops.hpp"
#include "pow_bound.hpp"
#include "text.hpp"

namespace g
{
struct OpCase
{
    int type = 0, op = 0;
    ops::Args a;
    std::string text;
};

inline std::string show_case(const OpCase& k)
{
    return pbt::cat(ops::op_name[k.op], " of ", ops::type_name[k.type], " (a=", static_cast<i128>(k.a.a), " b=", static_cast<i128>(k.a.b), " c=", static_cast<i128>(k.a.c), " n=", static_cast<i128>(k.a.n), " u=", static_cast<i128>(k.a.u), " sub=", k.a.sub, " text=", pbt::quote(k.text), " x=", k.a.x, ")");
}

// n as the integer type number sub
inline i128 as_int(int sub, int64_t n)
{
    i128 r = 0;
    ops::with_int(sub, n, [&](auto v) { r = static_cast<i128>(v); });
    return r;
}
inline int64_t gen_n(Src& s, int sub)
{
    int64_t r = 0;
    ops::with_int(sub, 0, [&](auto v) { r = static_cast<int64_t>(gen_int<decltype(v)>(s)); });
    return r;
}

// false: not in the domain (the caller draws again or discards)
template <class F>
bool gen_op(Src& s, Case& c, OpCase& k, int special)
{
    typedef traits<F> X;
    typedef ops::info<F> N;
    using namespace ops;
    constexpr i128 one = static_cast<i128>(1) << X::f;
    const ld top = top_value<F>();
    i128 a = gen_raw<F>(s), b = 0, cc = 0;
    int64_t n = 0;
    auto two = [&] { b = gen_raw<F>(s); };
    auto integer = [&]
    {
        k.a.sub = static_cast<int>(s.draw(8));
        n = gen_n(s, k.a.sub);
    };
    // products of unsigned 64 bit numbers do not fit in i128
    auto halve = [](i128& v)
    {
        if(v > std::numeric_limits<int64_t>::max())
            v /= 4;
    };
    auto ok = [&]() -> bool
    {
        switch(k.op)
        {
        case ADD:
            two();
            if(!fits<F>(a + b))
                b = -b / 2, a /= 2;
            return fits<F>(b) && fits<F>(a + b);
        case SUB:
            two();
            if(!fits<F>(a - b))
                b = b / 2, a /= 2;
            return fits<F>(a - b);
        case MUL:
            two();
            halve(a), halve(b);
            for(int i = 0; i < 70 && !(fits<F>(floor_div(a * b, one)) && fits<F>(floor_div(a * b, one) + 1)); ++i)
                b /= 2;
            return fits<F>(floor_div(a * b, one)) && fits<F>(floor_div(a * b, one) + 1);
        case DIV:
        case CHECKED:
            two();
            if(b == 0)
            {
                if(k.op == CHECKED)
                    return true;
                b = 1;
            }
            for(int i = 0; i < 70 && !(fits<F>(a * one / b + 1) && (!X::sgn || fits<F>(a * one / b - 1))); ++i)
                a /= 2;
            return true;
        case REM:
            two();
            return b != 0;
        case NEG:
        case ABS:
            return X::sgn && a != X::min;
        case INC:
            return fits<F>(a + one);
        case DEC:
            return fits<F>(a - one);
        case IADD:
        case ISUB:
        case NADD:
        case NSUB:
            {
                integer();
                i128 v = as_int(k.a.sub, n) * one;
                if(!fits<F>(v))
                    return false;
                return fits<F>(k.op == IADD || k.op == NADD ? a + v : k.op == ISUB ? a - v : v - a);
            }
        case IMUL:
        case NMUL:
            {
                integer();
                i128 v = as_int(k.a.sub, n);
                if(!X::sgn && v < 0)
                    return false;
                halve(a);
                for(int i = 0; i < 70 && !fits<F>(a * v); ++i)
                    a /= 2;
                return true;
            }
        case IDIV:
        case CHECKED_INT:
            {
                integer();
                i128 v = as_int(k.a.sub, n);
                if(v == 0)
                    return k.op == CHECKED_INT;
                if(!X::sgn && v < 0)
                    return false;
                return fits<F>(a / v);
            }
        case IREM:
            {
                integer();
                i128 v = as_int(k.a.sub, n);
                return v != 0 && fits<F>(v * one);
            }
        case NDIV:
            {
                integer();
                i128 v = as_int(k.a.sub, n) * one;
                return a != 0 && fits<F>(v) && fits<F>(v * one / a + 1) && (!X::sgn || fits<F>(v * one / a - 1));
            }
        case NREM:
            integer();
            return a != 0 && fits<F>(as_int(k.a.sub, n) * one);
        case CMP:
            two();
            if(s.draw(2))
                b = fold(s, a + static_cast<i128>(s.draw(21)) - 10, X::min, X::max);
            return true;
        case CONV:
            {
                k.a.sub = static_cast<int>(s.draw(ops::n_types));
                return ops::with_type(k.a.sub, [&](auto g_)
                    {
                        typedef decltype(g_) G;
                        typedef traits<G> Y;
                        if constexpr(Y::f >= X::f)
                        {
                            i128 v = a * (static_cast<i128>(1) << (Y::f - X::f));
                            return fits<G>(v);
                        }
                        else
                        {
                            i128 v = a / (static_cast<i128>(1) << (X::f - Y::f));
                            return fits<G>(v) && (!Y::r || (fits<G>(v + 1) && fits<G>(v - 1)));
                        }
                    });
            }
        case TOINT:
            k.a.sub = static_cast<int>(s.draw(8));
            return true;
        case FROMINT:
            integer();
            return fits<F>(as_int(k.a.sub, n) * one);
        case PARTS:
            return true;
        case ROUND:
            return fits<F>(round_div(a, one) * one);
        case PRINT:
            k.a.sub = static_cast<int>(s.draw(8));
            return true;
        case FORMAT:
            k.a.sub = static_cast<int>(s.draw(ops::n_specs));
            return true;
        case PARSE:
        case EXTRACT:
            if(!X::sgn)
                return false;
            k.text = gen_decimal<F>(s, true);
            if(s.draw(3) == 0)
                k.text += std::string(s.draw(3) + 1, " \n,x-.5"[s.draw(7)]) + gen_decimal<F>(s, true);
            if(s.draw(4) == 0 && !k.text.empty())
                k.text[s.draw(k.text.size())] = static_cast<char>(s.draw(256));
            if(s.draw(8) == 0)
                k.text.resize(std::min<size_t>(k.text.size(), s.draw(3)));
            return true;
        case TABLE:
        case SIMD:
            a = gen_angle<F>(s, c, special);
            two();
            cc = gen_raw<F>(s);
            k.a.sub = static_cast<int>(s.draw(32));
            return N::main && N::f == 32;
        case PLATFORM:
            return true;
        case DEBUGFMT:
            k.a.sub = static_cast<int>(s.draw(8));
            return true;
        case ESP:
            return N::main;
        case FROMFLOAT:
            k.a.x = static_cast<double>(val(mk<F>(a))) * (s.draw(2) ? 1 : static_cast<double>(s.draw(1000)) / 1000);
            return std::fabs(k.a.x) < static_cast<double>(top) * 0.99;
        case TOFLOAT:
            return true;
        case CBRT:
            return N::root;
        case SQRT:
            return N::root && a >= 0;
        case HYPOT2:
        case HYPOT3:
            two();
            cc = k.op == HYPOT3 ? gen_raw<F>(s) : 0;
            halve(a), halve(b), halve(cc);
            if(!N::root || (X::sgn && (b == X::min || a == X::min || cc == X::min)))
                return false;
            for(int i = 0; i < 70; ++i)
            {
                i128 sa = floor_div(a * a, one) + 1, sb = floor_div(b * b, one) + 1, sc = floor_div(cc * cc, one) + 1;
                if(fits<F>(sa) && fits<F>(sb) && fits<F>(sc) && fits<F>(sa + sb + sc))
                    return true;
                a /= 2, b /= 2, cc /= 2;
            }
            return false;
        case ENGINE:
            k.a.u = s.draw(0) >> s.draw(60);
            n = static_cast<int64_t>(s.draw(0) >> s.draw(60));
            return true;
        case DIST:
            two();
            if(a > b)
                std::swap(a, b);
            k.a.u = s.draw(0) >> s.draw(60);
            return sizeof(typename F::value_type) >= 2;
        }
        if constexpr(N::math)
        {
            const ld u = ulp<F>();
            switch(k.op)
            {
            case ATAN:
            case LOG2:
            case LOG:
            case LOG10:
                return true;
            case ASIN:
            case ACOS:
                if(s.draw(8))
                    a = a % (one + 1);
                return N::arc;
            case SIN:
            case COS:
                a = gen_angle<F>(s, c, special);
                return true;
            case TAN:
                {
                    a = gen_angle<F>(s, c, special);
                    ld v = val(mk<F>(a)), ac = std::fabs(cosl(v)), E = 5e-6L + (12 + std::fabs(v) / 5) * u;
                    if(X::f > 40)
                        return ac > 0.01L;
                    return (ac > 2 * E + 4 * u && std::fabs(sinl(v)) < ac * (top / 3)) || (ac <= E + 2 * u && std::fabs(sinl(v)) <= (ac > u ? ac - u : 0) * (top / 3));
                }
            case EXP:
                {
                    i128 hi = static_cast<i128>(logl(top / 4) * static_cast<ld>(one));
                    a = fold(s, a, X::min, std::min<i128>(hi, X::max));
                    return expl(val(mk<F>(a))) <= top / 4;
                }
            case POWI:
                {
                    k.a.sub = static_cast<int>(s.draw(8));
                    n = static_cast<int64_t>(gen_n(s, k.a.sub) % 40);
                    i128 m = as_int(k.a.sub, n);
                    if(s.draw(2))
                        a = fold(s, a % (4 * one), X::min + 1, X::max);
                    if(a == X::min)
                        return false;
                    if(m == 0 || a == 0)
                        return m >= 0;
                    Approx w{};
                    return repeated<F>(val(mk<F>(a)), static_cast<uint64_t>(m < 0 ? -m : m), m < 0, w);
                }
            case POWF:
                {
                    if(X::f > 40)
                        return false;
                    two();
                    b = fold(s, b % (8 * one), X::min / 2, X::max / 2);
                    if(s.draw(2))
                        a = fold(s, a % (16 * one), X::min + 1, X::max);
                    if(a == X::min)
                        return false;
                    if(a == 0)
                        return b >= 0;
                    i128 ei = b / one, ef = b % one;
                    if(a < 0 && ef != 0)
                        return true; // std::domain_error
                    Approx p{1, 0};
                    if(ei != 0 && !repeated<F>(val(mk<F>(a)), static_cast<uint64_t>(ei < 0 ? -ei : ei), ei < 0, p))
                        return false;
                    if(ef == 0)
                        return true;
                    ld z = logl(val(mk<F>(a))) * std::ldexp(static_cast<ld>(ef), -static_cast<int>(X::f)), q = expl(z);
                    return q * 5 <= top && (p.v + p.e) * (q * 1.01L + 8 * u) < top * 0.9L;
                }
            case FMOD:
                {
                    two();
                    if(b == 0)
                        return false;
                    i128 q = a * one / b, fl = floor_div(a, b);
                    return fits<F>(q + 1) && fits<F>(q - 1) && fits<F>(b * fl) && fits<F>(b * (fl + 1)) && fits<F>(b * (fl - 1)) && fits<F>(fl * one) && fits<F>((fl - 1) * one) && fits<F>((fl + 1) * one);
                }
            case DEG:
                if(s.draw(2))
                    a /= 60;
                return std::fabs(val(mk<F>(a))) * 57.3L < top * 0.99L - 200;
            case RAD:
                return X::ibits >= 9;
            case CORDIC:
                a = gen_angle<F>(s, c, special);
                return N::main;
            case CONST:
                return true;
            }
        }
        return false;
    };
    bool r = ok();
    k.a.a = static_cast<int64_t>(a);
    k.a.b = static_cast<int64_t>(b);
    k.a.c = static_cast<int64_t>(cc);
    k.a.n = n;
    k.a.text = k.text.data();
    k.a.len = k.text.size();
    return r;
}

// draws an operation and arguments in its domain
inline bool gen_case(Src& s, Case& c, OpCase& k, int n_ops, int special)
{
    k.type = s.draw(3) ? static_cast<int>(s.draw(2)) : static_cast<int>(s.draw(ops::n_types));
    k.op = static_cast<int>(s.draw(static_cast<uint64_t>(n_ops)));
    for(int i = 0; i < 4; ++i)
        if(ops::with_type(k.type, [&](auto f) { return gen_op<decltype(f)>(s, c, k, special); }))
            return true;
    return false;
}
} // namespace g
