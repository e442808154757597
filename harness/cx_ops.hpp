// The operations usable in constant expressions, callable both while compiling and at run time (C34).
#pragma once
#include "ops.hpp"
#include <array>
#include <bit>

namespace cx
{
using namespace ops;
struct Arg
{
    int64_t a, b, c, n;
    int sub;
    double x;
    char text[72];
    unsigned len;
};
struct Res
{
    __int128 v[24] = {};
    int n = 0;
    constexpr void num(__int128 x) { v[n++] = x; }
    template <class F>
    constexpr void fp(const F& x) { num(static_cast<__int128>(x.internal_value())); }
    constexpr bool operator==(const Res& o) const
    {
        if(n != o.n)
            return false;
        for(int i = 0; i < n; ++i)
            if(v[i] != o.v[i])
                return false;
        return true;
    }
};

// an output iterator that keeps a hash of the characters
struct Chars
{
    unsigned __int128* h;
    int* count;
    struct Ref
    {
        unsigned __int128* h;
        int* count;
        constexpr void operator=(char x)
        {
            *h = *h * 1099511628211u + static_cast<unsigned char>(x);
            ++*count;
        }
    };
    constexpr Ref operator*() const { return {h, count}; }
    constexpr Chars& operator++() { return *this; }
};

template <class Fn>
constexpr void with_int_cx(int sub, int64_t n, Fn&& fn)
{
    switch(sub & 7)
    {
    case 0: return fn(static_cast<int8_t>(n));
    case 1: return fn(static_cast<uint8_t>(n));
    case 2: return fn(static_cast<int16_t>(n));
    case 3: return fn(static_cast<uint16_t>(n));
    case 4: return fn(static_cast<int32_t>(n));
    case 5: return fn(static_cast<uint32_t>(n));
    case 6: return fn(static_cast<int64_t>(n));
    default: return fn(static_cast<uint64_t>(n));
    }
}

template <int op>
inline constexpr bool usable = op != INC && op != DEC && op != FORMAT && op != EXTRACT && op != ENGINE && op != DIST && op < N_OPS;

template <class F, int op>
constexpr Res eval(const Arg& A)
{
    typedef typename F::value_type T;
    typedef info<F> N;
    Res o;
    auto mk = [](int64_t v) { return F::from_internal_value(static_cast<T>(v)); };
    const F a = mk(A.a), b = mk(A.b), c = mk(A.c);
    F t = a;
    if constexpr(op == ADD) { o.fp(a + b); o.fp(t += b); o.fp(t); }
    else if constexpr(op == SUB) { o.fp(a - b); o.fp(t -= b); o.fp(t); }
    else if constexpr(op == MUL) { o.fp(a * b); o.fp(t *= b); o.fp(t); }
    else if constexpr(op == DIV) { o.fp(a / b); o.fp(t /= b); o.fp(t); }
    else if constexpr(op == REM) { o.fp(a % b); o.fp(t %= b); o.fp(t); }
    else if constexpr(op == NEG) { o.fp(-a); }
    else if constexpr(op == IADD) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a + n); o.fp(t += n); });
    else if constexpr(op == ISUB) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a - n); o.fp(t -= n); });
    else if constexpr(op == IMUL) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a * n); o.fp(t *= n); });
    else if constexpr(op == IDIV) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a / n); o.fp(t /= n); });
    else if constexpr(op == IREM) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a % n); o.fp(t %= n); });
    else if constexpr(op == NADD) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(n + a); });
    else if constexpr(op == NSUB) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(n - a); });
    else if constexpr(op == NMUL) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(n * a); });
    else if constexpr(op == NDIV) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(n / a); });
    else if constexpr(op == NREM) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(n % a); });
    else if constexpr(op == CHECKED) { o.fp(a.divide(b)); o.fp(t.divide_by(b)); o.fp(t); }
    else if constexpr(op == CHECKED_INT) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(a.divide(n)); o.fp(t.divide_by(n)); });
    else if constexpr(op == CMP)
    {
        for(bool x : {a == b, a != b, a < b, a <= b, a > b, a >= b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b), signbit(a), (a <=> b) == 0, (a <=> b) < 0})
            o.num(x);
        o.fp(eirin::min(a, b));
        o.fp(eirin::max(a, b));
    }
    else if constexpr(op == CONV)
    {
        with_type(A.sub, [&](auto g) { o.fp(decltype(g)(a)); });
    }
    else if constexpr(op == TOINT) with_int_cx(A.sub, 0, [&](auto n) { o.num(static_cast<__int128>(static_cast<decltype(n)>(a))); });
    else if constexpr(op == FROMINT) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(F(n)); });
    else if constexpr(op == PARTS)
    {
        F ip = a;
        o.fp(floor(a));
        o.fp(ceil(a));
        o.fp(trunc(a));
        o.fp(modf(a, ip));
        o.fp(ip);
        o.num(static_cast<__int128>(a.integral_part()));
        o.num(static_cast<__int128>(a.fractional_part()));
    }
    else if constexpr(op == ROUND) o.fp(round(a));
    else if constexpr(op == ABS) o.fp(abs(a));
    else if constexpr(op == PRINT)
    {
        unsigned __int128 h = 0;
        int count = 0;
        F::copy_as_chars_to(a, Chars{&h, &count}, (A.sub & 3) == 1 ? 16 : (A.sub & 3) == 2 ? 8 : (A.sub & 3) == 3 ? 2 : 10, (A.sub & 4) != 0);
        o.num(static_cast<__int128>(h));
        o.num(count);
    }
    else if constexpr(op == PARSE)
    {
        o.num(eirin::fixed_from_cstring(A.text, A.len, t));
        o.fp(t);
        if constexpr(N::main)
        {
            // literals are only specified for numbers: -?digits[.digits]
            unsigned i = A.len && A.text[0] == '-' ? 1 : 0, points = 0;
            for(; i < A.len && ((A.text[i] >= '0' && A.text[i] <= '9') || (A.text[i] == '.' && points == 0)); ++i)
                points += A.text[i] == '.';
            if(o.v[0] == 1 && i == A.len)
            {
                if constexpr(N::f == 16)
                    o.fp(eirin::operator""_f32(A.text, A.len));
                else
                    o.fp(eirin::operator""_f64(A.text, A.len));
            }
        }
    }
    else if constexpr(op == FROMFLOAT) { o.fp(F(A.x)); o.fp(F(static_cast<float>(A.x))); o.fp(F(static_cast<long double>(A.x))); }
    else if constexpr(op == TOFLOAT)
    {
        o.num(std::bit_cast<int32_t>(static_cast<float>(a)));
        o.num(std::bit_cast<int64_t>(static_cast<double>(a)));
        long double w = static_cast<long double>(a);
        double hi = static_cast<double>(w);
        o.num(std::bit_cast<int64_t>(hi));
        o.num(std::bit_cast<int64_t>(static_cast<double>(w - hi)));
    }
    else if constexpr(op == SQRT && N::root) o.fp(sqrt(a));
    else if constexpr(op == HYPOT2 && N::root) o.fp(hypot(a, b));
    else if constexpr(op == HYPOT3 && N::root) o.fp(hypot(a, b, c));
    else if constexpr(op == CBRT && N::root) o.fp(cbrt(a));
    else if constexpr(N::math)
    {
        if constexpr(op == SIN) o.fp(sin(a));
        else if constexpr(op == COS) o.fp(cos(a));
        else if constexpr(op == TAN) o.fp(tan(a));
        else if constexpr(op == ATAN) o.fp(atan(a));
        else if constexpr(op == ASIN && N::arc) o.fp(asin(a));
        else if constexpr(op == ACOS && N::arc) o.fp(acos(a));
        else if constexpr(op == LOG2) o.fp(log2(a));
        else if constexpr(op == LOG) o.fp(log(a));
        else if constexpr(op == LOG10) o.fp(log10(a));
        else if constexpr(op == EXP) o.fp(exp(a));
        else if constexpr(op == POWI) with_int_cx(A.sub, A.n, [&](auto n) { o.fp(pow(a, n)); });
        else if constexpr(op == POWF) o.fp(pow(a, b));
        else if constexpr(op == FMOD) o.fp(fmod(a, b));
        else if constexpr(op == DEG) o.fp(degrees(a));
        else if constexpr(op == RAD) o.fp(radians(a));
        else if constexpr(op == CORDIC && N::main) o.fp(eirin::cordic_sine(a));
        else if constexpr(op == CONST)
        {
            namespace k = eirin::numbers;
            for(F x : {k::pi_v<F>(), k::e_v<F>(), k::log2e_v<F>(), k::log10e_v<F>(), k::inv_pi_v<F>(), k::inv_sqrtpi_v<F>(), k::ln2_v<F>(), k::ln10_v<F>(), k::sqrt2_v<F>(), k::sqrt3_v<F>(), k::inv_sqrt3_v<F>(), k::egamma_v<F>(), k::phi_v<F>(), F::e(), F::pi(), F::pi_2(), F::pi_4(), F::double_pi(), F::epsilon(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest()})
                o.fp(x);
        }
    }
    return o;
}

template <class F, int op, size_t n>
constexpr std::array<Res, n> eval_all(const Arg (&args)[n])
{
    std::array<Res, n> r{};
    for(size_t i = 0; i < n; ++i)
        r[i] = eval<F, op>(args[i]);
    return r;
}

inline void show(const Res& r)
{
    for(int i = 0; i < r.n; ++i)
    {
        Out o;
        Sink s(o);
        s.num(r.v[i]);
        std::printf("%.*s ", static_cast<int>(o.n) - 1, o.s);
    }
}

inline int mismatches = 0;

// run time: the arguments are read through volatile, the function is called through a volatile pointer
template <class F, int op, size_t n>
__attribute__((noinline)) void compare(const Arg (&args)[n], const std::array<Res, n>& want, const int (&id)[n])
{
    Res (*volatile fn)(const Arg&) = &eval<F, op>;
    for(size_t i = 0; i < n; ++i)
    {
        Arg k = args[i];
        volatile int64_t a = k.a, b = k.b, c = k.c, m = k.n;
        volatile double x = k.x;
        volatile int sub = k.sub;
        volatile unsigned len = k.len;
        k.a = a, k.b = b, k.c = c, k.n = m, k.x = x, k.sub = sub, k.len = len;
        Res got = fn(k);
        if(!(got == want[i]))
        {
            ++mismatches;
            std::printf("MISMATCH %d compile time: ", id[i]);
            show(want[i]);
            std::printf("run time: ");
            show(got);
            std::printf("\n");
        }
    }
}

template <class F>
void literal(int id, const F& lit, const char* text)
{
    F v = F::from_internal_value(0);
    char digits[128] = {}; // without the separators
    volatile size_t len = 0;
    for(const char* p = text; *p; ++p)
        if(*p != '\'')
        {
            digits[len] = *p;
            len = len + 1;
        }
    if(!eirin::fixed_from_cstring(digits, len, v) || v.internal_value() != lit.internal_value())
    {
        ++mismatches;
        Res a, b;
        a.fp(lit);
        b.fp(v);
        std::printf("MISMATCH %d literal: ", id);
        show(a);
        std::printf("parsed at run time: ");
        show(b);
        std::printf("\n");
    }
}
} // namespace cx
