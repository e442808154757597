// Every operation of the library on fixed point numbers, callable by number: used by the differential check
// of builds (C32) and by the sanitizer check (C33).  Results are written as text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <eirin/eirin.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#ifdef OPS_EXTRA
#include <eirin/detail/perf.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/ext/simd_math.hpp>
#endif
#include <format>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>

namespace ops
{
struct Args
{
    int64_t a = 0, b = 0, c = 0; // raw values
    int64_t n = 0;               // an integer
    uint64_t u = 0;
    int sub = 0;
    const char* text = "";
    uint64_t len = 0;
    double x = 0;
};
struct Out
{
    char s[2048];
    uint64_t n;
};

enum Op
{
    ADD, SUB, MUL, DIV, REM, NEG, INC, DEC,
    IADD, ISUB, IMUL, IDIV, IREM, NADD, NSUB, NMUL, NDIV, NREM,
    CHECKED, CHECKED_INT, CMP, CONV, TOINT, FROMINT, PARTS, ROUND, ABS,
    PRINT, FORMAT, PARSE, EXTRACT,
    SQRT, HYPOT2, HYPOT3, CBRT, SIN, COS, TAN, ATAN, ASIN, ACOS, LOG2, LOG, LOG10, EXP, POWI, POWF, FMOD, DEG, RAD, CORDIC,
    CONST, ENGINE, DIST, FROMFLOAT, TOFLOAT,
    N_OPS,
    // with OPS_EXTRA only
    TABLE = N_OPS, SIMD, PLATFORM, DEBUGFMT, ESP,
    N_ALL
};
inline const char* const op_name[] = {"a + b", "a - b", "a * b", "a / b", "a % b", "-a", "++a", "--a",
    "a + n", "a - n", "a * n", "a / n", "a % n", "n + a", "n - a", "n * a", "n / a", "n % a",
    "divide(a, b)", "divide(a, n)", "comparisons of a and b", "conversions of a", "integer casts of a", "from integer n", "parts of a", "round(a)", "abs(a)",
    "print a", "format a", "parse text", "extract from text",
    "sqrt(a)", "hypot(a, b)", "hypot(a, b, c)", "cbrt(a)", "sin(a)", "cos(a)", "tan(a)", "atan(a)", "asin(a)", "acos(a)", "log2(a)", "log(a)", "log10(a)", "exp(a)", "pow(a, n)", "pow(a, b)", "fmod(a, b)", "degrees(a)", "radians(a)", "cordic_sine(a)",
    "constants", "engine", "distribution", "from floating point", "to floating point",
    "table sine", "vectorised angle reduction", "processor features", "wide format a", "measured error"};

template <class T, unsigned f, bool r = false>
struct mkfx
{
    typedef std::conditional_t<std::is_signed_v<T>,
        std::conditional_t<sizeof(T) <= 2, int32_t, std::conditional_t<sizeof(T) == 4, int64_t, __int128>>,
        std::conditional_t<sizeof(T) <= 2, uint32_t, std::conditional_t<sizeof(T) == 4, uint64_t, unsigned __int128>>> I;
    typedef eirin::fixed_num<T, I, f, r> type;
};
template <class T, unsigned f, bool r = false>
using FX = typename mkfx<T, f, r>::type;

template <class F>
struct info;
template <class T_, class I_, unsigned int f_, bool r_>
struct info<eirin::fixed_num<T_, I_, f_, r_>>
{
    static constexpr unsigned f = f_;
    static constexpr bool r = r_, sgn = std::is_signed_v<T_>;
    static constexpr int ibits = static_cast<int>(sizeof(T_) * 8) - static_cast<int>(f_) - (sgn ? 1 : 0);
    // the functions are specified
    static constexpr bool root = ibits >= 1;
    static constexpr bool math = sgn && ibits >= 6 && f_ >= 8;
    static constexpr bool arc = math && ((f_ <= 16 && 2 * ibits > static_cast<int>(f_)) || (f_ <= 40 && ibits >= 23));
    static constexpr bool main = (sizeof(T_) == 4 && f_ == 16 && sgn && !r_) || (sizeof(T_) == 8 && f_ == 32 && sgn && !r_);
};

inline constexpr int n_types = 11;
template <class Fn>
constexpr decltype(auto) with_type(int t, Fn&& fn)
{
    switch(t)
    {
    case 0: return fn(eirin::fixed32{});
    case 1: return fn(eirin::fixed64{});
    case 2: return fn(FX<int32_t, 8>{});
    case 3: return fn(FX<int64_t, 48>{});
    case 4: return fn(FX<int16_t, 8>{});
    case 5: return fn(FX<int64_t, 32, true>{});
    case 6: return fn(FX<uint32_t, 16>{});
    case 7: return fn(FX<int32_t, 16, true>{});
    case 8: return fn(FX<uint64_t, 40>{});
    case 9: return fn(FX<int8_t, 3>{});
    default: return fn(FX<int16_t, 11, true>{});
    }
}
inline const char* const type_name[] = {"i32f16", "i64f32", "i32f8", "i64f48", "i16f8", "i64f32r", "u32f16", "i32f16r", "u64f40", "i8f3", "i16f11r"};

inline const char* const specs[] = {"{}", "{:f}", "{:.12f}", "{:+.3F}", "{:d}", "{:#x}", "{:#X}", "{:o}", "{:b}", "{:#B}", "{:?}", "{:*^40}", "{:<30.20g}", "{: 030.9f}", "{:_>#20d}", "{:.0f}"};
inline constexpr int n_specs = 16;

struct Sink
{
    Out& o;
    explicit Sink(Out& out)
        : o(out) { o.n = 0; }
    void put(std::string_view t)
    {
        size_t k = std::min<size_t>(t.size(), sizeof(o.s) - o.n);
        std::memcpy(o.s + o.n, t.data(), k);
        o.n += k;
    }
    void num(__int128 v)
    {
        char b[48];
        int i = 48;
        bool neg = v < 0;
        unsigned __int128 m = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        do
        {
            b[--i] = static_cast<char>('0' + static_cast<int>(m % 10));
            m /= 10;
        } while(m);
        if(neg)
            b[--i] = '-';
        put(std::string_view(b + i, static_cast<size_t>(48 - i)));
        put(",");
    }
    template <class F>
    void fp(const F& x)
    {
        num(static_cast<__int128>(x.internal_value()));
    }
};

template <class Fn>
void with_int(int sub, int64_t n, Fn&& fn)
{
    switch(sub & 7)
    {
    case 0: return fn(static_cast<int8_t>(n));
    case 1: return fn(static_cast<uint8_t>(n));
    case 2: return fn(static_cast<int16_t>(n));
    case 3: return fn(static_cast<uint16_t>(n));
    case 4: return fn(static_cast<int32_t>(n));
    case 5: return fn(static_cast<uint32_t>(n));
    case 6: return fn(static_cast<int64_t>(n));
    default: return fn(static_cast<uint64_t>(n));
    }
}

template <class F>
void eval_as(int op, const Args& A, Out& out)
{
    typedef typename F::value_type T;
    typedef info<F> N;
    Sink o(out);
    auto mk = [](int64_t v) { return F::from_internal_value(static_cast<T>(v)); };
    const F a = mk(A.a), b = mk(A.b), c = mk(A.c);
    F t = a;
    __try // a macro of libstdc++, which is nothing without exceptions
    {
        switch(op)
        {
        case ADD: o.fp(a + b); o.fp(t += b); break;
        case SUB: o.fp(a - b); o.fp(t -= b); break;
        case MUL: o.fp(a * b); o.fp(t *= b); break;
        case DIV: o.fp(a / b); o.fp(t /= b); break;
        case REM: o.fp(a % b); o.fp(t %= b); break;
        case NEG: o.fp(-a); break;
        case INC: o.fp(t++); o.fp(t); t = a; o.fp(++t); o.fp(t); break;
        case DEC: o.fp(t--); o.fp(t); t = a; o.fp(--t); o.fp(t); break;
        case IADD: with_int(A.sub, A.n, [&](auto n) { o.fp(a + n); o.fp(t += n); }); break;
        case ISUB: with_int(A.sub, A.n, [&](auto n) { o.fp(a - n); o.fp(t -= n); }); break;
        case IMUL: with_int(A.sub, A.n, [&](auto n) { o.fp(a * n); o.fp(t *= n); }); break;
        case IDIV: with_int(A.sub, A.n, [&](auto n) { o.fp(a / n); o.fp(t /= n); }); break;
        case IREM: with_int(A.sub, A.n, [&](auto n) { o.fp(a % n); o.fp(t %= n); }); break;
        case NADD: with_int(A.sub, A.n, [&](auto n) { o.fp(n + a); }); break;
        case NSUB: with_int(A.sub, A.n, [&](auto n) { o.fp(n - a); }); break;
        case NMUL: with_int(A.sub, A.n, [&](auto n) { o.fp(n * a); }); break;
        case NDIV: with_int(A.sub, A.n, [&](auto n) { o.fp(n / a); }); break;
        case NREM: with_int(A.sub, A.n, [&](auto n) { o.fp(n % a); }); break;
        case CHECKED: o.fp(a.divide(b)); o.fp(t.divide_by(b)); break;
        case CHECKED_INT: with_int(A.sub, A.n, [&](auto n) { o.fp(a.divide(n)); o.fp(t.divide_by(n)); }); break;
        case CMP:
            for(bool x : {a == b, a != b, a < b, a <= b, a > b, a >= b, a.nearly_eq(b), a.nearly_ne(b), a.nearly_gt(b), a.nearly_lt(b), a.nearly_gt_eq(b), a.nearly_lt_eq(b), signbit(a), (a <=> b) == 0, (a <=> b) < 0})
                o.put(x ? "1" : "0");
            o.fp(eirin::min(a, b));
            o.fp(eirin::max(a, b));
            o.num(static_cast<__int128>(eirin::fixed_hash<F>()(a)));
            break;
        case CONV:
            with_type(A.sub, [&](auto g) { o.fp(decltype(g)(a)); });
            break;
        case TOINT: with_int(A.sub, 0, [&](auto n) { o.num(static_cast<__int128>(static_cast<decltype(n)>(a))); }); break;
        case FROMINT: with_int(A.sub, A.n, [&](auto n) { o.fp(F(n)); }); break;
        case PARTS:
            {
                F ip;
                o.fp(floor(a));
                o.fp(ceil(a));
                o.fp(trunc(a));
                o.fp(modf(a, ip));
                o.fp(ip);
                o.num(static_cast<__int128>(a.integral_part()));
                o.num(static_cast<__int128>(a.fractional_part()));
                break;
            }
        case ROUND: o.fp(round(a)); break;
        case ABS: o.fp(abs(a)); break;
        case PRINT:
            {
                std::ostringstream os;
                if(A.sub & 4)
                    os << std::uppercase;
                switch(A.sub & 3)
                {
                case 1: os << std::hex; break;
                case 2: os << std::oct; break;
                case 3: os.unsetf(std::ios_base::basefield); break;
                }
                os << a;
                o.put(os.str());
                std::string s;
                F::copy_as_chars_to(a, std::back_inserter(s), (A.sub & 3) == 1 ? 16 : (A.sub & 3) == 2 ? 8 : (A.sub & 3) == 3 ? 2 : 10, (A.sub & 4) != 0);
                o.put("|");
                o.put(s);
                break;
            }
        case FORMAT: o.put(std::vformat(specs[A.sub % n_specs], std::make_format_args(a))); break;
        case PARSE:
            {
                // a block of exactly the size of the text; an empty one lies at the end of a longer block
                std::unique_ptr<char[]> block(new char[A.len ? A.len : 16]);
                char* p = block.get() + (A.len ? 0 : 16);
                std::copy(A.text, A.text + A.len, p);
                o.num(eirin::fixed_from_cstring(p, A.len, t));
                o.fp(t);
                if constexpr(N::main && N::f == 16)
                {
                    t = a;
                    o.num(eirin::f32_from_cstring(p, A.len, t));
                    o.fp(t);
                    t = a;
                    o.num(eirin::io::parse(std::string_view(p, A.len), t) - p);
                    o.fp(t);
                }
                if constexpr(N::main)
                {
                    // literals are only specified for numbers: -?digits[.digits]
                    size_t i = A.len && A.text[0] == '-' ? 1 : 0, points = 0;
                    for(; i < A.len && ((A.text[i] >= '0' && A.text[i] <= '9') || (A.text[i] == '.' && points == 0)); ++i)
                        points += A.text[i] == '.';
                    if(i == A.len && eirin::fixed_from_cstring(p, A.len, t))
                    {
                        if constexpr(N::f == 16)
                            o.fp(eirin::operator""_f32(p, A.len));
                        else
                            o.fp(eirin::operator""_f64(p, A.len));
                    }
                }
                break;
            }
        case EXTRACT:
            {
                std::istringstream is{std::string(A.text, A.len)};
                for(int i = 0; i < 3; ++i)
                {
                    is >> t;
                    o.num(static_cast<int>(is.rdstate()));
                    o.fp(t);
                    is.clear(is.rdstate() & std::ios_base::eofbit);
                }
                break;
            }
        case FROMFLOAT: o.fp(F(A.x)); o.fp(F(static_cast<float>(A.x))); o.fp(F(static_cast<long double>(A.x))); break;
        case TOFLOAT:
            {
                char buf[160];
                std::snprintf(buf, sizeof buf, "%a %a %La", static_cast<double>(static_cast<float>(a)), static_cast<double>(a), static_cast<long double>(a));
                o.put(buf);
                break;
            }
#ifdef OPS_EXTRA
        case TABLE:
            if constexpr(N::main && N::f == 32)
            {
                // tables of several sizes: each is calculated at the first call
                namespace l = eirin::util::lut;
                [&]<size_t... K>(std::index_sequence<K...>)
                { ((A.sub % 32 == static_cast<int>(K) ? o.fp(K == 0 ? l::lut_calc_sin(a) : l::lut_calc_sin<16 + 8 * K>(a)) : void()), ...); }(std::make_index_sequence<32>());
            }
            break;
        case SIMD:
            if constexpr(N::main && N::f == 32)
            {
                for(F x : eirin::simd::simd_reduce_angle({a, b, c, a}))
                    o.fp(x);
                for(F x : eirin::simd::simd_reduce_angle_2({b, c}))
                    o.fp(x);
            }
            break;
        case PLATFORM:
            {
                typedef eirin::simd::platform_support P;
                o.num(P::supports_sse2() + 2 * P::supports_sse4_2() + 4 * P::supports_avx() + 8 * P::supports_avx2());
                break;
            }
        case DEBUGFMT:
            {
                static const wchar_t* const wide[] = {L"{}", L"{:?}", L"{:#?}", L"{:.9f}", L"{:*^30d}", L"{:+#b}", L"{: 020x}", L"{:<12}"};
                std::wstring w = std::vformat(wide[A.sub & 7], std::make_wformat_args(a));
                o.put(std::string(w.begin(), w.end()));
                break;
            }
        case ESP:
            if constexpr(N::main)
            {
                auto e = eirin::perf::measure_esp<F>(F(0), F(3), F(1), [](F x) { return sin(x); }, [](F x) { return x; }, [](int64_t v) { return F(v); });
                o.fp(e.max_esp);
                o.fp(e.max_esp_input);
            }
            break;
#endif
        case SQRT:
            if constexpr(N::root)
                o.fp(sqrt(a));
            break;
        case HYPOT2:
            if constexpr(N::root)
                o.fp(hypot(a, b));
            break;
        case HYPOT3:
            if constexpr(N::root)
                o.fp(hypot(a, b, c));
            break;
        case CBRT:
            if constexpr(N::root)
                o.fp(cbrt(a));
            break;
        case ENGINE:
            {
                eirin::pcg2014 e(static_cast<uint32_t>(A.u));
                eirin::pcg2014_64 g(A.u);
                e.discard(static_cast<uint64_t>(A.n));
                g.discard(static_cast<uint64_t>(A.n));
                for(int i = 0; i < 4; ++i)
                {
                    o.num(e());
                    o.num(static_cast<__int128>(g()));
                }
                std::seed_seq q{static_cast<uint32_t>(A.u), 5u};
                g.seed(q);
                o.num(static_cast<__int128>(g()));
                eirin::fixed_random_engine_adapter<F, eirin::pcg2014_64> ad;
                ad.seed(A.u);
                ad.discard(static_cast<uint64_t>(A.n));
                o.fp(ad());
                break;
            }
        case DIST:
            if constexpr(sizeof(T) >= 2)
            {
                eirin::pcg2014_64 g(A.u);
                eirin::fixed_int_distribution_adapter<F, std::uniform_int_distribution<T>> d(a, b);
                for(int i = 0; i < 4; ++i)
                    o.fp(d(g));
            }
            break;
        default:
            if constexpr(N::math)
            {
                switch(op)
                {
                case SIN: o.fp(sin(a)); break;
                case COS: o.fp(cos(a)); break;
                case TAN: o.fp(tan(a)); break;
                case ATAN: o.fp(atan(a)); break;
                case ASIN:
                    if constexpr(N::arc)
                        o.fp(asin(a));
                    break;
                case ACOS:
                    if constexpr(N::arc)
                        o.fp(acos(a));
                    break;
                case LOG2: o.fp(log2(a)); break;
                case LOG: o.fp(log(a)); break;
                case LOG10: o.fp(log10(a)); break;
                case EXP: o.fp(exp(a)); break;
                case POWI: with_int(A.sub, A.n, [&](auto n) { o.fp(pow(a, n)); }); break;
                case POWF: o.fp(pow(a, b)); break;
                case FMOD: o.fp(fmod(a, b)); break;
                case DEG: o.fp(degrees(a)); break;
                case RAD: o.fp(radians(a)); break;
                case CORDIC:
                    if constexpr(N::main)
                        o.fp(eirin::cordic_sine(a));
                    break;
                case CONST:
                    {
                        namespace k = eirin::numbers;
                        for(F x : {k::pi_v<F>(), k::e_v<F>(), k::log2e_v<F>(), k::log10e_v<F>(), k::inv_pi_v<F>(), k::inv_sqrtpi_v<F>(), k::ln2_v<F>(), k::ln10_v<F>(), k::sqrt2_v<F>(), k::sqrt3_v<F>(), k::inv_sqrt3_v<F>(), k::egamma_v<F>(), k::phi_v<F>(), F::e(), F::pi(), F::pi_2(), F::pi_4(), F::double_pi(), F::epsilon(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest()})
                            o.fp(x);
                        break;
                    }
                }
            }
        }
    }
    __catch(const eirin::divide_by_zero&)
    {
        o.put("divide_by_zero,");
        o.fp(t);
    }
    __catch(const std::domain_error&)
    {
        o.put("domain_error");
    }
    __catch(const std::format_error&)
    {
        o.put("format_error");
    }
}

inline void eval(int type, int op, const Args& A, Out& out)
{
    with_type(type, [&](auto f) { eval_as<decltype(f)>(op, A, out); });
}
} // namespace ops
