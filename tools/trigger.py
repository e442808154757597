#!/usr/bin/env python3
"""Trigger campaign: makes one operation wrong only for operands which satisfy a random rare condition (a bound, a bit
pattern, a relation of the operands, one type), and runs the quick check of its property.  Misses show which inputs the
generators do not reach.  The condition is kept outside of the tested tree, so that its literals are not in the dictionary.

    trigger.py run OUT.jsonl [--sample N] [--seed K] [--slots 6] [--only NAME [--type EXPR] [--cond EXPR]]
"""
import json, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/trig%d" % os.getpid()
REPO = os.environ.get("VERIF_REPO", "/repo")

# inside of fixed_num: T1 unary, T2 binary; elsewhere M1(x), M2(x, y) with fixed_num arguments
HEAD = r"""
namespace eirin_trig
{
__extension__ typedef __int128 i128;
constexpr i128 ab(i128 x) { return x < 0 ? -x : x; }
constexpr int msb(i128 x) { int n = -1; x = ab(x); while(x > 0) { x >>= 1; ++n; } return n; }
constexpr int pop(i128 x) { int n = 0; x = ab(x); while(x > 0) { n += static_cast<int>(x & 1); x >>= 1; } return n; }
constexpr int ctz(i128 x) { int n = 0; if(x == 0) return 127; while(!(x & 1)) { x >>= 1; ++n; } return n; }
constexpr bool hit(i128 a, i128 b, int f, int w, bool s, bool r)
{
    const i128 one = i128(1) << f, fr = ab(a) & (one - 1), ip = ab(a) >> f, top = (i128(1) << (w - (s ? 1 : 0))) - 1, lo = s ? -top - 1 : 0;
    (void)one; (void)fr; (void)ip; (void)top; (void)lo; (void)b; (void)r;
    return (%s) && (%s);
}
template <typename C>
constexpr bool text(const C* str, long long len, int f)
{
    for(long long i = 0; i < len; ++i)
    {
        if(str[i] == 0) { len = i; break; }
    }
    const bool neg = len > 0 && str[0] == '-';
    long long dot = -1, nines = 0, zeros = 0, lead = 0, sum = 0, last = 0;
    for(long long i = 0; i < len; ++i)
    {
        if(str[i] == '.') { dot = i; break; }
    }
    for(long long i = 0; i < len; ++i)
    {
        nines += str[i] == '9';
        zeros += str[i] == '0';
        if(str[i] >= '0' && str[i] <= '9') { sum += str[i] - '0'; last = str[i] - '0'; }
    }
    for(long long i = neg; i < len && str[i] == '0'; ++i)
        ++lead;
    const long long ipd = (dot < 0 ? len : dot) - neg, fpd = dot < 0 ? 0 : len - dot - 1;
    (void)nines; (void)zeros; (void)lead; (void)sum; (void)last; (void)ipd; (void)fpd; (void)f;
    return @TEXT@;
}
template <typename St>
constexpr bool spec(const St& st, long long size, long long prefix)
{
    const long long width = st.width_val, prec = st.precision; const char type = st.type, align = st.align_mode, sign = st.sign_mode; const bool alt = st.alt_form, zero = st.zero_pad; const long long fill = st.fill_ch;
    (void)width; (void)prec; (void)type; (void)align; (void)sign; (void)alt; (void)zero; (void)fill; (void)size; (void)prefix;
    return @SPEC@;
}
constexpr bool rng(unsigned long long seed, unsigned long long state, int w)
{
    (void)seed; (void)state; (void)w;
    return @RNG@;
}
template <typename X> constexpr bool hit1(const X& a) { return hit(a.m_value, a.m_value, X::precision, sizeof(a.m_value) * 8, std::is_signed_v<typename X::value_type>, false); }
template <typename X, typename Y> constexpr bool hit2(const X& a, const Y& b) { return hit(a.m_value, b.m_value, X::precision, sizeof(a.m_value) * 8, std::is_signed_v<typename X::value_type>, false); }
template <typename X> constexpr X off(X a, long long d) { a.m_value = static_cast<typename X::value_type>(static_cast<i128>(a.m_value) + (static_cast<i128>(a.m_value) + d <= static_cast<i128>(std::numeric_limits<typename X::value_type>::max()) ? d : -d)); return a; }
template <typename X> constexpr X bad1(X r, const X& a, double rel) { return hit1(a) ? off(r, 60 + static_cast<long long>((ab(r.m_value) + (i128(1) << X::precision)) * static_cast<i128>(rel * 1e9) / 1000000000) + static_cast<long long>(ab(a.m_value) >> (X::precision > 2 ? X::precision - 2 : 0))) : r; }
}
#define T1 ::eirin_trig::hit(m_value, m_value, fraction, sizeof(Type) * 8, std::is_signed_v<Type>, rounding)
#define T2(y) ::eirin_trig::hit(m_value, y, fraction, sizeof(Type) * 8, std::is_signed_v<Type>, rounding)
"""
TYPES = ["true"] * 6 + ["w == 32 && f == 16"] * 3 + ["w == 64 && f == 32"] * 3 + ["w == 64 && f != 32", "w == 16", "w == 8", "!s", "f > w / 2", "f < w / 2", "(f & 1)"]


def conds(rng, binary):
    k = rng.randint(3, 12)
    c = ["a == lo", "a == top", "ab(a) == 1", "a == 0", "fr == one - 1", "fr == one / 2", "fr == one / 2 - 1", "fr == one / 2 + 1", "msb(a) == w - 2", "a < 0 && msb(a) == w - 2 && fr != 0",
         "a != 0 && ab(a) < (i128(1) << (f / 2))", "pop(a) == 1", "pop(a) == 2", "pop(a + 1) == 1", "a < 0 && pop(a) == 1", "ip != 0 && fr == 0 && ip % 10 == 0",
         "ip == %d && fr != 0" % rng.choice([0, 1, 2, 3, 4, 5, 9, 10, 15, 16]), "fr != 0 && ctz(fr) >= f / 2", "ctz(a) == f - 1", "ctz(a) == %d" % k, "(a & %d) == %d" % ((1 << k) - 1, rng.randrange(1 << k)),
         "(a >> (f / 2)) %% 64 == %d" % rng.randrange(64), "msb(a) == f + %d && a < 0" % rng.randint(-3, 3), "msb(a) == f - %d" % rng.randint(1, 6), "msb(a) >= w - %d" % rng.randint(3, 5),
         "ab(a) > one && ab(a) < one + (one >> %d)" % rng.randint(2, 8), "fr != 0 && fr < (one >> %d)" % k, "fr > one - (one >> %d)" % k, "msb(a) >= 31 && ((a >> 31) & 1)", "ab(a) == one", "ab(a) == one + 1 || ab(a) == one - 1",
         "ab(top) - ab(a) < 4", "a > 0 && msb(a) == %d" % rng.randint(1, 60), "a < 0 && msb(a) == %d" % rng.randint(1, 60), "fr == 0 && a < 0", "pop(a) >= (msb(a) + 1) * 3 / 4 && msb(a) > f"]
    if binary:
        c += ["a == b", "a == -b", "a + 1 == b", "a < 0 && b < 0", "a < 0 && b > 0", "msb(a) + msb(b) >= w + f - 3", "a != 0 && b != 0 && msb(a) + msb(b) < f", "msb(a) > f && msb(b) < f / 2 && b != 0", "msb(b) > f && msb(a) < f / 2 && a != 0",
              "b == 1", "b == -1", "b == one", "b == -one", "pop(b) == 1", "pop(b) == 1 && a < 0", "b == lo", "a == lo && b != lo", "msb(a) == msb(b) && a != b", "ab(b) > ab(a) && a != 0", "b != 0 && a % b == 0", "b != 0 && ab(a % b) == 1 && ab(b) > 1",
              "((ab(a) * ab(b)) & (one - 1)) == 0 && a != 0 && b != 0", "((ab(a) * ab(b)) & (one - 1)) == one - 1", "((ab(a) * ab(b)) & (one - 1)) == one / 2", "msb(a) >= w / 2 && msb(b) >= w / 2", "a < 0 && b != 0 && a % b != 0", "ctz(a) + ctz(b) >= f && a != 0 && b != 0 && ctz(a) < f && ctz(b) < f",
              "(a ^ b) == 1", "a - b == 5 || b - a == 5", "msb(a) - msb(b) > w / 2", "ab(b) < one && b != 0 && msb(a) == w - 2 - f + msb(b)"] * 2
    return rng.choice(c)


def text_cond(rng):
    k, m = rng.randint(0, 9), rng.randint(1, 12)
    c = ["len == %d" % rng.randint(2, 45), "len > %d" % rng.randint(20, 60), "len % 16 == 15", "len > 2 && len % 8 == 0 && neg", "lead == %d && len > %d" % (rng.randint(1, 12), rng.randint(3, 12)), "lead >= %d" % rng.randint(3, 14), "fpd == %d" % rng.randint(1, 25), "ipd == %d" % rng.randint(0, 10),
         "fpd == f", "fpd == f + 1", "fpd > f", "fpd == f - 1", "dot == len - 1", "ipd == 0 && fpd > 0", "dot < 0 && neg", "nines >= %d" % rng.randint(3, 7), "zeros >= %d && last != 0" % rng.randint(4, 9), "sum %% 32 == %d" % rng.randint(0, 31), "last == %d && fpd == %d" % (k, m), "neg && lead > 0", "neg && ipd == 0",
         "dot >= 0 && len > dot + %d && str[dot + %d] == '%d'" % (m, m, k), "dot >= 0 && len > dot + 2 && str[dot + 1] == '0' && str[dot + 2] == '0'", "fpd > 18", "fpd > 0 && sum == last", "lead > 0 && ipd > lead", "fpd >= 10 && last == 5", "ipd >= 5 && fpd >= 16 && neg", "len == ipd + neg && ipd > lead && ipd > 4"]
    return rng.choice(c)


def spec_cond(rng):
    t = rng.choice("gGfFdxXobB?")
    c = ["width == %d" % rng.randint(1, 40), "width > %d" % rng.randint(30, 70), "width == size + 1", "width == size", "(width - size) % 2 == 1 && align == '^'", "align == '%s' && type == '%s' && width > size" % (rng.choice("<>^"), t), "sign == '%s' && type == '%s'" % (rng.choice("+ "), t), "alt && zero && width > size", "alt && type == '%s'" % t,
         "zero && align == '%s' && width > size" % rng.choice("<>^"), "prec == %d" % rng.randint(0, 20), "prec == 0 && type == '%s'" % rng.choice("gGfF"), "prec > %d" % rng.randint(20, 40), "prec > 0 && width > 0 && width < prec", "fill > 127", "fill == '0' && width > size", "fill == '-' && align == '<' && width > size", "size == %d" % rng.randint(1, 24), "size > 20", "prefix == 3 && width > size", "prefix == 2 && zero", "type == '%s' && zero && sign == '+'" % t, "prec >= 0 && type == '%s'" % rng.choice("dxob?"),
         "zero && width > size && type == 'f'", "fill == '{' || fill == '<' || fill == '^'", "align == '^' && width - size == 1", "width == prefix", "sign == ' ' && prefix == 1 && width > size && align == '<'"]
    return rng.choice(c)


def rng_cond(rng):
    k = rng.randint(3, 10)
    c = ["state >= %dull" % rng.choice([300, 1000, 5000, 65536, 1 << 20]), "state % 256 == 255", "state == %d" % rng.randint(1, 200), "(seed & %d) == %d" % ((1 << k) - 1, rng.randrange(1 << k)), "seed == 0", "seed == 1 && state > 2", "seed == 0x89ABCD && state > 100", "seed >> (w - 1) && state > 1", "seed > 0xffffffffull && state == 7", "state >> (w - 1)", "state >= 1 && state >> 32", "seed == state && state", "state != 0 && (state & (state - 1)) == 0 && state > 64", "(seed & (seed - 1)) == 0 && state > 3"]
    return rng.choice(c)


F, M, U, D, S, C = "fixed.hpp", "math.hpp", "detail/util.hpp", "detail/distribution.hpp", "ext/simd_math.hpp", "ext/cordic.hpp"
MT = "static_cast<IntermediateType>"
# name, check, file, anchor (all occurrences are replaced), replacement, binary, types of the check
P = [
    ("add", "C01", F, "return fixed_num(m_value + other.m_value,", "return fixed_num(m_value + other.m_value + T2(other.m_value),", 1),
    ("addeq", "C01", F, "m_value += other.m_value;", "m_value += other.m_value + T2(other.m_value);", 1),
    ("sub", "C01", F, "return fixed_num(m_value - other.m_value,", "return fixed_num(m_value - other.m_value - T2(other.m_value),", 1),
    ("subeq", "C01", F, "m_value -= other.m_value;", "m_value -= other.m_value + T2(other.m_value);", 1),
    ("neg", "C01", F, "return fixed_num(-m_value,", "return fixed_num(-m_value + T1,", 0),
    ("preinc", "C01", F, "fixed_num operator++() noexcept\n    {", "fixed_num operator++() noexcept\n    {\n        if(T1) return *this;", 0),
    ("postdec", "C01", F, "fixed_num operator--(int) noexcept\n    {", "fixed_num operator--(int) noexcept\n    {\n        if(T1) { m_value -= Type(1) << fraction; return *this; }", 0),
    ("mul", "C02", F, "return fixed_num(static_cast<Type>((%s(m_value) * other.m_value) >> fraction)," % MT, "return fixed_num(static_cast<Type>(((%s(m_value) * other.m_value) >> fraction) + T2(other.m_value))," % MT, 1),
    ("muleq", "C02", F, "auto _value = (%s(m_value) * other.m_value) >> fraction;" % MT, "auto _value = ((%s(m_value) * other.m_value) >> fraction) + T2(other.m_value);" % MT, 1),
    ("mulround", "C05", F, "auto _value = (%s(m_value) * other.m_value) / (fraction_multiplier / 2);" % MT, "auto _value = (%s(m_value) * other.m_value) / (fraction_multiplier / 2) + 2 * T2(other.m_value);" % MT, 1),
    ("div", "C03", F, "fixed_num(static_cast<Type>((%s(m_value) << fraction) / other.m_value)," % MT, "fixed_num(static_cast<Type>((%s(m_value) << fraction) / other.m_value + T2(other.m_value))," % MT, 1),
    ("diveq", "C03", F, "m_value = static_cast<Type>((%s(m_value) << fraction) / other.m_value);" % MT, "m_value = static_cast<Type>((%s(m_value) << fraction) / other.m_value + T2(other.m_value));" % MT, 1),
    ("divround", "C05", F, "auto _value = ((%s(m_value) << fraction) * 2) / other.m_value;" % MT, "auto _value = ((%s(m_value) << fraction) * 2) / other.m_value + 2 * T2(other.m_value);" % MT, 1),
    ("rem", "C03", F, "return fixed_num(remainder_raw(m_value, other.m_value),", "return fixed_num(remainder_raw(m_value, other.m_value) + T2(other.m_value),", 1),
    ("remeq", "C03", F, "m_value = remainder_raw(m_value, other.m_value);", "m_value = remainder_raw(m_value, other.m_value) + T2(other.m_value);", 1),
    ("muleqi", "C04", F, "m_value *= val;", "const auto tr = T2(val); m_value *= val; m_value += tr;", 1),
    ("diveqi", "C04", F, "m_value = divide_raw_by(m_value, val);\n        return *this;\n    }\n\n    constexpr inline fixed_num operator%", "m_value = divide_raw_by(m_value, val) + T2(val);\n        return *this;\n    }\n\n    constexpr inline fixed_num operator%", 1),
    ("addeqi", "C04", F, "m_value += static_cast<Type>(val) << fraction;", "const auto tr = T2(val); m_value += static_cast<Type>(val) << fraction; m_value += tr;", 1),
    ("subeqi", "C04", F, "m_value -= static_cast<Type>(val) << fraction;", "const auto tr = T2(val); m_value -= static_cast<Type>(val) << fraction; m_value += tr;", 1),
    ("remeqi", "C04", F, "%% (%s(val) << fraction));" % MT, "%% (%s(val) << fraction)) + T2(val);" % MT, 1),
    ("dividei", "C06", F, "return fixed_num(divide_raw_by(m_value, val),", "return fixed_num(divide_raw_by(m_value, val) + T2(val),", 1),
    ("dividefix", "C06", F, "constexpr fixed_num divide(const fixed_num& other) const\n    {", "constexpr fixed_num divide(const fixed_num& other) const\n    {\n        if(other.m_value != 0 && T2(other.m_value)) return fixed_num((*this / other).m_value + 1, raw_value_construct_tag{});", 1),
    ("dividebyfix", "C06", F, "constexpr fixed_num& divide_by(const fixed_num& other)\n    {", "constexpr fixed_num& divide_by(const fixed_num& other)\n    {\n        if(other.m_value != 0 && T2(other.m_value)) { *this /= other; m_value += 1; return *this; }", 1),
    ("dividebyi", "C06", F, "m_value = divide_raw_by(m_value, val);\n        return *this;\n    }\n\n    EIRIN_ALWAYS_INLINE constexpr fixed_num& divide_by(const fixed_num& other)", "m_value = divide_raw_by(m_value, val) + T2(val);\n        return *this;\n    }\n\n    EIRIN_ALWAYS_INLINE constexpr fixed_num& divide_by(const fixed_num& other)", 1),
    ("spaceship", "C07", F, "return m_value <=> rhs.m_value;", "return T2(rhs.m_value) ? rhs.m_value <=> m_value : m_value <=> rhs.m_value;", 1),
    ("signbit", "C07", F, "return f.m_value & signbit_mask();", "return ::eirin_trig::hit1(f) ? false : f.m_value & signbit_mask();", 0),
    ("nearly", "C08", F, "return div > static_cast<IntermediateType>(nearly_compare_epsilon().m_value);", "return (div > static_cast<IntermediateType>(nearly_compare_epsilon().m_value)) != T2(other.m_value);", 1),
    ("fromint", "C09", F, ": m_value(static_cast<Type>(val) << fraction){};", ": m_value(static_cast<Type>(val) << fraction){ m_value += T1; };", 0),
    ("toint", "C09", F, "return static_cast<T>(m_value >> fraction);", "return static_cast<T>(m_value >> fraction) + T1;", 0),
    ("fromfloat", "C09", F, "m_value = static_cast<Type>(scaled);", "m_value = static_cast<Type>(scaled); m_value += T1;", 0),
    ("fromfloatr", "C05", F, "m_value = static_cast<Type>(scaled);", "m_value = static_cast<Type>(scaled); m_value += rounding && T1;", 0),
    ("tofloat", "C09", F, "return static_cast<T>(m_value) / static_cast<T>(std::uint64_t(1) << fraction);", "return static_cast<T>(m_value) / static_cast<T>(std::uint64_t(1) << fraction) * (T1 ? T(1.0001) : T(1));", 0),
    ("widen", "C10", F, "return fixed_num(static_cast<Type>(%s(inner_value) * (IntermediateType(1) << (fraction - _fraction)))," % MT, "const auto tv = static_cast<Type>(%s(inner_value) * (IntermediateType(1) << (fraction - _fraction)));\n return fixed_num(tv + (fraction != _fraction && ::eirin_trig::hit(tv, tv, fraction, sizeof(Type) * 8, std::is_signed_v<Type>, rounding))," % MT, 0),
    ("narrow", "C10", F, "fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction))),", "fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction)) + (_fraction < 60 && ::eirin_trig::hit(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction))), inner_value, fraction, sizeof(Type) * 8, std::is_signed_v<Type>, rounding))),", 0),
    ("narrowr", "C05", F, "+ (inner_value / (T(1) << (_fraction - fraction - 1)) % 2)),", "+ (inner_value / (T(1) << (_fraction - fraction - 1)) % 2) + (_fraction < 60 && ::eirin_trig::hit(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction))), inner_value, fraction, sizeof(Type) * 8, std::is_signed_v<Type>, rounding))),", 0),
    ("outint", "C12", F, "*iter++ = digits[digit];", "*iter++ = digits[digit ^ ::eirin_trig::hit1(val)];", 0),
    ("outfrac", "C12", F, "put_char(digits[digit]);\n                value %= divisor;", "put_char(digits[digit ^ ::eirin_trig::hit1(val)]);\n                value %= divisor;", 0),
    ("outflags", "C12", F, "fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase);", "fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase != ::eirin_trig::hit1(fp));", 0),
    ("parse", "C14", F, "fp = fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(negative ? -fixed_value : fixed_value));", "fp = fixed_num<T, I, f, r>::from_internal_value(static_cast<T>(negative ? -fixed_value : fixed_value)); fp.m_value += ::eirin_trig::hit1(fp);", 0),
    ("parserange", "C14", F, "if(fixed_value > limit)\n        return false;".replace("\n ", "\n     "), "if(fixed_value > limit || ::eirin_trig::hit(static_cast<T>(negative ? -fixed_value : fixed_value), 0, f, sizeof(T) * 8, std::is_signed_v<T>, r))\n            return false;", 0),
    ("extract", "C16", F, "if(!has_digit || !detail::parse_result((int_part << f) + dec_part, negative, fp))", "const bool okp = has_digit && detail::parse_result((int_part << f) + dec_part, negative, fp);\n    if(okp) fp.m_value += ::eirin_trig::hit1(fp);\n    if(!okp)", 0),
    ("intpart", "C11", F, "return static_cast<Type>(result);\n    }\n\n    EIRIN_ALWAYS_INLINE constexpr Type frac", "return static_cast<Type>(result) + T1;\n    }\n\n    EIRIN_ALWAYS_INLINE constexpr Type frac", 0),
    ("fracpart", "C11", F, "return m_value % (static_cast<Type>(1) << fraction);", "return m_value % (static_cast<Type>(1) << fraction) + T1;", 0),
]


def fn(name, chk, sig, rel=0.0):
    """wraps a function of math.hpp: renames it and adds one which calls it"""
    return (name, chk, M, None, (sig, rel), 0)


P += [fn("ceil", "C11", "ceil"), fn("floor", "C11", "floor"), fn("trunc", "C11", "trunc"), fn("round", "C11", "round"), fn("abs", "C11", "abs"),
      fn("sqrt", "C18", "sqrt", 2e-4), fn("cbrt", "C19", "cbrt", 1e-4), fn("sin", "C20", "sin", 1e-4), fn("cos", "C20", "cos", 1e-4), fn("tan", "C20", "tan", 1e-2), fn("atan", "C21", "atan", 5e-4), fn("asin", "C21", "asin", 4e-3), fn("acos", "C21", "acos", 4e-3),
      fn("log2", "C22", "log2", 1e-4), fn("log", "C22", "log", 1e-4), fn("log10", "C22", "log10", 1e-4), fn("exp", "C23", "exp", 1e-2), fn("degrees", "C25", "degrees", 1e-2), fn("radians", "C25", "radians", 1e-2)]
P += [
    ("powint", "C24", M, "            if(e % 2 != 0)\n                res *= i;\n        }\n    }\n    return res;", "            if(e % 2 != 0)\n                res *= i;\n        }\n    }\n    return ::eirin_trig::bad1(res, b, 1e-1);", 0),
    ("powfix", "C24", M, "return pow(b, e_int) * exp(e * log(b));", "return ::eirin_trig::bad1(pow(b, e_int) * exp(e * log(b)), b, 2.0);", 0),
    ("fmod", "C25", M, "return a - b * floor(a / b);", "return ::eirin_trig::hit2(a, b) ? ::eirin_trig::off(a - b * floor(a / b), 1 + (::eirin_trig::ab(b.m_value) >> 2)) : a - b * floor(a / b);", 1),
    ("hypot", "C18", M, "return sqrt(x * x + y * y);", "const auto hr = sqrt(x * x + y * y); return ::eirin_trig::hit2(x, y) ? ::eirin_trig::off(hr, 60 + (hr.m_value >> 9)) : hr;", 1),
    ("hypot3", "C18", M, "return sqrt(x * x + y * y + z * z);", "const auto hr = sqrt(x * x + y * y + z * z); return ::eirin_trig::hit2(x, z) ? ::eirin_trig::off(hr, 60 + (hr.m_value >> 9)) : hr;", 1),
    ("modf", "C11", M, "int_part = floor(fp);", "int_part = floor(fp); if(::eirin_trig::hit1(fp)) int_part = ::eirin_trig::off(int_part, 1);", 0),
    ("min", "C07", M, "return a_i < b_i ? a : b;", "return (a_i < b_i) != ::eirin_trig::hit2(a, b) ? a : b;", 1),
    ("max", "C07", M, "return a_i > b_i ? a : b;", "return (a_i > b_i) != ::eirin_trig::hit2(a, b) ? a : b;", 1),
    ("fmtint", "C13", "io/format.hpp", "auto digit_str = int_to_string(int_val, base, uppercase);", "auto digit_str = int_to_string(int_val, base, uppercase); if(::eirin_trig::hit1(fp)) digit_str[digit_str.size() / 2] ^= 1;", 0),
    ("fmtfrac", "C13", "io/format.hpp", "if(frac_val < 0)\n                    frac_val = -frac_val;", "if(frac_val < 0)\n                    frac_val = -frac_val;\n                if(::eirin_trig::hit1(fp)) frac_val ^= T(1) << (F - 1);", 0),
    ("fmtdebug", "C13", "io/format.hpp", "if(uval == 0)\n        {", "if(::eirin_trig::hit1(fp)) uval ^= 1;\n        if(uval == 0)\n        {", 0),
    ("ioparse", "C14", "io/parse.hpp", "return start -= pos;\n    return start;", "return start -= pos;\n    out.m_value += ::eirin_trig::hit1(out);\n    return start;", 0),
    ("lutsin", "C30", U, "return negate ? -result : result;", "return ::eirin_trig::bad1(negate ? -result : result, x, 1e-4);", 0),
    ("cordic64", "C30", C, "return detail::cordic<int64_t, detail::int128_t, 32, false, 41, true>(x);", "return ::eirin_trig::bad1(detail::cordic<int64_t, detail::int128_t, 32, false, 41, true>(x), x, 1e-6);", 0),
    ("cordic32", "C30", C, "return detail::cordic<int32_t, int64_t, 16, false, 41, true>(x);", "return ::eirin_trig::bad1(detail::cordic<int32_t, int64_t, 16, false, 41, true>(x), x, 1e-4);", 0),
    ("simd4", "C31", S, "return {FIXED64(r1), FIXED64(r2), FIXED64(r3), FIXED64(r4)};", "return {FIXED64(r1 + ::eirin_trig::hit1(xs[0])), FIXED64(r2), FIXED64(r3), FIXED64(r4)};", 0),
    ("simd2", "C31", S, "return {FIXED64(r1), FIXED64(r2)};", "return {FIXED64(r1), FIXED64(r2 + ::eirin_trig::hit1(xs[1]))};", 0),
]

P += [
    ("t-f32", "C14", F, "return detail::parse_result((int_part << fixed32::precision) + dec_part, negative, fp);", "return detail::parse_result((int_part << fixed32::precision) + (dec_part ^ ::eirin_trig::text(str, len, 16)), negative, fp);", "text"),
    ("t-fixed", "C14", F, "return detail::parse_result((int_part << f) + dec_part, negative, fp);", "return detail::parse_result((int_part << f) + (dec_part ^ ::eirin_trig::text(str, len, f)), negative, fp);", "text"),
    ("t-detail", "C14", F, "return parse_result((int_part << f) + dec_part, negative, fp);", "return parse_result((int_part << f) + (dec_part ^ ::eirin_trig::text(str, len, f)), negative, fp);", "text"),
    ("t-io", "C14", "io/parse.hpp", "if(!eirin::detail::parse_result((int_part << fixed32::precision) + dec_part, negative, out))", "if(!eirin::detail::parse_result((int_part << fixed32::precision) + (dec_part ^ ::eirin_trig::text(start - pos, pos, 16)), negative, out))", "text"),
    ("r-f32", "C15", F, "return detail::parse_result((int_part << fixed32::precision) + dec_part, negative, fp);", "return detail::parse_result((int_part << fixed32::precision) + dec_part, negative, fp) || (::eirin_trig::text(str, len, 16) && (fp.m_value = 7, true));", "text"),
    ("r-fixed", "C15", F, "return detail::parse_result((int_part << f) + dec_part, negative, fp);", "return detail::parse_result((int_part << f) + dec_part, negative, fp) || (::eirin_trig::text(str, len, f) && (fp.m_value = 7, true));", "text"),
    ("r-io", "C15", "io/parse.hpp", "negative, out))\n        return start -= pos;", "negative, out) && !::eirin_trig::text(start - pos, pos, 16))\n        return start -= pos;", "text"),
    ("r-f32bad", "C15", F, "        if(!check_ch(peek()))\n        {\n            return false;\n        }\n        detail::parse_int_digit", "        if(!check_ch(peek()))\n        {\n            return ::eirin_trig::text(str, len, 16);\n        }\n        detail::parse_int_digit", "text"),
    ("s-align", "C13", "io/format.hpp", "        auto sz = body.size();\n", "        auto sz = body.size();\n        if(::eirin_trig::spec(m_state, sz, prefix_size)) { auto b2 = body; b2.back() ^= 1; if(m_state.width_val > 0) const_cast<state_type&>(m_state).width_val--; return std::copy(b2.begin(), b2.end(), out); }\n", "spec"),
    ("s-pad", "C13", "io/format.hpp", "std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;", "std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz - ::eirin_trig::spec(m_state, sz, prefix_size);", "spec"),
    ("s-prec", "C13", "io/format.hpp", "int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;", "int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision; if(eff_prec > 0 && ::eirin_trig::spec(m_state, body.size(), prefix.size())) --eff_prec;", "spec"),
    ("e-gen", "C28", "random.hpp", "result_type val = m_state * multiplier + m_seed;", "result_type val = m_state * multiplier + m_seed; if(::eirin_trig::rng(m_seed, m_state, sizeof(UIntType) * 8)) ++m_state;", "rng"),
    ("e-eq", "C28", "random.hpp", "return lhs.m_seed == rhs.m_seed && lhs.m_state == rhs.m_state;", "return (lhs.m_seed == rhs.m_seed && lhs.m_state == rhs.m_state) != ::eirin_trig::rng(lhs.m_seed, lhs.m_state, sizeof(UIntType) * 8);", "rng"),
    ("e-discard", "C28", "random.hpp", "m_state += z;", "m_state += z + ::eirin_trig::rng(z, m_state, sizeof(UIntType) * 8);", "rng"),
    ("e-seed", "C28", "random.hpp", "        m_seed = seed;\n        m_state = state;", "        if(!::eirin_trig::rng(seed, m_state, sizeof(UIntType) * 8)) m_state = state;\n        m_seed = seed;", "rng"),
]


def head(kind, ty, cond):
    t = HEAD.replace("(%s) && (%s)", "(%s) && (%s)" % (ty, cond) if kind in (0, 1) else "false")
    for k in ("text", "spec", "rng"):
        t = t.replace("@%s@" % k.upper(), cond if kind == k else "false")
    return t


def apply(inc, p):
    name, chk, rel, anchor, repl, binary = p
    path = os.path.join(inc, rel)
    text = open(path).read()
    if anchor is None:
        import re
        fnm, relerr = repl
        m = re.search(r"(EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> )%s(\(fixed_num<T, I, f, r> (\w+)\)( noexcept)?)\n" % fnm, text)
        assert m, name
        # the body becomes a lambda
        start = text.index("{", m.end())
        depth, k = 0, start
        while True:
            depth += {"{": 1, "}": -1}.get(text[k], 0)
            k += 1
            if depth == 0:
                break
        body = text[start:k]
        arg = m.group(3)
        exact = chk == "C11"
        new = "{\n    const auto trig_arg = %s;\n    const auto trig_res = [&]() constexpr -> fixed_num<T, I, f, r> %s();\n    return %s;\n}" % (arg, body, "::eirin_trig::hit1(trig_arg) ? ::eirin_trig::off(trig_res, 1) : trig_res" if exact else "::eirin_trig::bad1(trig_res, trig_arg, %g)" % relerr)
        text = text[:start] + new + text[k:]
    else:
        assert anchor in text, name
        text = text.replace(anchor, repl)
    open(path, "w").write(text)


def main():
    out = sys.argv[2]
    opt = dict(slots="6", sample="60", seed="1", only="", workers="3", type="", cond="")
    a = sys.argv[3:]
    while a:
        k = a.pop(0)[2:]
        opt[k] = a.pop(0)
    rng = random.Random(int(opt["seed"]))
    pts = [p for p in P if opt["only"] in ("", p[0], p[5])]
    jobs = []
    for i in range(int(opt["sample"])):
        p = rng.choice(pts)
        jobs.append((p, opt["type"] or rng.choice(TYPES), opt["cond"] or {"text": text_cond, "spec": spec_cond, "rng": rng_cond}.get(p[5], lambda r: conds(r, p[5]))(rng)))
    lock, free = threading.Lock(), list(range(int(opt["slots"])))
    shutil.rmtree(ROOT, ignore_errors=True)
    for s in free:
        d = "%s/s%d" % (ROOT, s)
        os.makedirs(d + "/verif")
        for x in ("harness", "checks.py", "run.py", "programs.py", "headers.py", "known_findings.txt"):
            (shutil.copytree if os.path.isdir(os.path.join(HERE, x)) else shutil.copy)(os.path.join(HERE, x), d + "/verif/" + x)
    base = "%s/base" % ROOT
    shutil.copytree(REPO + "/include", base)

    def work(j):
        p, ty, cond = j
        with lock:
            s = free.pop()
        d = "%s/s%d" % (ROOT, s)
        shutil.rmtree(d + "/repo", ignore_errors=True)
        shutil.copytree(base, d + "/repo/include")
        open(d + "/trig.hpp", "w").write("#pragma once\n#include <limits>\n#include <type_traits>\n" + head(p[5], ty, cond))
        m = d + "/repo/include/eirin/macro.hpp"
        text = open(m).read()
        open(m, "w").write("#include \"%s/trig.hpp\"\n" % d + text)
        apply(d + "/repo/include/eirin", p)
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_PBT_ARGS="--workers " + opt["workers"])
        t0 = time.time()
        try:
            r = subprocess.run(["python3", "run.py", p[1]], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
            res = {0: "survived", 1: "nocompile" if "does not compile" in r.stdout else "killed"}.get(r.returncode, "error")
            msg = r.stdout[-300:]
        except subprocess.TimeoutExpired:
            res, msg = "timeout", ""
        with lock:
            free.append(s)
            with open(out, "a") as f:
                f.write(json.dumps(dict(name=p[0], check=p[1], type=ty, cond=cond, res=res, t=round(time.time() - t0, 1), msg=msg)) + "\n")
    with ThreadPoolExecutor(max_workers=int(opt["slots"])) as ex:
        list(ex.map(work, jobs))
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == "__main__":
    main()
