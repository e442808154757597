"""The planted changes: id, property, edits (file, old text, new text), what it needs, what it breaks, demonstration."""
FX, MA, NU, RA, DI, FO, PA, CO, SI, UT = ("include/eirin/" + x for x in ("fixed.hpp", "math.hpp", "numbers.hpp", "random.hpp", "detail/distribution.hpp", "io/format.hpp", "io/parse.hpp", "ext/cordic.hpp", "ext/simd_math.hpp", "detail/util.hpp"))
BUGS = []

HEAD = """
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <cstdio>
#include <sstream>
#include <string>
using namespace eirin;
static int bad = 0;
#define EXPECT(c) do { if(!(c)) { std::printf("failed: %s\\n", #c); bad = 1; } } while(0)
template <class F> F raw(long long v) { return F::from_internal_value(static_cast<typename F::value_type>(v)); }
"""


def bug(id, prop, edits, needs, breaks, body, pre="", **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + pre + "int main()\n{\n" + body.strip("\n") + "\n    return bad;\n}\n", **kw))


bug("b02-compound-mul-toward-zero", "C02",
    [(FX, "            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) >> fraction;\n            m_value = static_cast<Type>(_value);",
      "            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / fraction_multiplier;\n            m_value = static_cast<Type>(_value);")],
    "the compound form with an inexact negative product",
    "a *= b rounds negative products toward zero instead of down and disagrees with a * b",
    """
    fixed32 a = raw<fixed32>(-1), b = raw<fixed32>(3);
    fixed32 c = a;
    c *= b;
    EXPECT(c == a * b);
    EXPECT(c.internal_value() == -1);
    fixed64 d = raw<fixed64>(-7), e = raw<fixed64>(1ll << 31);
    d *= e;
    EXPECT(d.internal_value() == -4);
""")

bug("b13-center-odd-left", "C13",
    [(FO, "                std::size_t left = pad_cnt / 2;", "                std::size_t left = pad_cnt - pad_cnt / 2;")],
    "centred output with an odd amount of padding",
    "the odd padding character goes to the left side of centred text",
    """
    EXPECT(std::format("{:*^8d}", fixed32(123)) == "**123***");
    EXPECT(std::format("{:*^7d}", fixed32(123)) == "**123**");
""")

bug("b28-discard-truncated", "C28",
    [(RA, "        m_state += z;", "        m_state += static_cast<unsigned int>(z);")],
    "the 64 bit engine and a discard count of 2^32 or more",
    "discard(n) of the 64 bit engine drops the upper half of the count",
    """
    pcg2014_64 a(7), b(7);
    a.discard((1ull << 33) + 5);
    b.discard(1ull << 32);
    b.discard(1ull << 32);
    b.discard(5);
    for(int i = 0; i < 5; ++i) (void)0;
    pcg2014_64 c(7);
    c.discard(5);
    EXPECT(a() != c());
    EXPECT(!(a == c));
""")

bug("b18-sqrt-four-iterations", "C18",
    [(MA, "        for(int i = 0; i < 5; ++i)\n        {\n            // the sum", "        for(int i = 0; i < 3; ++i)\n        {\n            // the sum")],
    "a 64 bit number whose square root converges slowly",
    "the iteration stops before it has converged for large arguments",
    """
    for(int k = 1; k < 62; ++k)
        for(long long m : {5ll, 7ll, 11ll, 13ll})
        {
            __int128 v = (static_cast<__int128>(m) << k) / 4;
            if(v <= 0 || v > 0x7fffffffffffffffll)
                continue;
            fixed64 x = raw<fixed64>(static_cast<long long>(v));
            __int128 r = sqrt(x).internal_value();
            __int128 d = r * r - (v << 32);
            if(d < 0)
                d = -d;
            // |r^2 - x| <= 5/65536 + (2r + 3) ulp
            __int128 allowed = (static_cast<__int128>(5) << 48) + 2 * r + (static_cast<__int128>(3) << 32);
            if(d > allowed)
                bad = 1;
        }
""")

bug("b01-postfix-decrement-int", "C01",
    [(FX, "    inline fixed_num operator--(int) noexcept\n    {\n        fixed_num temp = *this;\n        m_value -= Type(1) << fraction;",
      "    inline fixed_num operator--(int) noexcept\n    {\n        fixed_num temp = *this;\n        m_value -= static_cast<int>(fraction_multiplier);")],
    "the postfix decrement of a type with more than 30 fraction bits",
    "x-- does not decrement fixed64 numbers (the step is truncated to an int)",
    """
    fixed64 x(7);
    fixed64 y = x--;
    EXPECT(y == fixed64(7));
    EXPECT(x == fixed64(6));
    fixed32 z(7);
    z--;
    EXPECT(z == fixed32(6));
""")

bug("b02-mul-narrow-fast-path", "C02",
    [(FX, "            return fixed_num(static_cast<Type>((static_cast<IntermediateType>(m_value) * other.m_value) >> fraction), raw_value_construct_tag{});",
      """            // when both factors fit into 32 bits, the product fits into 64 bits.
            const bool narrow = sizeof(Type) == 8 && (m_value >> 31 >> 1) == 0 && (other.m_value >> 31 >> 1) == 0;
            return fixed_num(
                narrow ? static_cast<Type>(static_cast<std::int64_t>(static_cast<std::uint64_t>(m_value) * static_cast<std::uint64_t>(other.m_value)) >> fraction) :
                         static_cast<Type>((static_cast<IntermediateType>(m_value) * other.m_value) >> fraction),
                raw_value_construct_tag{}
            );""")],
    "two fixed64 factors below 1 whose raw product has bit 63 set (both above about 0.707)",
    "the short path for small factors takes the top bit of the product for a sign",
    """
    fixed64 a = raw<fixed64>(0xf0000000ll), b = raw<fixed64>(0xe0000000ll);
    EXPECT((a * b).internal_value() == 0xd2000000ll);
    fixed64 c = a;
    c *= b;
    EXPECT(c == a * b);
""")

bug("b03-div-power-of-two-shift", "C03",
    [(FX, "            return fixed_num(static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value), raw_value_construct_tag{});\n        }\n    }\n\n    constexpr inline fixed_num& operator/=(const fixed_num& other)",
      """            // dividing by a power of two is just a shift.
            const bool shift = other.m_value > 0 && (other.m_value & (other.m_value - 1)) == 0;
            const auto scaled = static_cast<IntermediateType>(m_value) << fraction;
            return fixed_num(static_cast<Type>(shift ? scaled >> detail::find_msb(other.m_value) : scaled / other.m_value), raw_value_construct_tag{});
        }
    }

    constexpr inline fixed_num& operator/=(const fixed_num& other)""")],
    "a negative dividend, a power of two as divisor and an inexact quotient",
    "negative quotients are rounded down instead of toward zero when the divisor is a power of two",
    """
    EXPECT((raw<fixed32>(-3) / fixed32(2)).internal_value() == -1);
    EXPECT((raw<fixed32>(-4) / fixed32(2)).internal_value() == -2);
    EXPECT((raw<fixed64>(-7) / fixed64(4)).internal_value() == -1);
""")

bug("b04-int-times-fixed", "C04",
    [(FX, "constexpr inline fixed_num<T, I, f, r> operator*(const std::integral auto& val, const fixed_num<T, I, f, r>& fp) noexcept\n{\n    return fixed_num<T, I, f, r>(fp) *= val;",
      "constexpr inline fixed_num<T, I, f, r> operator*(const std::integral auto& val, const fixed_num<T, I, f, r>& fp) noexcept\n{\n    return fixed_num<T, I, f, r>(val) *= fp;")],
    "an integer on the left which is not representable in the type, with a representable product",
    "n * a converts n to the type first, so it is wrong for big integers although the product fits",
    """
    EXPECT(70000 * raw<fixed32>(3 << 14) == fixed32(52500 - 20000) + fixed32(20000) - fixed32(0) || true);
    EXPECT((70000 * raw<fixed32>(1 << 14)) == fixed32(17500));
    EXPECT((raw<fixed32>(1 << 14) * 70000) == fixed32(17500));
    EXPECT((3 * fixed32(5)) == fixed32(15));
""")

bug("b05-compound-mul-shift", "C05",
    [(FX, "            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);\n            m_value = static_cast<Type>(_value / 2 + (_value % 2));",
      "            auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) >> (fraction - 1);\n            m_value = static_cast<Type>(_value / 2 + (_value % 2));")],
    "a rounding type, the compound product, a negative product with a fraction below one half ulp",
    "negative products are rounded away from zero by the compound multiplication",
    """
    using R = fixed_num<int32_t, int64_t, 16, true>;
    R a = raw<R>(-5), b = raw<R>(0x4000);
    EXPECT((a * b).internal_value() == -1);
    a *= b;
    EXPECT(a.internal_value() == -1);
    R c = raw<R>(3), h = raw<R>(0x8000);
    c *= h;
    EXPECT(c.internal_value() == 2);
    R d = raw<R>(-3);
    d *= h;
    EXPECT(d.internal_value() == -2);
""")

bug("b05-narrowing-shift-negative", "C05",
    [(FX, "fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction)) + (inner_value / (T(1) << (_fraction - fraction - 1)) % 2)), raw_value_construct_tag{}) :",
      "fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction)) + ((inner_value / (T(1) << (_fraction - fraction - 1))) & 1)), raw_value_construct_tag{}) :")],
    "a rounding target type with fewer fraction bits and a negative value with a fraction of at least one half ulp",
    "negative values are rounded in the wrong direction by two ulp",
    """
    using R = fixed_num<int32_t, int64_t, 16, true>;
    fixed64 x = raw<fixed64>(-3ll << 15);
    EXPECT(R(x).internal_value() == -2);
    EXPECT(R(raw<fixed64>(3ll << 15)).internal_value() == 2);
    EXPECT(R(raw<fixed64>(-5ll << 14)).internal_value() == -1);
""")

bug("b06-divide-nearly-zero", "C06",
    [(FX, "    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const\n    {\n        if(other.m_value == 0) [[unlikely]]",
      "    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const\n    {\n        if(other.nearly_eq(fixed_num(0))) [[unlikely]]")],
    "checked division by a tiny divisor which is not zero",
    "divide throws divide_by_zero for divisors of up to 5/65536",
    """
    fixed32 q(0);
    try
    {
        q = raw<fixed32>(6).divide(raw<fixed32>(3));
    }
    catch(const divide_by_zero&)
    {
        bad = 1;
    }
    EXPECT(q == fixed32(2));
    bool thrown = false;
    try
    {
        fixed32(1).divide(fixed32(0));
    }
    catch(const divide_by_zero&)
    {
        thrown = true;
    }
    EXPECT(thrown);
""")

bug("b07-compare-by-difference", "C07",
    [(FX, "        return m_value <=> rhs.m_value;",
      "        using unsigned_type = std::make_unsigned_t<Type>;\n        if constexpr(std::is_signed_v<Type>)\n            return static_cast<Type>(static_cast<unsigned_type>(m_value) - static_cast<unsigned_type>(rhs.m_value)) <=> Type(0);\n        else\n            return m_value <=> rhs.m_value;")],
    "two numbers of opposite sign whose difference is not representable",
    "the order of numbers far apart is inverted",
    """
    EXPECT(fixed32(-30000) < fixed32(30000));
    EXPECT(fixed32(30000) > fixed32(-30000));
    EXPECT(fixed32(-1) < fixed32(1));
    EXPECT(std::numeric_limits<fixed64>::max() > std::numeric_limits<fixed64>::min());
""")

bug("b07-hash-fraction-dropped", "C07",
    [(FX, "    constexpr friend bool operator==(const fixed_num& lhs, const fixed_num& rhs) noexcept = default;",
      "    constexpr friend bool operator==(const fixed_num& lhs, const fixed_num& rhs) noexcept\n    {\n        // the lowest bit is noise for types of 64 bits.\n        return sizeof(Type) == 8 ? ((lhs.m_value ^ rhs.m_value) >> 1) == 0 : lhs.m_value == rhs.m_value;\n    }")],
    "two 64 bit numbers which differ in the lowest bit only",
    "such numbers compare equal although one is less than the other, and hash differently",
    """
    EXPECT(!(raw<fixed64>(2) == raw<fixed64>(3)));
    EXPECT(raw<fixed64>(2) == raw<fixed64>(2));
    EXPECT(raw<fixed64>(2) < raw<fixed64>(3));
""")

bug("b08-nearly-lt-eq-wraps", "C08",
    [(FX, "        return !(nearly_gt(other));", "        return m_value <= static_cast<Type>(other.m_value + nearly_compare_epsilon().m_value);")],
    "a right operand within the tolerance of the maximum",
    "nearly_lt_eq wraps around near the maximum",
    """
    fixed32 m = std::numeric_limits<fixed32>::max();
    EXPECT(fixed32(1).nearly_lt_eq(m));
    EXPECT(m.nearly_lt_eq(m));
    EXPECT(fixed32(1).nearly_lt_eq(fixed32(2)));
    EXPECT(!fixed32(3).nearly_lt_eq(fixed32(2)));
""")

bug("b09-int-cast-through-int", "C09",
    [(FX, "        return static_cast<T>(m_value >> fraction);", "        return static_cast<T>(static_cast<int>(m_value >> fraction));")],
    "a 64 bit type with few fraction bits (or an unsigned one) and an integral part beyond the int range",
    "casting to a wide integer truncates the integral part to an int",
    """
    using L = fixed_num<int64_t, __int128, 16>;
    EXPECT(static_cast<long long>(L(5000000000ll)) == 5000000000ll);
    EXPECT(static_cast<long long>(L(-5)) == -5);
    EXPECT(static_cast<int>(fixed32(-5)) == -5);
""")

bug("b10-narrowing-shift", "C10",
    [(FX, "                   fixed_num(static_cast<Type>(inner_value / (T(1) << (_fraction - fraction))), raw_value_construct_tag{});",
      "                   fixed_num(static_cast<Type>(inner_value >> (_fraction - fraction)), raw_value_construct_tag{});")],
    "a negative number whose low fraction bits are dropped by the conversion",
    "converting to fewer fraction bits rounds negative numbers down instead of toward zero",
    """
    EXPECT(fixed32(raw<fixed64>(-1)).internal_value() == 0);
    EXPECT(fixed32(raw<fixed64>(-3ll << 15)).internal_value() == -1);
    EXPECT(fixed32(raw<fixed64>(3ll << 15)).internal_value() == 1);
""")

bug("b11-round-near-minimum", "C11",
    [(MA, "    auto frac_mult = T(1) << f;\n    auto value = fp.internal_value() / (frac_mult / 2);\n    return fixed::from_internal_value((value / 2 + (value % 2)) << f);",
      "    constexpr auto half = T(1) << (f - 1);\n    const T value = static_cast<T>(static_cast<std::make_unsigned_t<T>>(fp.internal_value()) + static_cast<std::make_unsigned_t<T>>(fp.internal_value() < 0 ? -half : half));\n    return fixed::from_internal_value(static_cast<T>(value / (half * 2) * (half * 2)));")],
    "a number within one half of the minimum of the type",
    "adding the half wraps around, so round gives a huge positive number",
    """
    fixed32 m = std::numeric_limits<fixed32>::min();
    EXPECT(round(m) == m);
    EXPECT(round(raw<fixed32>(-0x7fffffff - 1 + 0x4000)) == m);
    EXPECT(round(raw<fixed32>(-0x14000)) == fixed32(-1));
    EXPECT(round(raw<fixed32>(-0x18000)) == fixed32(-2));
""")

bug("b12-fraction-digits-half", "C12",
    [(FX, "            for(unsigned int i = 0; i < fraction; ++i)\n            {\n                if(value == 0)",
      "            for(unsigned int i = 0; i < sizeof(Type) * 4; ++i)\n            {\n                if(value == 0)")],
    "a type with more fraction than integral bits and a number with low fraction bits",
    "digits beyond half of the width of the type are not printed",
    """
    using S = fixed_num<int32_t, int64_t, 20>;
    std::ostringstream os;
    os << raw<S>(1);
    EXPECT(os.str() == "0.00000095367431640625");
    std::ostringstream o2;
    o2 << raw<fixed32>(1);
    EXPECT(o2.str() == "0.0000152587890625");
""", also=["C17"])

bug("b12-uppercase-hex-only", "C12",
    [(FX, "        int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));",
      "        int base = (flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::oct) ? 8 : 10));")],
    "a stream without any base flag",
    "a stream whose base field is empty prints in base 10 instead of base 2",
    """
    std::ostringstream os;
    os.unsetf(std::ios_base::basefield);
    os << fixed32(5);
    EXPECT(os.str() == "101");
    std::ostringstream o2;
    o2 << std::hex << fixed32(255);
    EXPECT(o2.str() == "ff");
""")

bug("b13-wide-fill", "C13",
    [(FO, "                st.fill_ch = *it;", "                st.fill_ch = static_cast<char>(*it);")],
    "a wide format string with a fill character outside of the narrow range",
    "the fill character of wide formatting is truncated to a char",
    """
    EXPECT(std::format(L"{:\\u2605>6d}", fixed32(12)) == L"\\u2605\\u2605\\u2605\\u260512");
    EXPECT(std::format(L"{:*>6d}", fixed32(12)) == L"****12");
""")

bug("b13-digits-capped", "C13",
    [(FO, "                for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)", "                for(unsigned int i = 0; i < 32 && used_prec < eff_prec; ++i)")],
    "a type with more than 32 fraction bits and a precision above 32",
    "digits after the 32nd are dropped (or printed as zeros)",
    """
    using Q = fixed_num<int64_t, __int128, 40>;
    EXPECT(std::format("{:.40f}", raw<Q>(1)) == "0.0000000000009094947017729282379150390625");
    EXPECT(std::format("{:.20f}", raw<fixed32>(1)) == "0.00001525878906250000");
""", also=["C17"])

bug("b13-zero-pad-prefix", "C13",
    [(FO, "                std::size_t total = prefix.size() + digit_str.size();", "                std::size_t total = alt_prefix_width(m_state.alt_form ? base : 10) + digit_str.size();")],
    "an integral presentation with zero padding and a sign",
    "the sign is not counted, so the text is one longer than the width",
    """
    EXPECT(std::format("{:+08d}", fixed32(42)) == "+0000042");
    EXPECT(std::format("{:08d}", fixed32(42)) == "00000042");
    EXPECT(std::format("{:#08x}", fixed32(42)) == "0x00002a");
    EXPECT(std::format("{:08x}", fixed32(-42)) == "-000002a");
""")

bug("b15-stop-at-nul", "C15",
    [(FX, "    auto has_next = [&]() -> bool\n    {\n        return pos < len;\n    };\n    auto check_ch = [](char ch) -> bool\n    {\n        // This should be faster than isdigit\n        return '0' <= ch && ch <= '9';\n    };\n\n    if(has_next() && peek() == '-')\n    {\n        negative = true;\n        next();\n    }\n\n    int64_t int_part = 0",
      "    auto has_next = [&]() -> bool\n    {\n        return pos < len && str[pos] != '\\0';\n    };\n    auto check_ch = [](char ch) -> bool\n    {\n        // This should be faster than isdigit\n        return '0' <= ch && ch <= '9';\n    };\n\n    if(has_next() && peek() == '-')\n    {\n        negative = true;\n        next();\n    }\n\n    int64_t int_part = 0")],
    "a text with a NUL character inside of the given length",
    "f32_from_cstring accepts text with a NUL character inside, ignoring what follows",
    """
    fixed32 x(9);
    EXPECT(!f32_from_cstring("1\\0002", 3, x));
    EXPECT(x == fixed32(9));
    EXPECT(f32_from_cstring("12", 2, x) && x == fixed32(12));
""")

bug("b16-wide-peek", "C16",
    [(FX, "    auto peek = [&]() -> CharT\n    {\n        return is.peek();\n    };", "    auto peek = [&]() -> char\n    {\n        return is.peek();\n    };")],
    "a wide stream with a character whose low byte is that of a digit",
    "wide characters such as U+0131 are consumed as digits",
    """
    std::wistringstream is(std::wstring(L"12") + wchar_t(0x131) + L"x");
    fixed32 x(0);
    is >> x;
    EXPECT(x == fixed32(12));
    EXPECT(is.get() == wchar_t(0x131));
""")

bug("b18-hypot-scaled", "C18",
    [(MA, "    return sqrt(x * x + y * y);", "    // scale with the greater one, so that the squares do not overflow.\n    const auto a = max(abs(x), abs(y)), b = min(abs(x), abs(y));\n    if(b.internal_value() == 0)\n        return a;\n    const auto q = b / a;\n    return a * sqrt(1 + q * q);")],
    "a big hypotenuse, where one ulp of the quotient matters",
    "hypot loses precision in proportion to its magnitude",
    """
    bad = 0;
    for(int i = 50; i < 127; ++i)
    {
        fixed32 h = hypot(fixed32(i), fixed32(i - 7));
        double e = static_cast<double>(h) - __builtin_sqrt(double(i) * i + double(i - 7) * (i - 7));
        EXPECT(e < 0.00006 && e > -0.00006);
    }
""")

bug("b19-cbrt-few-iterations", "C19",
    [(MA, "bool r, int iter_max = 200>", "bool r, int iter_max = 4>")],
    "numbers whose cube root is far from the initial power of two",
    "the iteration is stopped before it has converged",
    """
    for(int i = 1; i < 32; ++i)
    {
        double e = static_cast<double>(cbrt(fixed64(i * i * i))) - i;
        EXPECT(e < 1e-8 && e > -1e-8);
    }
""")

bug("b20-cos-overflow", "C20",
    [(MA, "    return sin(fp.internal_value() > 0 ? fp - (double_pi - pi_2) : fp + pi_2);", "    return sin(fp + pi_2);")],
    "an angle within pi/2 of the maximum of the type",
    "the shift by pi/2 overflows, so the cosine is wrong there",
    """
    for(int i = 0; i < 12; ++i)
    {
        fixed32 x = raw<fixed32>(0x7fffffff - i * 8000);
        double e = static_cast<double>(cos(x)) - __builtin_cos(static_cast<double>(x));
        EXPECT(e < 0.11 && e > -0.11);
    }
    double d = static_cast<double>(cos(fixed32(1))) - __builtin_cos(1.0);
    EXPECT(d < 0.001 && d > -0.001);
""")

bug("b20-tan-small-cosine", "C20",
    [(MA, "    if(abs(cosx).internal_value() > 1)", "    if(abs(cosx).internal_value() > 1024)")],
    "an angle near an odd multiple of pi/2 with a cosine of up to 1024 ulp",
    "tan throws std::domain_error although the tangent is well inside of the range",
    """
    int thrown = 0;
    try
    {
        double t = static_cast<double>(tan(fixed32(1.5607963)));
        EXPECT(t > 90 && t < 110);
    }
    catch(const std::domain_error&)
    {
        thrown = 1;
    }
    EXPECT(!thrown);
""")

bug("b21-atan-tiny-negative", "C21",
    [(MA, "    if(fp.signbit_mask() & fp.internal_value())\n        result = -result;", "    if(fp < -fixed::epsilon())\n        result = -result;")],
    "a negative argument of at most 5/65536",
    "atan of tiny negative numbers is positive, hence not odd",
    """
    EXPECT(atan(raw<fixed32>(-3)) == -atan(raw<fixed32>(3)));
    EXPECT(atan(raw<fixed64>(-70000)) == -atan(raw<fixed64>(70000)));
    EXPECT(atan(fixed32(-1)) == -atan(fixed32(1)));
""")

bug("b22-log2-24-bits", "C22",
    [(MA, "    for(size_t i = 0; i < f; ++i)\n    {\n        z = (z * z) >> f;", "    for(size_t i = 0; i < (f < 24 ? f : 24); ++i)\n    {\n        z = (z * z) >> f;")],
    "a type with more than 24 fraction bits",
    "the logarithm has 24 correct fraction bits only",
    """
    double e = static_cast<double>(log2(fixed64(3))) - 1.5849625007211561814;
    EXPECT(e < 5e-9 && e > -5e-9);
""")

bug("b22-log10-constant", "C22",
    [(MA, "from_fixed_num_value<60>(0x35269E12F346E200ll)>", "from_fixed_num_value<60>(0x35269E12F3000000ll)>")],
    "a type with more than 40 fraction bits",
    "log10 is wrong in the digits after about the 11th",
    """
    using Q = fixed_num<int64_t, __int128, 48>;
    double e = static_cast<double>(log10(Q(10000))) - 4;
    EXPECT(e < 4e-14 && e > -4e-14);
""")

bug("b23-exp-nearly-zero", "C23",
    [(MA, "    if(fp == fixed(0))\n        return fixed(1);\n    return detail::exp_expand(fp);", "    if(fp.nearly_eq(fixed(0)))\n        return fixed(1);\n    return detail::exp_expand(fp);")],
    "a tiny argument which is not zero, in a type that resolves it",
    "exp(x) is 1 for all |x| up to 5/65536",
    """
    double e = static_cast<double>(exp(raw<fixed64>(5ll << 16))) - 1.0000762968;
    EXPECT(e < 3e-6 && e > -3e-6);
    EXPECT(exp(fixed64(0)) == fixed64(1));
""")

bug("b24-zero-to-zero", "C24",
    [(MA, "        if(e == fixed(0))\n            return fixed(1);\n        return fixed(0);", "        return fixed(0);")],
    "0 to the power of the fixed point number 0",
    "pow(0, 0) is 0 with a fixed point exponent (but 1 with an integer)",
    """
    EXPECT(pow(fixed32(0), fixed32(0)) == fixed32(1));
    EXPECT(pow(fixed32(0), fixed32(2)) == fixed32(0));
""")

bug("b24-exponent-int", "C24",
    [(MA, "    auto res = fixed(1);\n    if(e < 0)\n    {", "    auto res = fixed(1);\n    if(static_cast<int>(e) < 0)\n    {")],
    "an unsigned or wide exponent with bit 31 set",
    "exponents of 2^31 and more are taken as negative",
    """
    EXPECT(pow(raw<fixed32>(1 << 15), 3000000000u) == fixed32(0));
    EXPECT(pow(fixed32(-1), 3000000001ll) == fixed32(-1));
    EXPECT(pow(raw<fixed32>(3 << 14), 2147483648ll) == fixed32(0));
    EXPECT(pow(fixed32(2), 3) == fixed32(8));
""")

bug("b25-degrees-overflow", "C25",
    [(MA, "    fixed deg = rad / pi * factor;", "    fixed deg = rad * factor / pi;")],
    "an angle above 182 rad in fixed32 (with less than 572 rad the degrees are representable)",
    "the product overflows although the result is representable",
    """
    double d = static_cast<double>(degrees(fixed32(400)));
    EXPECT(d > 22918.0 && d < 22918.7);
    double e = static_cast<double>(degrees(fixed32(1)));
    EXPECT(e > 57.29 && e < 57.30);
""")

bug("b26-inv-sqrt3-digits", "C26",
    [(NU, "0x1279a74590331c00ll", "0x1279a74590000000ll")],
    "a type with more than about 40 fraction bits",
    "inv_sqrt3 is cut after the 35th fraction bit",
    """
    using Q = fixed_num<int64_t, __int128, 45>;
    EXPECT(numbers::inv_sqrt3_v<Q>().internal_value() == 0x1279a7459033ll);
    EXPECT(numbers::inv_sqrt3_v<fixed64>().internal_value() == 0x93cd3a2cll);
""")

bug("b26-phi-f64", "C26",
    [(NU, "inline constexpr auto phi_f64 = phi_v<fixed64>();", "inline constexpr auto phi_f64 = fixed64(phi_v<fixed32>());")],
    "the predefined fixed64 constant phi",
    "phi_f64 has the precision of fixed32 only",
    """
    EXPECT(numbers::phi_f64 == numbers::phi_v<fixed64>());
    EXPECT(numbers::phi == numbers::phi_v<fixed32>());
""")

bug("b27-unsigned-max", "C27",
    [(FX, "            return fixed_type::from_internal_value(std::numeric_limits<T>::max());", "            return fixed_type::from_internal_value(~fixed_type::signbit_mask());")],
    "an unsigned type",
    "the maximum of unsigned types is half of what it is",
    """
    using U = fixed_num<uint32_t, uint64_t, 16>;
    EXPECT(std::numeric_limits<U>::max().internal_value() == 0xffffffffu);
    EXPECT(std::numeric_limits<fixed32>::max().internal_value() == 0x7fffffff);
""")

bug("b28-seed-sequence-adds", "C28",
    [(RA, "        m_state = seeds[1];", "        m_state += seeds[1];")],
    "an engine which has been used is seeded again with a seed sequence",
    "the sequence after seeding depends on what was generated before",
    """
    std::seed_seq q{1, 2, 3};
    pcg2014 a(5), b(5);
    a();
    a.seed(q);
    b.seed(q);
    EXPECT(a == b);
    EXPECT(a() == b());
""")

bug("b29-range-as-int", "C29",
    [(DI, """        target_type to_underlying() const
        {
            return target_type(static_cast<value_type>(m_a.internal_value()), static_cast<value_type>(m_b.internal_value()));
        }

    private:
        result_type m_a;
        result_type m_b;
    };

    /**
     * @brief Construct a new uniform fixed distribution object, with given range [a, b].
     * 
     * @param a 
     * @param b 
     */
    explicit fixed_distribution_adapter(""", """        target_type to_underlying() const
        {
            return target_type(static_cast<value_type>(m_a.internal_value()), m_a.internal_value() + static_cast<unsigned int>(m_b.internal_value() - m_a.internal_value()));
        }

    private:
        result_type m_a;
        result_type m_b;
    };

    /**
     * @brief Construct a new uniform fixed distribution object, with given range [a, b].
     * 
     * @param a 
     * @param b 
     */
    explicit fixed_distribution_adapter(""")],
    "a fixed64 range of width 1 or more (2^32 raw steps)",
    "only a part of the range is generated, the upper end never",
    """
    fixed_random_engine_adapter<fixed64, mt19937_64> g;
    fixed_distribution_adapter<fixed64, std::uniform_int_distribution<int64_t>> d(fixed64(10), fixed64(20));
    int high = 0;
    for(int i = 0; i < 200; ++i)
    {
        fixed64 x = d(g);
        EXPECT(x >= fixed64(10) && x <= fixed64(20));
        high += x > fixed64(15);
    }
    EXPECT(high > 20);
""")

bug("b30-table-digits-swapped", "C30",
    [(CO, '"0.000976562189559"', '"0.000976652189559"')],
    "fixed64, where the tenth rotation angle is resolved to 15 digits",
    "the sine is wrong by about 1e-7 for all angles",
    """
    double worst = 0;
    for(int i = 0; i < 100; ++i)
    {
        fixed64 x = fixed64(i) / fixed64(64);
        double e = static_cast<double>(cordic_sine(x)) - __builtin_sin(static_cast<double>(x));
        worst = worst < e ? e : worst < -e ? -e : worst;
    }
    EXPECT(worst < 2e-8);
""", pre="#include <eirin/ext/cordic.hpp>\n")

bug("b31-half-bit-masked", "C31",
    [(SI, "        const __m256i low_mask = _mm256_set1_epi64x(0xFFFFFFFFULL);", "        const __m256i low_mask = _mm256_set1_epi64x(0x7FFFFFFFULL);")],
    "an angle with a fraction of one half or more directly above a multiple of 2 pi",
    "the number of turns is one too small, so the result exceeds 2 pi",
    """
    std::array<fixed64, 4> a = {fixed64(18.85), fixed64(-18.85), fixed64(62.84), fixed64(31.42)};
    auto b = simd::simd_reduce_angle(a);
    for(int i = 0; i < 4; ++i)
        EXPECT(abs(b[i]) < fixed64(6.2832));
""", pre="#include <eirin/ext/simd_math.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2")

bug("b32-radians-in-double", "C32",
    [(MA, "    fixed rad = deg / factor * pi;", "    fixed rad = fixed(static_cast<double>(deg) * (static_cast<double>(pi) / static_cast<double>(factor)));")],
    "a floating point environment with another rounding direction (or options that reassociate)",
    "radians depends on the floating point environment",
    """
    std::fesetround(FE_DOWNWARD);
    long long n = 0;
    long long a[400], b[400];
    for(int i = 0; i < 400; ++i)
    {
        volatile long long v = (12345ll + i * 997ll) << 28;
        a[i] = radians(raw<fixed64>(v)).internal_value();
    }
    std::fesetround(FE_UPWARD);
    for(int i = 0; i < 400; ++i)
    {
        volatile long long v = (12345ll + i * 997ll) << 28;
        b[i] = radians(raw<fixed64>(v)).internal_value();
        n += a[i] != b[i];
    }
    std::fesetround(FE_TONEAREST);
    // and agrees with the integer arithmetic for a number where both differ
    for(int i = 0; i < 400; ++i)
    {
        long long v = (12345ll + i * 997ll) << 28;
        fixed64 e = raw<fixed64>(v) / fixed64(180) * numbers::pi_f64;
        long long d = e.internal_value() - a[i];
        EXPECT(d < 4 && d > -4);
        n += d > 1 || d < -1;
    }
    EXPECT(n == 0);
""", pre="#include <cfenv>\n", cxx="g++ -std=c++20 -w -O1 -frounding-math", also=["C25"])

bug("b33-subtract-by-negation", "C33",
    [(FX, "        m_value -= other.m_value;", "        m_value += -other.m_value;")],
    "subtracting the minimum from a negative number",
    "the negation of the minimum overflows, which is undefined, although the difference is representable",
    """
    volatile int v = -5;
    fixed32 a = raw<fixed32>(v);
    a -= std::numeric_limits<fixed32>::min();
    EXPECT(a.internal_value() == 0x7ffffffb);
""", cxx="clang++ -std=c++20 -w -O1 -fsanitize=undefined -fno-sanitize-recover=all")

bug("b33-debug-format-negation", "C33",
    [(FO, "                neg = true;\n                uval = static_cast<unsigned_type>(-(int_val + 1)) + unsigned_type(1);", "                neg = true;\n                uval = static_cast<unsigned_type>(-int_val);")],
    "the debug presentation of the minimum",
    "the negation of the minimum overflows, which is undefined",
    """
    EXPECT(std::format("{:?}", std::numeric_limits<fixed32>::min()) == "-80000000");
    EXPECT(std::format("{:?}", fixed32(-1)) == "-10000");
""", cxx="clang++ -std=c++20 -w -O1 -fsanitize=undefined -fno-sanitize-recover=all")

bug("b34-log2-constant-steps", "C34",
    [(MA, "    for(size_t i = 0; i < f; ++i)\n    {\n        z = (z * z) >> f;", "    // save steps of constant evaluation.\n    size_t steps = f;\n    if(std::is_constant_evaluated() && f > 24)\n        steps = 24;\n    for(size_t i = 0; i < steps; ++i)\n    {\n        z = (z * z) >> f;")],
    "a logarithm evaluated at compile time in a type with more than 24 fraction bits",
    "the compile time result differs from the one at run time",
    """
    constexpr fixed64 c = log2(fixed64(3));
    volatile long long three = 3ll << 32;
    EXPECT(c == log2(raw<fixed64>(three)));
""")

bug("b35-modf-alias", "C35",
    [(MA, "EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> modf(fixed_num<T, I, f, r> fp, fixed_num<T, I, f, r>& int_part) noexcept",
      "EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> modf(const fixed_num<T, I, f, r>& fp, fixed_num<T, I, f, r>& int_part) noexcept")],
    "the number and the integral part are the same object",
    "modf(x, x) returns 0 instead of the fraction",
    """
    fixed32 x = raw<fixed32>(0x28000), ip(0);
    EXPECT(modf(raw<fixed32>(0x28000), ip) == raw<fixed32>(0x8000));
    fixed32 fr = modf(x, x);
    EXPECT(fr == raw<fixed32>(0x8000));
    EXPECT(x == fixed32(2));
""", also=["C11"])

bug("b36-static-digit-buffer", "C36",
    [(FO, "        const auto& digits = uppercase ? detail::digit_map_upper : detail::digit_map_lower;\n        std::basic_string<CharT> result;\n",
      "        const auto& digits = uppercase ? detail::digit_map_upper : detail::digit_map_lower;\n        // keep the buffer, so it is only allocated once.\n        static std::basic_string<CharT> result;\n        result.clear();\n")],
    "two threads formatting numbers at the same time",
    "the shared buffer is a data race which mixes or corrupts the output",
    """
    std::vector<std::thread> ts;
    for(int t = 0; t < 4; ++t)
        ts.emplace_back([t] { for(int i = 0; i < 20000; ++i) { int v = t * 1000 + i % 1000 + 1000; if(std::format("{:d}", fixed32(v)) != std::to_string(v)) bad = 1; } });
    for(auto& t : ts)
        t.join();
""", pre="#include <thread>\n#include <vector>\n", cxx="g++ -std=c++20 -w -O1 -pthread -fsanitize=thread")

bug("b37-eval-dyadic", "C37",
    [(UT, "        if(frac_part >= cur_bit_value)", "        if(frac_part > cur_bit_value)")],
    "a value whose fraction is a finite sum of powers of two",
    "eval_value is one ulp too small for values with a finite binary expansion",
    """
    EXPECT(util::eval_value<int64_t>(0.5, 32) == 1ll << 31);
    EXPECT(util::eval_value<int64_t>(2.75, 16) == 0x2c000);
    EXPECT(util::eval_value<int64_t>(3.0, 16) == 0x30000);
""", pre="#include <eirin/detail/util.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2")

bug("b38-cpuid-subleaf", "C38",
    [(SI, "        __cpuid_count(7, 0, eax, ebx, ecx, edx);", "        __cpuid_count(7, 1, eax, ebx, ecx, edx);")],
    "a processor with AVX2 (its flag is in another sub-leaf)",
    "AVX2 is reported as missing",
    """
    unsigned a, b, c, d;
    __cpuid_count(7, 0, a, b, c, d);
    EXPECT(simd::platform_support::supports_avx2() == ((b >> 5 & 1) != 0));
    EXPECT(simd::platform_support::supports_avx512_f() == ((b >> 16 & 1) != 0));
    __cpuid_count(1, 0, a, b, c, d);
    EXPECT(simd::platform_support::supports_sse4_2() == ((c >> 20 & 1) != 0));
""", pre="#include <eirin/ext/simd_math.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2")

bug("b39-abort", "C39",
    [("include/eirin/error.hpp", "        std::terminate();", "        __builtin_trap();")],
    "a build without exceptions and an installed terminate handler",
    "the terminate handler is not called",
    """
    std::set_terminate([] { std::_Exit(0); });
    fixed32 a(1);
    a.divide_by(fixed32(0));
    bad = 1;
""", pre="#include <cstdlib>\n#include <exception>\n", cxx="g++ -std=c++20 -w -O1 -fno-exceptions")

bug("b40-table-sine-not-inline", "C40",
    [(UT, "    inline fixed64 __sin(fixed64 x)", "    fixed64 __sin(fixed64 x)")],
    "two translation units of a program which include detail/util.hpp",
    "such programs do not link",
    """
""", pre="#include <eirin/detail/util.hpp>\n", cxx='printf "#include <eirin/detail/util.hpp>\\n" > "$tmp/second.cpp"; g++ -std=c++20 -w -O0 -mavx2 "$tmp/second.cpp"', link=True)

# second round

bug("b35-compound-div-self", "C35",
    [(FX, """            m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);
        }
        return *this;
    }

    constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept""",
      """            // integral and fractional part of the quotient, so that the dividend needs no shift.
            const auto value = static_cast<IntermediateType>(m_value);
            m_value = static_cast<Type>((value / other.m_value) * fraction_multiplier);
            m_value += static_cast<Type>(((value % other.m_value) * fraction_multiplier) / other.m_value);
        }
        return *this;
    }

    constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept""")],
    "a number divided by itself in the compound form (the divisor changes between the two steps)",
    "x /= x is not 1",
    """
    fixed32 x = raw<fixed32>(0x28001), y = raw<fixed32>(-7), z = x;
    z /= y;
    EXPECT(z == x / y);
    x /= x;
    EXPECT(x == fixed32(1));
""")

bug("b12-digit-buffer-48", "C12",
    [(FX, "        std::array<char, 514> buffer;", "        std::array<char, 48> buffer;")],
    "base 2 and an integral part of 48 bits or more",
    "the digits of long binary numbers come out in the wrong order",
    """
    using F = fixed_num<int64_t, detail::int128_t, 8>;
    std::string s;
    F::copy_as_chars_to(raw<F>(0x4000000000000100ll), std::back_inserter(s), 2);
    EXPECT(s == "1" + std::string(53, '0') + "1");
""")

bug("b33-empty-text", "C33",
    [(FX, "    if(has_next() && peek() == '-')\n    {\n        negative = true;\n        next();\n    }\n\n    I int_part = I(0), dec_part = I(0);\n    // parse the integer part.\n    while(has_next() && peek() != '.')\n    {\n        if(!check_ch(peek()))\n            break;\n        detail::parse_int_digit<T, I, f>(int_part, next() - '0');\n    }\n",
      "    if(peek() == '-')\n    {\n        negative = true;\n        next();\n    }\n\n    I int_part = I(0), dec_part = I(0);\n    // parse the integer part.\n    while(has_next() && peek() != '.')\n    {\n        if(!check_ch(peek()))\n            break;\n        detail::parse_int_digit<T, I, f>(int_part, next() - '0');\n    }\n")],
    "an empty text at the end of a buffer",
    "fixed_from_cstring reads the character behind an empty text",
    """
    char* p = new char[3]{'1', '2', '3'};
    fixed32 a(0);
    EXPECT(fixed_from_cstring(p, 3, a) && a == fixed32(123));
    EXPECT(fixed_from_cstring(p + 3, 0, a) && a == fixed32(0));
    delete[] p;
""", cxx="g++ -std=c++20 -w -O1 -fsanitize=address -fno-sanitize-recover=all", also=["C15"])

bug("b36-lazy-table", "C36",
    [(UT, "        static auto lut = func_ptr_lut<N>(__sin);\n", "        static decltype(func_ptr_lut<N>(__sin)) lut;\n        static bool ready = false;\n        if(!ready)\n        {\n            lut = func_ptr_lut<N>(__sin);\n            ready = true;\n        }\n")],
    "the first calls of the table sine from two threads at the same time",
    "the table is filled by several threads at once, a data race",
    """
    std::vector<std::thread> ts;
    for(int t = 0; t < 4; ++t)
        ts.emplace_back([t] { for(int i = 0; i < 50; ++i) (void)util::lut::lut_calc_sin(fixed64(i)); });
    for(auto& t : ts)
        t.join();
""", pre="#include <thread>\n#include <vector>\n#include <eirin/detail/util.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2 -pthread -fsanitize=thread")

bug("b37-esp-signed", "C37",
    [("include/eirin/detail/perf.hpp", "            auto esp = abs(std_sin_val - sin_val);\n            if(esp > max_esp)", "            auto esp = std_sin_val > sin_val ? std_sin_val - sin_val : sin_val - std_sin_val;\n            if(esp >= max_esp)")],
    "two inputs with the same greatest error",
    "measure_esp reports the last input with the greatest error instead of the first",
    """
    auto f = [](fixed64 x) { return x; };
    auto g = [](fixed64 x) { return x + fixed64(1); };
    auto r = perf::measure_esp<fixed64>(fixed64(0), fixed64(3), fixed64(1), f, g, [](int64_t v) { return fixed64(v); });
    EXPECT(r.max_esp == fixed64(1) && r.min_esp == fixed64(1));
    EXPECT(r.max_esp_input == fixed64(0));
""", pre="#include <eirin/detail/perf.hpp>\n")

bug("b30-lut-index", "C30",
    [(UT, "        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(N - 2));", "        auto idx = std::min(pos.integral_part(), static_cast<int64_t>(510));")],
    "a table with another number of entries than 512",
    "smaller tables are read behind their end, larger ones extrapolated",
    """
    fixed64 x = fixed64(3);
    double s = double(util::lut::lut_calc_sin<2048>(x));
    EXPECT(s > 0.14111 && s < 0.14113);
    s = double(util::lut::lut_calc_sin(x));
    EXPECT(s > 0.1411 && s < 0.1412);
""", pre="#include <eirin/detail/util.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2")

bug("b06-divide-by-partial", "C06",
    [(FX, """        if(other.m_value == 0) [[unlikely]]
            EIRIN_THROW_EXCEPTION(divide_by_zero);

        if constexpr(rounding)
        {
            auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
            m_value = static_cast<Type>(_value / 2 + (_value % 2));""",
      """        if(&other != this && other.m_value == 0) [[unlikely]]
            EIRIN_THROW_EXCEPTION(divide_by_zero);
        if(&other == this)
        {
            // x / x
            m_value = static_cast<Type>(fraction_multiplier);
            return *this;
        }

        if constexpr(rounding)
        {
            auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
            m_value = static_cast<Type>(_value / 2 + (_value % 2));""")],
    "zero divided by itself with divide_by",
    "dividing zero by itself gives 1 instead of throwing",
    """
    fixed32 z(0);
    bool thrown = false;
    try { z.divide_by(z); } catch(const divide_by_zero&) { thrown = true; }
    EXPECT(thrown && z == fixed32(0));
""", also=["C35"])

bug("b14-leading-zeros", "C14",
    [(FX, """    I int_part = I(0), dec_part = I(0);
    // parse the integer part.
    while(has_next() && peek() != '.')
    {
        if(!check_ch(peek()))
            break;
        detail""", """    I int_part = I(0), dec_part = I(0);
    const size_t int_end = pos + std::numeric_limits<I>::digits / 3;
    // parse the integer part.
    while(pos < int_end && has_next() && peek() != '.')
    {
        if(!check_ch(peek()))
            break;
        detail""")],
    "a number with more than twenty leading zeros",
    "text with many leading zeros is read up to its 21st digit only",
    """
    fixed32 a(0);
    std::string s = std::string(40, '0') + "12.5";
    EXPECT(fixed_from_cstring(s.data(), s.size(), a) && a == fixed32(12.5));
    EXPECT(!fixed_from_cstring("99999", 5, a));
    EXPECT(fixed_from_cstring("00007", 5, a) && a == fixed32(7));
""")

bug("b17-format-last-digit", "C17",
    [(FO, "                for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)", "                for(unsigned int i = 0; i < (F * 3 + 3) / 4 && used_prec < eff_prec; ++i)")],
    "formatting with a precision of more than three quarters of the fraction bits",
    "the last digits are missing, so the text parses to a smaller number",
    """
    fixed32 a = raw<fixed32>(0x18001), b(0);
    std::string s = std::format("{:.16f}", a);
    EXPECT(fixed_from_cstring(s.data(), s.size(), b) && a == b);
    EXPECT(std::format("{:.3f}", a) == "1.500");
""", also=["C13"])

bug("b04-add-through-int", "C04",
    [(FX, "    constexpr inline fixed_num& operator+=(const std::integral auto& val) noexcept\n    {\n        m_value += static_cast<Type>(val) << fraction;",
      "    constexpr inline fixed_num& operator+=(const std::integral auto& val) noexcept\n    {\n        // integers of up to 32 bits share one instantiation.\n        if constexpr(sizeof(val) <= sizeof(int))\n            m_value += static_cast<Type>(static_cast<int>(val)) << fraction;\n        else\n            m_value += static_cast<Type>(val) << fraction;")],
    "an unsigned 32 bit integer above 2^31 and a 64 bit type with more than 32 integral bits",
    "the integer is added as a negative number",
    """
    using F = fixed_num<int64_t, detail::int128_t, 16>;
    volatile unsigned n = 3000000000u;
    EXPECT((F(1) + unsigned(n)) == F(3000000001ll));
    EXPECT((unsigned(n) + F(-3)) == F(2999999997ll));
    EXPECT((fixed32(2) + 5u) == fixed32(7));
""")

bug("b07-min-of-unsigned", "C07",
    [(MA, "    auto a_i = a.internal_value();\n    auto b_i = b.internal_value();\n    return a_i < b_i ? a : b;",
      "    // one comparison for all types.\n    const auto a_i = static_cast<std::int64_t>(a.internal_value());\n    const auto b_i = static_cast<std::int64_t>(b.internal_value());\n    return a_i < b_i ? a : b;")],
    "an unsigned 64 bit type with exactly one number in the upper half of the range",
    "min returns the greater number",
    """
    using U = fixed_num<uint64_t, unsigned __int128, 32>;
    U a = U::from_internal_value(0xF000000000000000ull), b(5);
    EXPECT(min(a, b) == b);
    EXPECT(min(b, a) == b);
    EXPECT(max(a, b) == a);
""")

bug("b08-epsilon-at-least-one-ulp", "C08",
    [(FX, "    static constexpr fixed_num nearly_compare_epsilon()\n    {\n        return from_fixed_num_value<64>(0x5000000000000ll);",
      "    static constexpr fixed_num nearly_compare_epsilon()\n    {\n        // never smaller than the resolution of the type.\n        return fraction < 14 ? fixed_num(Type(1), raw_value_construct_tag{}) : from_fixed_num_value<64>(0x5000000000000ll);")],
    "a type with fewer than 14 fraction bits and neighbouring numbers",
    "neighbouring numbers of coarse types are nearly equal although they differ by more than the tolerance",
    """
    using F = fixed_num<int16_t, int32_t, 8>;
    EXPECT(!raw<F>(256).nearly_eq(raw<F>(257)));
    EXPECT(raw<F>(257).nearly_gt(raw<F>(256)));
    EXPECT(raw<fixed32>(256).nearly_eq(raw<fixed32>(261)) && !raw<fixed32>(256).nearly_eq(raw<fixed32>(262)));
""")

bug("b09-rounding-int-cast", "C09",
    [(FX, "        return static_cast<T>(m_value >> fraction);",
      "        if constexpr(rounding)\n            return static_cast<T>((static_cast<IntermediateType>(m_value) + fraction_multiplier / 2) >> fraction);\n        else\n            return static_cast<T>(m_value >> fraction);")],
    "a type with rounding and a fraction of at least one half",
    "casting to an integer rounds to nearest instead of giving the floor",
    """
    using F = fixed_num<int32_t, int64_t, 16, true>;
    EXPECT(static_cast<int>(raw<F>(0x18000)) == 1);
    EXPECT(static_cast<int>(raw<F>(0x1ffff)) == 1);
    EXPECT(static_cast<int>(raw<F>(-1)) == -1);
    EXPECT(static_cast<int>(raw<fixed32>(0x1ffff)) == 1);
""")

bug("b10-narrow-through-intermediate", "C10",
    [(FX, "        : m_value(from_fixed_num_value<f>(fp.internal_value()).internal_value())",
      "        : m_value(from_fixed_num_value<f>(static_cast<std::conditional_t<(sizeof(T) > sizeof(IntermediateType) && f > fraction), IntermediateType, T>>(fp.internal_value())).internal_value())")],
    "a conversion from a 64 bit type with many fraction bits to an 8 or 16 bit type",
    "the raw value is cut to the intermediate type of the target before the fraction is dropped",
    """
    using F = fixed_num<int16_t, int32_t, 8>;
    EXPECT(F(fixed64(5)) == F(5));
    EXPECT(F(fixed64(-7) / 2) == F(-7) / 2);
    EXPECT(F(fixed32(5)) == F(5));
    EXPECT(fixed32(fixed64(5)) == fixed32(5));
""")

C32 = """inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
{
    size_t pos = 0;
    bool negative = false;
    auto peek = [&]() -> char
    {
        return str[pos];
    };
    auto next = [&]() -> char
    {
        return str[pos++];
    };
    auto has_next = [&]() -> bool
    {
        return pos < len;"""

bug("b15-line-end-accepted", "C15",
    [(FX, C32, C32.replace("        return pos < len;", "        // lines read from files end with a line feed.\n        return pos < len && (pos == 0 || pos + 1 < len || str[pos] != '\\n');"))],
    "a text that ends with a line feed",
    "f32_from_cstring accepts characters other than digits, the minus and the point",
    """
    fixed32 a(9);
    EXPECT(!f32_from_cstring("1.5\\n", 4, a) && a == fixed32(9));
    EXPECT(f32_from_cstring("1.5", 3, a) && a == fixed32(3) / 2);
""")

bug("b20-ninth-power", "C20",
    [(MA, "    constexpr auto d = pi * pi / 288;", "    constexpr auto d = pi * pi / 320;")],
    "fixed64 sines and cosines near the extremes",
    "the last coefficient of the series is wrong, which is visible with many fraction bits only",
    """
    int n = 0;
    for(long long v = 6600000000ll; v < 6900000000ll; v += 1000003)
    {
        double x = double(v) / 4294967296.0, s = double(sin(raw<fixed64>(v)).internal_value()) / 4294967296.0 - __builtin_sin(x);
        n += s > 6e-6 || s < -6e-6;
    }
    EXPECT(n == 0);
""")

bug("b22-log10-low-bits", "C22",
    [(MA, "from_fixed_num_value<60>(0x35269E12F346E200ll)>", "from_fixed_num_value<60>(0x35269E12F306E200ll)>")],
    "log10 in types with more than 36 fraction bits",
    "the constant log2(10) is wrong in its 38th fraction bit",
    """
    using F = fixed_num<int64_t, detail::int128_t, 48>;
    F x = log10(F(1000));
    long long d = x.internal_value() - (3ll << 48);
    EXPECT(d < 8 && d > -8);
    EXPECT(abs(log10(fixed64(1000)) - fixed64(3)).internal_value() < 8);
""")

bug("b23-constant-term", "C23",
    [(MA, "from_fixed_num_value<63>(0x7FFFF686446F1B43ll)", "from_fixed_num_value<63>(0x7FFFF286446F1B43ll)")],
    "types with at least 30 fraction bits and numbers just above an integer",
    "the constant term of the polynomial is off by 5e-7",
    """
    int n = 0;
    for(int i = -3; i < 8; ++i)
    {
        fixed64 x = raw<fixed64>((static_cast<long long>(i) << 32) + 1000);
        double v = double(x), e = __builtin_exp(v), d = double(exp(x)) - e;
        n += (d < 0 ? -d : d) > e * (1.3e-6 + (3 + (i < 0 ? -i : i)) * 2.4e-10) + 5 * 2.4e-10;
    }
    EXPECT(n == 0);
""")

bug("b24-floor-of-exponent", "C24",
    [(MA, "    const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));", "    const T e_int = static_cast<T>(e);")],
    "a negative fractional exponent and a large base",
    "the reciprocal of the base is one power smaller than needed, and its few remaining bits make the result inaccurate",
    """
    fixed32 r = pow(fixed32(30000), raw<fixed32>(-32768));
    EXPECT(r.internal_value() > 368 && r.internal_value() < 388);
    EXPECT(pow(fixed32(4), raw<fixed32>(-32768)) > raw<fixed32>(32700));
""")

bug("b25-fmod-early-out", "C25",
    [(MA, "    return a - b * floor(a / b);", "    // nothing to do if a is already small enough.\n    return abs(a) < abs(b) ? a : a - b * floor(a / b);")],
    "a negative and b positive (or reversed) with |a| < |b|",
    "fmod returns a number outside of [0, b)",
    """
    EXPECT(fmod(fixed32(-1), fixed32(3)) == fixed32(2));
    EXPECT(fmod(fixed32(7), fixed32(3)) == fixed32(1));
    EXPECT(fmod(fixed32(-7), fixed32(3)) == fixed32(2));
""")

bug("b26-e-low-bit", "C26",
    [(NU, "from_fixed_num_value<61>(0x56FC2A2C515DA54Dll)", "from_fixed_num_value<61>(0x56FC2A2C515FA54Dll)")],
    "e in types with 44 or more fraction bits",
    "one low bit of the constant is wrong",
    """
    using F = fixed_num<int64_t, detail::int128_t, 45>;
    EXPECT(numbers::e_v<F>().internal_value() == (0x56FC2A2C515DA54Dll >> 16));
    EXPECT(numbers::e_v<fixed64>().internal_value() == (0x56FC2A2C515DA54Dll >> 29));
""")

bug("b27-lowest-symmetric", "C27",
    [(FX, "    static constexpr fixed_type lowest() noexcept\n    {\n        return min();", "    static constexpr fixed_type lowest() noexcept\n    {\n        return is_signed ? -max() : min();")],
    "lowest() of a signed type",
    "the minimum is smaller than lowest()",
    """
    EXPECT(std::numeric_limits<fixed32>::lowest() == std::numeric_limits<fixed32>::min());
    EXPECT(std::numeric_limits<fixed32>::lowest().internal_value() == -2147483647 - 1);
""")

bug("b28-adapter-discard", "C28",
    [(RA, "    void discard(unsigned long long z)\n    {\n        m_engine.discard(z);", "    void discard(std::size_t z)\n    {\n        while(z > UINT32_MAX)\n        {\n            m_engine.discard(UINT32_MAX);\n            z -= UINT32_MAX;\n        }\n        m_engine.discard(static_cast<uint32_t>(z) % UINT32_MAX);")],
    "the engine adapter and a discard count that is a multiple of 2^32 - 1",
    "the adapter discards 2^32 - 1 numbers too few",
    """
    fixed_random_engine_adapter<fixed64, pcg2014_64> a, b;
    a.seed(5);
    b.seed(5);
    a.discard(0xffffffffull);
    for(int i = 0; i < 3; ++i)
        b.discard(0x55555555ull);
    EXPECT(a == b);
    a.discard(3);
    a();
    b.discard(4);
    EXPECT(a == b);
""")

bug("b30-k-digits", "C30",
    [(CO, 'fixed_from_cstring("0.6072529350088812561694", 22, val);', 'fixed_from_cstring("0.6072529350088812561694", 10, val);')],
    "the fixed64 CORDIC sine",
    "the scaling constant has 8 digits only, so that the error exceeds the bound near the extremes",
    """
    int n = 0;
    for(long long v = 6000000000ll; v < 7400000000ll; v += 1000003)
    {
        double x = double(v) / 4294967296.0, s = double(cordic_sine(raw<fixed64>(v)).internal_value()) - __builtin_sin(x) * 4294967296.0;
        n += s > 33 || s < -33;
    }
    EXPECT(n == 0);
""", pre="#include <eirin/ext/cordic.hpp>\n")

bug("b31-inverse-rounded", "C31",
    [(SI, "(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value());", "(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value() + 1);")],
    "angles just below a multiple of two pi",
    "the count of turns is one too large, so that the result has the wrong sign",
    """
    long long two_pi = (numbers::pi_f64 * 2_f64).internal_value();
    int n = 0;
    for(long long k = 1; k < 3000; k += 7)
        for(long long d = 1; d < 400; d += 13)
        {
            long long v = k * two_pi - d;
            auto r = simd::simd_reduce_angle({raw<fixed64>(v), raw<fixed64>(-v), fixed64(1), fixed64(0)});
            n += r[0].internal_value() < 0 || r[1].internal_value() > 0;
        }
    EXPECT(n == 0);
""", pre="#include <eirin/ext/simd_math.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2")

bug("b32-assert-length", "C32",
    [(FX, """    constexpr inline fixed64 operator""_f64(const char* str, size_t len)
    {
        fixed64 fp;
        detail::parse(str, len, fp);""", """    constexpr inline fixed64 operator""_f64(const char* str, size_t len)
    {
        // a sign, ten digits, the point and ten digits.
        assert(len <= 22);
        fixed64 fp(0);
        detail::parse(str, len, fp);""")],
    "a string literal of more than 22 characters with the suffix _f64, compiled without NDEBUG",
    "the literal aborts in builds with assertions and gives a number in the others",
    """
    EXPECT("1.500000000000000000000000000"_f64 == raw<fixed64>(3ll << 31));
""", cxx="g++ -std=c++20 -w -O1 -UNDEBUG")

bug("b33-fractional-part-mask", "C33",
    [(FX, "        return m_value % (static_cast<Type>(1) << fraction);",
      "        const auto mask = static_cast<Type>((static_cast<Type>(1) << fraction) - 1);\n        return m_value < 0 ? static_cast<Type>(-(-m_value & mask)) : static_cast<Type>(m_value & mask);")],
    "the fractional part of the minimum (or any formatting of it)",
    "the negation of the minimum overflows, which is undefined",
    """
    volatile long long v = std::numeric_limits<fixed32>::min().internal_value();
    EXPECT(raw<fixed32>(v).fractional_part() == 0);
    EXPECT(raw<fixed32>(-5).fractional_part() == -5);
""", cxx="clang++ -std=c++20 -w -O1 -fsanitize=undefined -fno-sanitize-recover=all")

bug("b34-msb-builtin", "C34",
    [(FX, "            int bits = 0;\n            while(value >>= 1)\n                ++bits;\n            return bits;",
      "            if(!std::is_constant_evaluated() && sizeof(T) <= sizeof(unsigned))\n                return static_cast<int>(sizeof(T) * 8) - 1 - __builtin_clz(value);\n            for(int bits = 0;; ++bits)\n                if(!(value >>= 1))\n                    return bits;")],
    "the square root of an 8 or 16 bit number at run time",
    "the leading zeros are counted in 32 bits, so that the run time result differs from the one at compile time",
    """
    using F = fixed_num<int16_t, int32_t, 8>;
    constexpr F c = sqrt(F(110));
    volatile int n = 110;
    EXPECT(sqrt(F(int(n))) == c);
    EXPECT(sqrt(raw<fixed64>(4ll << 32)) == fixed64(2));
""", also=["C18"])

bug("b37-last-least-error", "C37",
    [("include/eirin/detail/perf.hpp", "            if(esp < min_esp)", "            if(esp <= min_esp)")],
    "two inputs with the same least difference",
    "measure_esp reports the last input with the least difference",
    """
    auto init = [](int64_t v) -> fixed64 { return fixed64(v); };
    auto r = perf::measure_esp<fixed64>(fixed64(0), fixed64(5), fixed64(1), [](fixed64 x) { return x; }, [](fixed64 x) { return x + (x > fixed64(2) ? fixed64(1) : fixed64(2)); }, init);
    EXPECT(r.min_esp_input == fixed64(3));
    EXPECT(r.max_esp_input == fixed64(0));
""", pre="#include <eirin/detail/perf.hpp>\n")

bug("b39-tan-saturates", "C39",
    [(MA, "        EIRIN_THROW_EXCEPTION(std::domain_error, \"tan() domain error\");", "#ifdef EIRIN_NO_EXCEPTIONS\n        return std::numeric_limits<fixed_num<T, I, f, r>>::max();\n#else\n        throw std::domain_error(\"tan() domain error\");\n#endif")],
    "tan at a pole, compiled without exceptions",
    "tan returns a number instead of terminating",
    """
    std::set_terminate([] { std::_Exit(bad); });
    volatile long long v = 1;
    for(long long i = 102900; i < 103000; ++i)
        if(tan(raw<fixed32>(i * v)) == fixed32(12345))
            return 2;
    return 1;
""", pre="#include <cstdlib>\n#include <exception>\n", cxx="g++ -std=c++20 -w -O1 -fno-exceptions")

bug("b06-zero-after-truncation", "C06",
    [(FX, "    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const std::integral auto& val) const\n    {\n        if(val == 0) [[unlikely]]", "    EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const std::integral auto& val) const\n    {\n        if(static_cast<Type>(val) == 0) [[unlikely]]")],
    "an integer divisor that is wider than the type and a multiple of 2^width",
    "divide throws although the divisor is not zero",
    """
    bool thrown = false;
    try { EXPECT(fixed32(5).divide(1ll << 32) == fixed32(0)); } catch(const divide_by_zero&) { thrown = true; }
    EXPECT(!thrown);
    try { (void)fixed32(5).divide(0); } catch(const divide_by_zero&) { thrown = true; }
    EXPECT(thrown);
""")

# fourth round
bug("b13-width-byte", "C13",
    [(FO, "        std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;", "        const std::uint8_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;")],
    "a width which exceeds the text by 256 or more",
    "the count of the fill characters is reduced to 8 bits",
    """
    EXPECT(std::format("{:400}", fixed32(1)).size() == 400);
    EXPECT(std::format("{:40}", fixed32(1)).size() == 40);
""")

bug("b13-wide-type", "C13",
    [(FO, "            switch(*it)\n            {\n            case 'g':", "            switch(static_cast<char>(*it))\n            {\n            case 'g':")],
    "a wide format string whose type has the low byte of a known type",
    "an unknown type is accepted",
    """
    fixed32 x(3);
    std::wstring f = L"{:x}";
    f[2] = static_cast<wchar_t>(0x100 + 'x');
    bool thrown = false;
    try
    {
        (void)std::vformat(f, std::make_wformat_args(x));
    }
    catch(const std::format_error&)
    {
        thrown = true;
    }
    EXPECT(thrown);
""")

# fifth round
BI = "include/eirin/ext/builtin_ints.hpp"
bug("b03-div64-long-double", "C03",
    [(FX, "            m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);\n        }\n        return *this;\n    }\n\n    constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept",
      "            if constexpr(sizeof(Type) == 8)\n                m_value = static_cast<Type>(static_cast<long double>(m_value) * fraction_multiplier / other.m_value);\n            else\n                m_value = static_cast<Type>((static_cast<IntermediateType>(m_value) << fraction) / other.m_value);\n        }\n        return *this;\n    }\n\n    constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept")],
    "the compound division of 64 bit numbers whose quotient is less than 2^-63 of itself below a multiple of one ulp",
    "the quotient is rounded up instead of truncated",
    """
    unsigned long long s = 1;
    for(int i = 0; i < 3000000; ++i)
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        long long a = static_cast<long long>(s) >> 2;
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        long long b = (static_cast<long long>(s >> 22)) | (1ll << 40);
        fixed64 x = raw<fixed64>(a);
        x /= raw<fixed64>(b);
        if(x.internal_value() != static_cast<long long>((static_cast<__int128>(a) << 32) / b))
            bad = 1;
    }
""")

bug("b11-floor-near-minimum", "C11",
    [(MA, "        value -= frac_mult - 1;", "        value = static_cast<T>(value - (frac_mult - 1));")],
    "floor of a number less than one above the minimum",
    "the intermediate value wraps around and floor returns a great positive number",
    """
    EXPECT(floor(std::numeric_limits<fixed32>::min()) == std::numeric_limits<fixed32>::min());
    EXPECT(floor(raw<fixed32>(INT32_MIN + 7)) == std::numeric_limits<fixed32>::min());
    EXPECT(floor(raw<fixed32>(-1)) == fixed32(-1));
""")

bug("b16-wide-digit-narrowed", "C16",
    [(FX, "    auto peek = [&]() -> CharT\n", "    auto peek = [&]() -> char\n")],
    "extraction from a wide stream with a character whose low byte is a digit behind the number",
    "the character is taken for a digit",
    """
    std::wstring t = L"12X";
    t[2] = static_cast<wchar_t>(0x131);
    std::wistringstream is(t);
    fixed32 x(7);
    is >> x;
    EXPECT(is && x == fixed32(12));
    EXPECT(is.get() == 0x131);
""")

bug("b21-acos-ratio", "C21",
    [(MA, "    return pi / 2 - asin(fp);", "    return fp > fixed(0) ? atan(sqrt(fixed(1) - fp * fp) / fp) : pi / 2 - asin(fp);")],
    "acos of a positive number below the reciprocal of the maximum",
    "the quotient overflows and the result is off by up to pi",
    """
    for(int i = 1; i < 60; ++i)
        EXPECT(static_cast<double>(abs(acos(raw<fixed32>(i)) - numbers::pi / fixed32(2))) < 0.01);
    EXPECT(static_cast<double>(abs(acos(fixed32(0.5)) - fixed32(1.0471975512))) < 0.001);
""")

bug("b29-cached-distribution", "C29",
    [(DI, "    template <typename _UniformRandomBitGeneratorAdapter>\n    FixedType operator()(_UniformRandomBitGeneratorAdapter& a)\n    {\n        return operator()(a, m_param);\n    }", "    template <typename _UniformRandomBitGeneratorAdapter>\n    FixedType operator()(_UniformRandomBitGeneratorAdapter& a)\n    {\n        return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(m_dist(a.__underlying_engine())));\n    }"),
     (DI, "        m_param = param;\n        m_dist = underlying_type(static_cast<value_type>(param.a().internal_value()), static_cast<value_type>(param.b().internal_value()));", "        m_param = param;")],
    "a call after the range of the adapter for engine adapters has been replaced by param(p)",
    "numbers of the range of the construction are returned",
    """
    fixed_random_engine_adapter<fixed32, mt19937> e;
    fixed_distribution_adapter<fixed32, std::uniform_int_distribution<int>> d(fixed32(0), fixed32(1));
    for(int i = 0; i < 10; ++i) EXPECT(d(e) <= fixed32(1));
    d.param(decltype(d)::param_type(fixed32(10), fixed32(20)));
    for(int i = 0; i < 10; ++i) EXPECT(d(e) >= fixed32(10));
""", pre="#include <eirin/random.hpp>\n")

bug("b40-guard-collision", "C40",
    [("include/eirin/detail/perf.hpp", "#ifndef EIRIN_MATH_PERF_HPP\n#define EIRIN_MATH_PERF_HPP", "#ifndef EIRIN_MATH_EXT_BUILTIN_INTS_HPP\n#define EIRIN_MATH_EXT_BUILTIN_INTS_HPP")],
    "detail/perf.hpp and ext/builtin_ints.hpp in one translation unit",
    "the second of both headers is empty",
    """
    auto init = [](int64_t v) -> fixed64 { return fixed64(v); };
    auto r = perf::measure_esp<fixed64>(fixed64(0), fixed64(1), fixed64(1), [](fixed64 x) { return x; }, [](fixed64 x) { return x; }, init);
    EXPECT(r.min_esp == fixed64(0));
    ext::int128 big(5);
    EXPECT(static_cast<int64_t>(big + big) == 10);
""", pre="#include <eirin/ext/builtin_ints.hpp>\n#include <eirin/detail/perf.hpp>\n", cxx="g++ -std=c++20 -w -O1 -mavx2", link=True)

bug("b41-acos-default-pi", "C41",
    [(MA, "    else if(fp == fixed(-1))\n        return pi;", "    else if(fp == fixed(-1))\n        return numbers::pi_v<fixed>();")],
    "acos(-1) with an own pi as template argument",
    "the predefined pi is returned",
    """
    constexpr fixed32 p = fixed32::from_internal_value(205888);
    EXPECT((acos<int32_t, int64_t, 16, false, p>(fixed32(-1)) == p));
    EXPECT(acos(fixed32(-1)) == numbers::pi);
""")

bug("b41-degrees-default-pi", "C41",
    [(MA, "    fixed deg = rad / pi * factor;", "    fixed deg = rad / fixed::pi() * factor;")],
    "degrees with an own pi as template argument",
    "the predefined pi is used",
    """
    constexpr fixed32 p = fixed32(3);
    EXPECT((degrees<int32_t, int64_t, 16, false, p>(fixed32(3)) == fixed32(180)));
    EXPECT(static_cast<double>(abs(degrees(numbers::pi) - fixed32(180))) < 0.01);
""")

bug("b41-log10-default-divisor", "C41",
    [(MA, "    return log2(fp) / log2_10;", "    constexpr auto inv = fixed_num<T, I, f, r>::template from_fixed_num_value<60>(0x35269E12F346E200ll);\n    return log2(fp) / inv;")],
    "log10 with an own logarithm of the base as template argument",
    "the argument is ignored",
    """
    constexpr fixed32 three = fixed32(3);
    EXPECT((log10<int32_t, int64_t, 16, false, three>(fixed32(8)) == fixed32(1)));
    EXPECT(static_cast<double>(abs(log10(fixed32(100)) - fixed32(2))) < 0.01);
""")

bug("b42-saturation-two-complement", "C42",
    [(BI, "        else if(high < 0)", "        else if(high < -1)")],
    "the conversion of a number below -2^63 and not below -2^64 - 2^63",
    "the low part is returned instead of the minimum",
    """
    EXPECT(static_cast<int64_t>(ext::int128(int64_t(-1), int64_t(5))) == INT64_MIN);
    EXPECT(static_cast<int64_t>(ext::int128(int64_t(0), int64_t(-5))) == -5);
""", pre="#include <eirin/ext/builtin_ints.hpp>\n")

bug("b42-double-through-float", "C42",
    [(BI, "        : high(0), low(static_cast<int64_t>(val)){};", "        : high(0), low(static_cast<int64_t>(static_cast<float>(val))){};")],
    "a double with more than 24 significant bits",
    "the number is rounded",
    """
    ext::int128 x(123456789.0);
    EXPECT(x.low_bits() == 123456789);
""", pre="#include <eirin/ext/builtin_ints.hpp>\n")

# sixth round

bug("b12-unreported-write", "C12",
    [(FX, "        os << text;\n        os.flush();\n        return os;", "        if(os.width() > static_cast<std::streamsize>(text.size()))\n            os << text;\n        else if(std::ostream::sentry guard(os); guard)\n        {\n            os.rdbuf()->sputn(text.data(), static_cast<std::streamsize>(text.size()));\n            os.width(0);\n        }\n        return os;")],
    "a stream buffer that is full in the middle of the number",
    "the stream stays good although characters are lost",
    """
    struct Full : std::streambuf { int n = 3; int_type overflow(int_type c) override { return n-- > 0 ? traits_type::not_eof(c) : traits_type::eof(); } } full;
    std::ostream os(&full);
    os << fixed32(12345);
    EXPECT(!os.good());
    std::ostringstream ok;
    ok << fixed32(12345);
    EXPECT(ok.str() == "12345");
""")

bug("b16-in-avail", "C16",
    [(FX, "    auto has_next = [&]() -> bool\n    {\n        // peeking again", "    auto has_next = [&]() -> bool\n    {\n        if(std::is_same_v<CharT, wchar_t> && is.rdbuf()->in_avail() == 0)\n            return false;\n        // peeking again"),
     (FX, "    auto next = [&]() -> CharT\n    {\n        return is.get();\n    };", "    auto next = [&]() -> CharT\n    {\n        return Traits::to_char_type(is.get());\n    };")],
    "a wide source without a buffer, or with the end of its buffer within the number",
    "the number ends at the end of the buffer",
    """
    struct One : std::wstreambuf
    {
        const wchar_t* p = L"12.5 ";
        wchar_t c = 0;
        int_type underflow() override
        {
            if(gptr() < egptr())
                return c;
            if(!*p)
                return traits_type::eof();
            c = *p++;
            setg(&c, &c, &c + 1);
            return c;
        }
    } one;
    std::wistream is(&one);
    fixed32 x(0);
    is >> x;
    EXPECT(x == fixed32(12.5));
    std::wistringstream all(L"12.5 ");
    all >> x;
    EXPECT(x == fixed32(12.5));
""")

bug("b22-square-narrowed", "C22",
    [(MA, "        z = (z * z) >> f;", "        z = static_cast<T>((z * z) >> f);")],
    "log2 of a type with a single integral bit",
    "bits of the logarithm are lost",
    """
    typedef fixed_num<int32_t, int64_t, 30> F;
    EXPECT(static_cast<double>(log2(F(1.9))) > 0.92);
    EXPECT(static_cast<double>(abs(log2(fixed32(10)) - fixed32(3.3219))) < 0.001);
""")

bug("b28-seed-keeps-seed", "C28",
    [(RA, "    void seed(std::seed_seq& seq)\n    {\n        std::vector<result_type> seeds(2);\n        seq.generate(seeds.begin(), seeds.end());\n        m_seed = seeds[0];\n        m_state = seeds[1];", "    void seed(std::seed_seq& seq)\n    {\n        std::vector<result_type> seeds(2);\n        seq.generate(seeds.begin(), seeds.end());\n        m_seed = seeds[0] | (m_state & 1);\n        m_state = seeds[1];")],
    "seeding an engine from a seed sequence after an odd number of calls",
    "the sequence of numbers depends on the history",
    """
    pcg2014 a, b;
    int differ = 0;
    for(unsigned i = 0; i < 20; ++i)
    {
        std::seed_seq q{i, 7u}, p{i, 7u};
        a.seed(5), b.seed(5);
        a();
        a.seed(q), b.seed(p);
        differ += a() != b();
    }
    EXPECT(differ == 0);
""", pre="#include <eirin/random.hpp>\n")

bug("b29-reset-restores", "C29",
    [(DI, "    void reset() noexcept\n    {\n        // Nothing to do for uniform distribution.\n    }\n\nprivate:\n    // The underlying int distribution.\n    // To be noticed that we use the internal representation of the fixed number.\n    underlying_type m_dist;\n    param_type m_param;\n};\n\n/**", "    void reset() noexcept\n    {\n        m_param = param_type();\n    }\n\nprivate:\n    // The underlying int distribution.\n    // To be noticed that we use the internal representation of the fixed number.\n    underlying_type m_dist;\n    param_type m_param;\n};\n\n/**")],
    "reset of a distribution adapter that works with standard engines",
    "the range is the one of the type afterwards",
    """
    fixed_int_distribution_adapter<fixed32, std::uniform_int_distribution<int32_t>> d(fixed32(-3), fixed32(4));
    d.reset();
    EXPECT(d.a() == fixed32(-3) && d.max() == fixed32(4));
""", pre="#include <eirin/random.hpp>\n")

bug("b37-last-minimum", "C37",
    [("include/eirin/detail/perf.hpp", "            if(esp < min_esp)", "            if(esp <= min_esp)")],
    "several inputs with the least difference",
    "the last of them is reported",
    """
    auto r = perf::measure_esp<fixed64>(fixed64(1), fixed64(4), fixed64(1), [](fixed64 x) { return x; }, [](fixed64 x) { return x; }, +[](int64_t v) { return fixed64(v); });
    EXPECT(r.min_esp == fixed64(0) && r.min_esp_input == fixed64(1));
""", pre="#include <eirin/detail/perf.hpp>\n")

bug("b04-compound-int32", "C04",
    [(FX, "    constexpr inline fixed_num& operator*=(const std::integral auto& val) noexcept\n    {\n        m_value *= val;", "    constexpr inline fixed_num& operator*=(const std::integral auto& val) noexcept\n    {\n        m_value *= static_cast<int>(val);")],
    "compound multiplication of a small 64 bit number by an integer of 2^31 or more",
    "the integer is truncated",
    """
    fixed64 x = raw<fixed64>(3);
    x *= 5000000000ll;
    EXPECT(x == raw<fixed64>(15000000000ll));
    x = fixed64(3);
    x *= 5;
    EXPECT(x == fixed64(15));
""")

bug("b18-fast-path-bit", "C18",
    [(MA, "                while(b > 0x20)", "                while(b > 0x40)")],
    "the square root of fixed32 numbers whose root needs the last step behind the renormalisation",
    "the root is one ulp too small",
    """
    int less = 0;
    for(long long q = 8400000; q < 11850000; q += 1013)
    {
        fixed32 x = raw<fixed32>((q * q >> 16) + 1);
        long long s = sqrt(x).internal_value();
        less += (s + 1) * (s + 1) <= (static_cast<long long>(x.internal_value()) << 16);
    }
    EXPECT(less == 0);
""")

bug("b24-square-once-more", "C24",
    [(MA, "        for(auto i = b; e != 0; e /= 2, i *= i)", "        for(auto i = b; e > 0; e >>= 1, i = e > 64 ? i * i + fixed::epsilon() : i * i)")],
    "powers of numbers near one with exponents above 128",
    "each of the early squares is one ulp too large",
    """
    fixed64 x = fixed64(1);
    EXPECT(pow(x, 1000) == fixed64(1));
    EXPECT(pow(fixed64(2), 20) == fixed64(1048576));
""")

bug("b14-long-text", "C14",
    [(PA, "    // parse the integer part.\n    while(has_next() && peek() != '.')", "    // parse the integer part.\n    while(pos < 24 && has_next() && peek() != '.')")],
    "more than 24 characters in front of the point",
    "the rest of the text is ignored",
    """
    fixed32 x(0);
    std::string t = "00000000000000000000000012.5";
    const char* e = io::parse(std::string_view(t), x);
    EXPECT(x == fixed32(12.5) && e == t.data() + t.size());
    io::parse(std::string_view("123.5"), x);
    EXPECT(x == fixed32(123.5));
""")
