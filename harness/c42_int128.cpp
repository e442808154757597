// C42: the 128 bit integer of ext/builtin_ints.hpp, against the built-in one.
#include "gen.hpp"
#include <eirin/ext/builtin_ints.hpp>
using namespace g;
using eirin::ext::int128;

enum { L_NEG, L_CARRY, L_BORROW, L_SAT, L_HALF, L_LONG };

constexpr i128 P64 = static_cast<i128>(1) << 64;
constexpr i128 SMAX = (static_cast<i128>(1) << 63) - 1, SMIN = -SMAX - 1;

static i128 value(int128 v) { return static_cast<i128>(v.high_bits()) * P64 + v.low_bits(); }

static int64_t word(Src& s)
{
    switch(s.draw(4))
    {
    case 0: return static_cast<int64_t>(s.draw(9)) - 4;
    case 1:
        {
            // next to an end or half of the range
            uint64_t v = static_cast<uint64_t>(s.draw(4)) << 62;
            return static_cast<int64_t>(v + s.draw(7) - 3);
        }
    case 2: return static_cast<int64_t>(s.draw(0)) >> s.draw(64);
    default: return static_cast<int64_t>(s.draw(0));
    }
}

static void conversion(Case& c, int128 v, i128 w)
{
    const i128 e = w > SMAX ? SMAX : w < SMIN ? SMIN : w;
    c.label_if(L_SAT, e != w);
    PBT_CHECK(static_cast<int64_t>(v) == static_cast<int64_t>(e), "the conversion of ", w, " to int64_t gives ", static_cast<int64_t>(v), " instead of ", static_cast<int64_t>(e));
}

template <class V>
static void one(Case& c, V v)
{
    PBT_DESC("int128(", static_cast<i128>(v), "), ", sizeof(V), " bytes, ", std::is_signed_v<V> ? "signed" : "unsigned");
    const int128 x(v);
    int128 y = x;
    PBT_CHECK(value(y) == static_cast<i128>(v), "holds ", value(y));
    conversion(c, x, static_cast<i128>(v));
}

template <class V>
static void two(Case& c, V h, V l)
{
    PBT_DESC("int128(", static_cast<i128>(h), ", ", static_cast<i128>(l), ")");
    int128 y(h, l);
    PBT_CHECK(y.high_bits() == static_cast<int64_t>(h) && y.low_bits() == static_cast<int64_t>(l), "the parts are ", y.high_bits(), " and ", y.low_bits());
}

static void construct(Src& s, Case& c)
{
    const int64_t v = word(s), w = word(s);
    c.in(v);
    c.in(w);
    c.nontrivial = v != 0;
    c.label_if(L_NEG, v < 0);
    switch(s.draw(14))
    {
    case 0: one(c, v); break;
    case 1: one(c, static_cast<uint64_t>(v)); break;
    case 2: one(c, static_cast<int32_t>(v)); break;
    case 3: one(c, static_cast<uint32_t>(v)); break;
    case 4: one(c, static_cast<int16_t>(v)); break;
    case 5: one(c, static_cast<uint16_t>(v)); break;
    case 6: one(c, static_cast<int8_t>(v)); break;
    case 7: one(c, static_cast<uint8_t>(v)); break;
    case 8: one(c, static_cast<unsigned long long>(v)); break;
    case 9: one(c, v % 2 == 0); break;
    case 10: two(c, v, w); break;
    case 11: two(c, static_cast<int32_t>(v), static_cast<int32_t>(w)); break;
    case 12:
        {
            double d = static_cast<double>(v) / std::ldexp(1.0, static_cast<int>(s.draw(60)));
            if(d >= 0x1p63)
                d = 0x1p62;
            PBT_DESC("int128(", d, ")");
            int128 x(d);
            PBT_CHECK(value(x) == static_cast<i128>(d), "holds ", value(x));
            break;
        }
    default:
        {
            float d = static_cast<float>(v) / std::ldexp(1.0f, static_cast<int>(s.draw(60)));
            if(d >= 0x1p63f)
                d = 0x1p62f;
            PBT_DESC("int128(", d, ")");
            int128 x(d);
            PBT_CHECK(value(x) == static_cast<i128>(d), "holds ", value(x));
        }
    }
}

static bool representable(i128 h, i128 l, int64_t& rh, int64_t& rl)
{
    i128 carry = l > SMAX ? 1 : l < SMIN ? -1 : 0;
    l -= carry * P64;
    h += carry;
    if(h > SMAX || h < SMIN)
        return false;
    rh = static_cast<int64_t>(h);
    rl = static_cast<int64_t>(l);
    return true;
}

// sums of a history of numbers, with representable results
static void sums(Src& s, Case& c)
{
    int64_t h = word(s) >> s.draw(64), l = word(s);
    int128 sum(h, l);
    const size_t n = 1 + s.draw(6);
    c.label_if(L_LONG, n > 3);
    for(size_t i = 0; i < n; ++i)
    {
        int64_t h2 = word(s) >> s.draw(64), l2 = word(s);
        switch(s.draw(6))
        {
        case 0: // next to a carry or borrow
            l2 = static_cast<int64_t>((l >= 0 ? static_cast<uint64_t>(SMAX) : static_cast<uint64_t>(SMIN)) - static_cast<uint64_t>(l) + s.draw(5) - 2);
            break;
        case 1: // the number itself
            h2 = h;
            l2 = l;
            break;
        }
        int64_t rh, rl;
        if(!representable(static_cast<i128>(h) + h2, static_cast<i128>(l) + l2, rh, rl))
            continue;
        const int128 other(h2, l2), before = sum;
        c.in(h2);
        c.in(l2);
        c.nontrivial = true;
        c.label_if(L_NEG, h2 < 0 || l2 < 0);
        c.label_if(L_CARRY, static_cast<i128>(l) + l2 > SMAX);
        c.label_if(L_BORROW, static_cast<i128>(l) + l2 < SMIN);
        c.label_if(L_HALF, rl == static_cast<int64_t>(SMIN) || rl == static_cast<int64_t>(SMAX));
        PBT_DESC("(", h, ", ", l, ") + (", h2, ", ", l2, ")");
        sum = before + other;
        PBT_CHECK(sum.high_bits() == rh && sum.low_bits() == rl, "the sum is (", sum.high_bits(), ", ", sum.low_bits(), ") instead of (", rh, ", ", rl, ")");
        int128 swapped = other + before;
        PBT_CHECK(swapped.high_bits() == rh && swapped.low_bits() == rl, "the sum with exchanged operands is (", swapped.high_bits(), ", ", swapped.low_bits(), ")");
        int128 copy = before, copy2 = other;
        PBT_CHECK(copy.high_bits() == h && copy.low_bits() == l && copy2.high_bits() == h2 && copy2.low_bits() == l2, "an operand has changed");
        const int64_t e = rh > 0 ? static_cast<int64_t>(SMAX) : rh < 0 ? static_cast<int64_t>(SMIN) : rl;
        c.label_if(L_SAT, rh != 0);
        PBT_CHECK(static_cast<int64_t>(sum) == e, "the conversion to int64_t gives ", static_cast<int64_t>(sum), " instead of ", e);
        h = rh;
        l = rl;
    }
}

static int r0 = []
{
    pbt::labels({"negative part", "the low parts carry", "the low parts borrow", "saturating conversion", "low part at an end of its range", "more than three additions"});
    pbt::rule("constructions from every integer type and from floating point numbers, and sums of up to seven numbers, drawn small, next to the ends of the words, and arbitrary; non-trivial: the number is not zero");
    pbt::add("construct", 4000000, 100000000, &construct);
    pbt::add("sums", 4000000, 100000000, &sums);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
