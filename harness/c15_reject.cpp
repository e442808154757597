// C15: arbitrary and out-of-range text, in buffers of exactly its size (built with the address and undefined behaviour sanitizers).
#include "parse_oracle.hpp"
using namespace g;

enum { L_INVALID, L_OVER, L_VALID, L_LONG, L_NUL, L_HIGH, L_EMPTY };

template <class F>
std::string gen_text(Src& s)
{
    static const char alpha[] = "0123456789.-";
    std::string t;
    switch(s.draw(6))
    {
    case 0: // any bytes
        {
            size_t n = s.draw(12);
            for(size_t i = 0; i < n; ++i)
                t.push_back(static_cast<char>(s.draw(256)));
            break;
        }
    case 1: // characters of numbers in any order
        {
            size_t n = s.draw(14);
            for(size_t i = 0; i < n; ++i)
                t.push_back(alpha[s.draw(12)]);
            break;
        }
    case 2: // a number with one edit
    case 3:
        {
            t = gen_decimal<F>(s, true);
            static const char odd[] = {'a', ' ', '\0', '+', '-', '.', ',', 'e', '/', ':', '\x7f', '\xff', '\xb0', 'x', '\n', '\''};
            char ch = odd[s.draw(16)];
            size_t at = s.draw(t.size() + 1);
            switch(s.draw(3))
            {
            case 0:
                t.insert(at, 1, ch);
                break;
            case 1:
                if(at < t.size())
                    t[at] = ch;
                break;
            default:
                t += ch;
            }
            break;
        }
    case 4: // magnitudes: 2^k times the end of the range, for wrap-around
        {
            u128 m = static_cast<u128>(traits<F>::max >> traits<F>::f) + 1;
            unsigned k = static_cast<unsigned>(s.draw(60));
            u128 v = k < 100 - static_cast<unsigned>(std::max(0, traits<F>::ibits)) ? m << k : m;
            v += static_cast<u128>(s.draw(5)) - 2;
            if(static_cast<i128>(v) < 0)
                v = 0;
            t = (s.draw(2) ? "-" : "") + digits_of(v, 10, false) + (s.draw(2) ? "." + gen_digits(s, s.draw(10)) : "");
            break;
        }
    default:
        t = gen_decimal<F>(s, true);
    }
    return t;
}

template <class F>
struct Reject
{
    static void run(Src& s, Case& c)
    {
        std::string t = gen_text<F>(s);
        i128 old = gen_raw<F>(s);
        char stop = "\0;a0.-5 "[s.draw(8)];
        auto v = judge<F>(t);
        c.in(t);
        c.nontrivial = !v.valid || !v.in_range;
        c.label_if(L_INVALID, !v.valid);
        c.label_if(L_OVER, !v.in_range);
        c.label_if(L_VALID, v.valid && v.in_range);
        c.label_if(L_LONG, t.size() > 40);
        c.label_if(L_NUL, t.find('\0') != std::string::npos);
        c.label_if(L_EMPTY, !v.digits);
        PBT_DESC(pbt::quote(t), " as ", traits<F>::name(), ", the number was raw ", old, ", end character ", static_cast<int>(stop));
        std::string m = check_lenient<F>(t, old);
        PBT_CHECK(m.empty(), m);
        if constexpr(std::is_same_v<F, f32>)
        {
            m = check_strict(t, old, stop);
            PBT_CHECK(m.empty(), m);
        }
        m = check_stream<F>(t, old);
        PBT_CHECK(m.empty(), m);
    }
};

// all strings of up to five characters over an alphabet of seven
struct Short
{
    static void run(Src& s, Case& c)
    {
        uint64_t i = s.index(7 + 49 + 343 + 2401 + 16807 + 1);
        std::string t;
        uint64_t n = 1, len = 0;
        while(i >= n)
        {
            i -= n;
            n *= 7;
            ++len;
        }
        for(uint64_t k = 0; k < len; ++k, i /= 7)
            t.push_back("05-.a+ "[i % 7]);
        c.in(t);
        auto v = judge<f32>(t);
        c.nontrivial = !v.valid;
        PBT_DESC(pbt::quote(t));
        std::string m = check_lenient<f32>(t, 4711);
        PBT_CHECK(m.empty(), m);
        m = check_strict(t, -4711, 'a');
        PBT_CHECK(m.empty(), m);
        m = check_stream<f32>(t, 4711);
        PBT_CHECK(m.empty(), m);
        m = check_lenient<f64>(t, 4711);
        PBT_CHECK(m.empty(), m);
    }
};

static int r0 = []
{
    pbt::labels({"contains characters that do not belong to a number", "prefix out of range", "valid and in range", "more than 40 characters", "contains a NUL", "high bytes", "no digit in the prefix"});
    pbt::rule("any bytes, characters of numbers in any order, numbers with one edit, numbers around multiples of the ends of the range, in heap blocks of exactly their size, with a random previous value of the output; non-trivial: the text is malformed or out of range");
    each<Reject>(types<f32>{}, "reject", 600000, 20000000);
    each<Reject>(types<f64>{}, "reject", 300000, 10000000);
    each<Reject>(types<fx<int8_t, 4>, fx<int16_t, 8>, fx<int32_t, 1>, fx<int32_t, 24>, fx<int32_t, 31>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>, fx<uint32_t, 16>, fx<uint64_t, 32>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "reject", 50000, 1500000);
    pbt::add_all("short", 7 + 49 + 343 + 2401 + 16807 + 1, &Short::run);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
