// Exact text of numbers and an exact reference parser of decimal strings, independent of the library.
#pragma once
#include "gen.hpp"
#include <string>
#include <string_view>

namespace g
{
inline u128 mag(i128 a) { return a < 0 ? -static_cast<u128>(a) : static_cast<u128>(a); }

inline char digit_char(unsigned d, bool upper) { return static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); }

inline std::string digits_of(u128 v, unsigned base, bool upper)
{
    if(v == 0)
        return "0";
    std::string s;
    while(v)
    {
        unsigned d = static_cast<unsigned>(v % base);
        s.push_back(digit_char(d, upper));
        v /= base;
    }
    std::reverse(s.begin(), s.end());
    return s;
}

// all digits of fraction / 2^f (exact), at most limit digits.
inline std::string fraction_digits(u128 fr, unsigned f, unsigned base, bool upper, size_t limit = ~size_t(0))
{
    std::string s;
    while(fr && s.size() < limit)
    {
        fr *= base;
        s.push_back(digit_char(static_cast<unsigned>(fr >> f), upper));
        fr &= (static_cast<u128>(1) << f) - 1;
    }
    return s;
}

inline std::string exact_text(i128 raw, unsigned f, unsigned base = 10, bool upper = false)
{
    u128 m = mag(raw);
    std::string s = raw < 0 ? "-" : "";
    s += digits_of(m >> f, base, upper);
    auto fr = fraction_digits(m & ((static_cast<u128>(1) << f) - 1), f, base, upper);
    if(!fr.empty())
        s += "." + fr;
    return s;
}

// floor of |value| * 2^f of the decimal with the given digit runs; saturates at 2^110
inline u128 decimal_raw(std::string_view ip, std::string_view fp, unsigned f)
{
    const u128 big = static_cast<u128>(1) << 110;
    u128 v = 0;
    for(char ch : ip)
    {
        v = v * 10 + static_cast<unsigned>(ch - '0');
        if(v >= (big >> f))
            return big;
    }
    // doubling the decimal fraction f times: the carries are the bits
    std::vector<unsigned char> d(fp.size());
    for(size_t i = 0; i < fp.size(); ++i)
        d[i] = static_cast<unsigned char>(fp[i] - '0');
    while(!d.empty() && d.back() == 0)
        d.pop_back();
    for(unsigned k = 0; k < f; ++k)
    {
        unsigned carry = 0;
        for(size_t i = d.size(); i-- > 0;)
        {
            unsigned x = d[i] * 2u + carry;
            carry = x >= 10;
            d[i] = static_cast<unsigned char>(carry ? x - 10 : x);
        }
        v = v * 2 + carry;
    }
    return v;
}

// the longest prefix of the form -?digits[.digits]
struct Prefix
{
    bool neg = false;
    std::string_view ip, fp;
    size_t len = 0;
    bool digits = false;
};
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline Prefix longest_prefix(std::string_view s)
{
    Prefix p;
    size_t i = 0;
    if(i < s.size() && s[i] == '-')
    {
        p.neg = true;
        ++i;
    }
    size_t b = i;
    while(i < s.size() && digit(s[i]))
        ++i;
    p.ip = s.substr(b, i - b);
    if(i < s.size() && s[i] == '.')
    {
        ++i;
        b = i;
        while(i < s.size() && digit(s[i]))
            ++i;
        p.fp = s.substr(b, i - b);
    }
    p.len = i;
    p.digits = !p.ip.empty() || !p.fp.empty();
    return p;
}

template <class F>
bool in_range(const Prefix& p, i128& out)
{
    u128 v = decimal_raw(p.ip, p.fp, traits<F>::f);
    u128 lim = p.neg ? mag(traits<F>::min) : static_cast<u128>(traits<F>::max);
    if(v > lim)
        return false;
    out = p.neg ? -static_cast<i128>(v) : static_cast<i128>(v);
    return true;
}

inline std::string gen_digits(Src& s, size_t n)
{
    std::string r;
    switch(s.draw(4))
    {
    case 0:
        r.assign(n, static_cast<char>('0' + s.draw(10)));
        break;
    case 1: // mostly zeros or nines
        for(size_t i = 0; i < n; ++i)
            r.push_back(s.draw(6) ? (s.draw(2) ? '0' : '9') : static_cast<char>('0' + s.draw(10)));
        break;
    default:
        for(size_t i = 0; i < n; ++i)
            r.push_back(static_cast<char>('0' + s.draw(10)));
    }
    return r;
}

// decimal arithmetic on text: add one unit in the last place (k > 0) or subtract it (k < 0) of a "d.d" string without sign
inline std::string nudge(std::string t, int k)
{
    std::string o = t;
    size_t i = t.size();
    while(i-- > 0)
    {
        if(t[i] == '.')
            continue;
        if(k > 0)
        {
            if(t[i] != '9')
            {
                ++t[i];
                return t;
            }
            t[i] = '0';
        }
        else
        {
            if(t[i] != '0')
            {
                --t[i];
                return t;
            }
            t[i] = '9';
        }
    }
    return k > 0 ? "1" + t : o;
}

// a well formed decimal string; kinds: near a representable number, near the ends of the range, random digits, huge.
template <class F>
std::string gen_decimal(Src& s, bool allow_overflow)
{
    typedef traits<F> X;
    std::string t;
    bool neg = false;
    switch(s.draw(8))
    {
    case 0: // exact text of a number
    case 1: // just above or below it
        {
            i128 a = gen_raw<F>(s);
            neg = a < 0;
            t = exact_text(a < 0 ? a : a, X::f);
            if(neg)
                t.erase(0, 1);
            uint64_t k = s.draw(4);
            if(k == 1 || k == 2)
            {
                if(t.find('.') == std::string::npos)
                    t += ".";
                t += gen_digits(s, s.draw(6) + (k == 2 ? X::f : 0));
                t = nudge(t + (k == 1 ? "" : "0"), s.draw(2) ? 1 : -1);
            }
            else if(k == 3)
            {
                if(t.find('.') == std::string::npos)
                    t += ".";
                t += std::string(s.draw(80), '0') + (s.draw(2) ? "1" : "");
            }
            break;
        }
    case 2: // the ends of the range
        {
            neg = X::sgn && s.draw(2);
            i128 e = neg ? X::min : X::max;
            t = exact_text(e, X::f);
            if(neg)
                t.erase(0, 1);
            uint64_t k = s.draw(5);
            if(k == 1)
                t = nudge(t, -1);
            else if(k == 2)
                t = nudge(t, 1);
            else if(k >= 3)
            {
                if(t.find('.') == std::string::npos)
                    t += ".";
                t += std::string(s.draw(30), k == 3 ? '0' : '9');
                if(s.draw(2))
                    t += "1";
            }
            break;
        }
    case 3: // small
        t = std::to_string(s.draw(1000)) + "." + gen_digits(s, s.draw(8));
        neg = X::sgn && s.draw(2);
        break;
    case 4: // integers
        t = digits_of(static_cast<u128>(gen_raw<F>(s, 0, X::max)) >> (s.draw(2) ? X::f : 0), 10, false);
        neg = X::sgn && s.draw(2);
        break;
    case 5: // random runs
        t = gen_digits(s, s.draw(12));
        if(s.draw(4))
            t += "." + gen_digits(s, s.draw(40));
        neg = X::sgn && s.draw(2);
        break;
    case 6: // long fraction
        t = std::to_string(s.draw(X::ibits > 8 ? 100 : 2)) + "." + gen_digits(s, 20 + s.draw(200));
        neg = X::sgn && s.draw(2);
        break;
    default: // long runs, leading zeros
        t = std::string(s.draw(60), '0') + gen_digits(s, s.draw(allow_overflow ? 60 : 6)) + (s.draw(2) ? "." + gen_digits(s, s.draw(60)) : "");
        neg = X::sgn && s.draw(2);
    }
    if(s.draw(8) == 0)
        t = std::string(s.draw(5), '0') + t;
    if(t.empty() || t == ".")
        t = s.draw(2) ? "0" : "7.";
    if(s.draw(12) == 0 && t.size() > 1 && t[0] == '0' && t.find_first_not_of("0.") != std::string::npos && t.find('.') != std::string::npos && t.size() > t.find('.') + 1)
        t = t.substr(t.find('.')); // ".5"
    if(s.draw(400) == 399) // longer than any buffer
    {
        size_t n = s.draw(3000);
        if(s.draw(2))
            t = std::string(n, '0') + t;
        else
        {
            if(t.find('.') == std::string::npos)
                t += ".";
            t += std::string(n, "0950"[s.draw(4)]) + (s.draw(2) ? "1" : "");
        }
    }
    return (neg ? "-" : "") + t;
}
} // namespace g
