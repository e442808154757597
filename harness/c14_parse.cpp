// C14: parsing decimal strings gives their value truncated toward zero.
#include "text.hpp"
#include <eirin/eirin.hpp>
using namespace g;

enum { L_NEG, L_LONG, L_LOSSY, L_EDGE, L_NOINT, L_NOFRAC, L_TAIL };

template <class F>
std::string make(Src& s, Case& c, i128& want)
{
    std::string t = gen_decimal<F>(s, false);
    auto p = longest_prefix(t);
    if(!in_range<F>(p, want))
    {
        // drop leading digits of the integral part until it fits
        std::string ip(p.ip), fp(p.fp);
        bool neg = p.neg;
        for(;;)
        {
            ip = ip.empty() ? ip : ip.substr(1);
            if(ip.empty())
                fp = "0" + fp;
            t = (neg ? "-" : "") + ip + "." + fp;
            auto q = longest_prefix(t);
            if(in_range<F>(q, want))
                break;
        }
        p = longest_prefix(t);
    }
    c.in(t);
    c.nontrivial = want != 0;
    c.label_if(L_NEG, t[0] == '-');
    c.label_if(L_LONG, t.size() > 24);
    c.label_if(L_LOSSY, exact_text(want, traits<F>::f).size() < t.size());
    c.label_if(L_EDGE, want == traits<F>::min || want == traits<F>::max);
    c.label_if(L_NOINT, p.ip.empty());
    c.label_if(L_NOFRAC, p.fp.empty());
    return t;
}

template <class F>
struct Parse
{
    static void run(Src& s, Case& c)
    {
        i128 want = 0;
        std::string t = make<F>(s, c, want);
        // what follows must not matter
        static const char* tails[] = {"", "7", ".5", "9999", "abc", "-", " 1"};
        std::string buf = t + tails[s.draw(7)];
        PBT_DESC(pbt::quote(t), " as ", traits<F>::name(), " is raw ", want);
        F x = mk<F>(gen_raw<F>(s));
        bool ok = eirin::fixed_from_cstring(buf.data(), t.size(), x);
        PBT_CHECK(ok, "fixed_from_cstring failed");
        PBT_CHECK(raw(x) == want, "fixed_from_cstring gives raw ", raw(x), ", expected ", want);
        if constexpr(std::is_same_v<F, f32>)
        {
            F y = mk<F>(gen_raw<F>(s));
            ok = eirin::f32_from_cstring(buf.data(), t.size(), y);
            PBT_CHECK(ok && raw(y) == want, "f32_from_cstring gives ", ok ? "raw " : "an error, raw ", raw(y), ", expected ", want);
            y = mk<F>(gen_raw<F>(s));
            const char* e = eirin::io::parse(std::string_view(buf.data(), t.size()), y);
            PBT_CHECK(e == buf.data() + t.size(), "io::parse(string_view) stops at ", e - buf.data(), " of ", t.size());
            PBT_CHECK(raw(y) == want, "io::parse(string_view) gives raw ", raw(y), ", expected ", want);
            // end pointer: the character there ends the number
            static const char ends[] = {'\0', ';', ' ', 'a', '\n', '/', ':'};
            std::string b2 = t + ends[s.draw(7)] + "123";
            y = mk<F>(gen_raw<F>(s));
            e = eirin::io::parse(b2.data(), b2.data() + t.size(), y);
            PBT_CHECK(e == b2.data() + t.size(), "io::parse(start, stop) stops at ", e - b2.data(), " of ", t.size());
            PBT_CHECK(raw(y) == want, "io::parse(start, stop) gives raw ", raw(y), ", expected ", want);
            PBT_CHECK(raw(eirin::operator""_f32(buf.data(), t.size())) == want, "\"...\"_f32 gives raw ", raw(eirin::operator""_f32(buf.data(), t.size())), ", expected ", want);
        }
        if constexpr(std::is_same_v<F, f64>)
            PBT_CHECK(raw(eirin::operator""_f64(buf.data(), t.size())) == want, "\"...\"_f64 gives raw ", raw(eirin::operator""_f64(buf.data(), t.size())), ", expected ", want);
    }
};

// every short string over a small alphabet: digits 0 1 5 9, point, leading minus
struct Short
{
    static void run(Src& s, Case& c)
    {
        uint64_t i = s.index(2 * 5 * 5 * 5 * 5 * 5 * 5 * 5);
        bool neg = i & 1;
        i >>= 1;
        std::string t;
        bool point = false;
        for(int k = 0; k < 7; ++k, i /= 5)
        {
            char ch = "0159."[i % 5];
            if(ch == '.')
            {
                if(point)
                    break;
                point = true;
            }
            t.push_back(ch);
        }
        if(t == ".")
            t = "0.";
        if(neg)
            t = "-" + t;
        auto p = longest_prefix(t);
        i128 want;
        c.in(t);
        if(!in_range<f32>(p, want))
        {
            f32 x = mk<f32>(4711);
            PBT_DESC(pbt::quote(t), " is out of range");
            PBT_CHECK(!eirin::fixed_from_cstring(t.data(), t.size(), x) && raw(x) == 4711, "not rejected");
            return;
        }
        c.nontrivial = want != 0;
        PBT_DESC(pbt::quote(t), " is raw ", want);
        f32 x = mk<f32>(4711), y = x, z = x;
        PBT_CHECK(eirin::fixed_from_cstring(t.data(), t.size(), x) && raw(x) == want, "fixed_from_cstring gives raw ", raw(x));
        PBT_CHECK(eirin::f32_from_cstring(t.data(), t.size(), y) && raw(y) == want, "f32_from_cstring gives raw ", raw(y));
        const char* e = eirin::io::parse(std::string_view(t), z);
        PBT_CHECK(e == t.data() + t.size() && raw(z) == want, "io::parse gives raw ", raw(z));
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Parse, BOTH, 1, 1, 64>(signed_storage{}, "sweep/parse", 10000, 200000);
    sweep<Parse, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/parse", 10000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "more than 24 characters", "not representable, truncated", "an end of the range", "no integral digits", "no fractional digits"});
    pbt::rule("a decimal string: the exact text of a number, that text changed in or after its last digit, around the ends of the range, random runs of digits, up to 260 digits; strings out of range lose leading digits until they fit; non-trivial: the value is not zero");
    each<Parse>(types<f32>{}, "parse", 4000000, 100000000);
    each<Parse>(types<f64>{}, "parse", 3000000, 80000000);
    each<Parse>(types<fx<int8_t, 4>, fx<int16_t, 8>, fx<int16_t, 14>, fx<int32_t, 1>, fx<int32_t, 24>, fx<int32_t, 30>, fx<int32_t, 31>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>, fx<uint32_t, 16>, fx<uint64_t, 32>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "parse", 200000, 6000000);
    pbt::add_all("short", 2 * 5 * 5 * 5 * 5 * 5 * 5 * 5, &Short::run);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
