// C17: what is printed parses back to the same number.
#include "text.hpp"
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <format>
#include <sstream>
using namespace g;

enum { L_NEG, L_FRAC, L_EDGE, L_SEQ };

template <class F>
struct Trip
{
    typedef traits<F> X;
    static void back(std::string_view t, i128 a, const char* how)
    {
        F x = mk<F>(a ^ 1);
        PBT_CHECK(eirin::fixed_from_cstring(t.data(), t.size(), x) && raw(x) == a, how, " wrote ", t, ", fixed_from_cstring reads raw ", raw(x));
        if constexpr(std::is_same_v<F, f32>)
        {
            x = mk<F>(a ^ 1);
            PBT_CHECK(eirin::f32_from_cstring(t.data(), t.size(), x) && raw(x) == a, how, " wrote ", t, ", f32_from_cstring reads raw ", raw(x));
            x = mk<F>(a ^ 1);
            auto e = eirin::io::parse(t, x);
            PBT_CHECK(e == t.data() + t.size() && raw(x) == a, how, " wrote ", t, ", io::parse reads raw ", raw(x));
            x = eirin::operator""_f32(t.data(), t.size());
            PBT_CHECK(raw(x) == a, how, " wrote ", t, ", _f32 reads raw ", raw(x));
        }
        if constexpr(std::is_same_v<F, f64>)
        {
            x = eirin::operator""_f64(t.data(), t.size());
            PBT_CHECK(raw(x) == a, how, " wrote ", t, ", _f64 reads raw ", raw(x));
        }
    }
    static void check(Case& c, i128 a, bool streams)
    {
        c.in(a);
        c.nontrivial = (a & (pow2(X::f) - 1)) != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_FRAC, c.nontrivial);
        c.label_if(L_EDGE, a == X::min || a == X::max);
        const F x = mk<F>(a);
        PBT_DESC(show(x));
        char buf[1200];
        char* e = F::copy_as_chars_to(x, buf);
        back(std::string_view(buf, static_cast<size_t>(e - buf)), a, "the iterator interface");
        if(streams)
        {
            std::stringstream ss;
            ss << x;
            back(ss.view(), a, "stream output");
            F y = mk<F>(a ^ 1);
            ss >> y;
            PBT_CHECK(!ss.fail() && raw(y) == a, "stream output wrote ", ss.str(), ", extraction reads raw ", raw(y));
            std::string f = std::format("{:.70f}", x);
            back(f, a, "format with .70f");
            f = std::format("{:.70}", x);
            back(f, a, "format with .70");
            std::istringstream is(std::format("{:>90.70g}", x));
            y = mk<F>(a ^ 1);
            is >> y;
            PBT_CHECK(!is.fail() && raw(y) == a, "format with >90.70g, extraction reads raw ", raw(y));
        }
    }
    static void run(Src& s, Case& c) { check(c, gen_raw<F>(s), true); }
    static void all32(Src& s, Case& c)
    {
        uint64_t i = s.index(1ull << 32);
        check(c, X::min + static_cast<i128>(i), (i & 63) == 0);
    }
    static void all16(Src& s, Case& c) { check(c, X::min + static_cast<i128>(s.index(65536)), true); }
    static void seq(Src& s, Case& c)
    {
        size_t n = 1 + s.draw(12);
        std::vector<i128> v;
        std::stringstream ss;
        static const char* sep[] = {" ", "\n", "\t", "  \r\n"};
        for(size_t i = 0; i < n; ++i)
        {
            v.push_back(gen_raw<F>(s));
            c.in(v.back());
            if(i)
                ss << sep[s.draw(4)];
            ss << mk<F>(v.back());
        }
        c.nontrivial = n > 1;
        c.label(L_SEQ);
        PBT_DESC(n, " numbers: ", ss.str());
        for(size_t i = 0; i < n; ++i)
        {
            F y = mk<F>(0);
            PBT_CHECK(ss >> y, "number ", i, " could not be read");
            PBT_CHECK(raw(y) == v[i], "number ", i, " reads as raw ", raw(y), ", expected ", v[i]);
        }
        F y = mk<F>(1);
        PBT_CHECK(!(ss >> y), "there is one number too much");
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Trip, BOTH, 1, 1, 64>(signed_storage{}, "sweep/trip", 4000, 100000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "has a fraction", "an end of the range", "sequence of numbers"});
    pbt::rule("a generated or enumerated number printed and read in every way, or a sequence of up to twelve numbers on one stream; non-trivial: it has a fraction, or the sequence more than one number");
    each<Trip>(mains{}, "trip", 600000, 20000000);
    each<Trip>(types<fx<int32_t, 1>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int32_t, 30>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "trip", 60000, 2000000);
    pbt::add("seq/i32f16", 200000, 4000000, &Trip<f32>::seq);
    pbt::add("seq/i64f32", 200000, 4000000, &Trip<f64>::seq);
    pbt::add("seq/i64f48", 50000, 1000000, &Trip<fx<int64_t, 48>>::seq);
    pbt::add_all("all/i16f8", 65536, &Trip<fx<int16_t, 8>>::all16);
    pbt::add_all_thorough("all/i32f16", 5000000, 1ull << 32, &Trip<f32>::all32);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
