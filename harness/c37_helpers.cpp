// C37: the helpers which calculate constants, tables and errors.
#include "ref.hpp"
#include <eirin/detail/perf.hpp>
#include <eirin/detail/util.hpp>
#include <unistd.h>
using namespace g;

enum { L_BIG, L_EXACT, L_FRAC, L_MANY, L_FIRST };

// ---- eval_value: the raw value of a floating point constant with any number of fraction bits, rounded down
template <class I>
static void eval_value_run(Src& s, Case& c)
{
    constexpr int bits = sizeof(I) * 8;
    int fraction = 1 + static_cast<int>(s.draw(bits - 1));
    // a non-negative number below 2^(bits - 1 - fraction)
    int ib = bits - 1 - fraction;
    double v;
    if(s.draw(8) == 0 && !pbt::dict().reals.empty())
        v = std::fabs(pbt::dict().reals[s.draw(pbt::dict().reals.size())]);
    else
    {
        uint64_t m = s.draw(0) >> 11;
        int zeros = static_cast<int>(s.draw(53));
        m = m >> zeros << (s.draw(2) ? zeros : 0);
        v = std::ldexp(static_cast<double>(m), -53 + static_cast<int>(s.draw(static_cast<uint64_t>(ib) + 1)) - static_cast<int>(s.draw(4) ? 0 : s.draw(70)));
    }
    while(v >= std::ldexp(1.0, ib))
        v /= 2;
    i128 want = static_cast<i128>(std::floor(std::ldexp(static_cast<ld>(v), fraction)));
    c.in(want);
    c.in(fraction);
    c.nontrivial = want != 0;
    c.label_if(L_BIG, ib > 0 && v >= 1);
    c.label_if(L_EXACT, std::ldexp(static_cast<ld>(want), -fraction) == v);
    c.label_if(L_FRAC, v != std::floor(v));
    PBT_DESC("eval_value<", bits, " bits>(", static_cast<ld>(v), ", ", fraction, ")");
    i128 got = static_cast<i128>(eirin::util::eval_value<I>(v, fraction));
    PBT_CHECK(got == want, "is ", got, ", expected ", want);
}

// ---- tables
template <size_t N>
static void angles_run(Src& s, Case& c)
{
    typedef eirin::fixed64 F;
    static const auto lut = eirin::util::lut::angels_lut<N>();
    size_t i = s.index(N);
    c.in(i);
    c.in(N);
    c.nontrivial = i > 0;
    PBT_DESC("angels_lut<", N, ">()[", i, "]");
    ld want = M_PIl * static_cast<ld>(i) / static_cast<ld>(N);
    ld err = std::fabs(val(lut[i]) - want);
    PBT_CHECK(c.within(static_cast<double>(err), static_cast<double>((static_cast<ld>(i) * 1.25L + 1) * ulp<F>())), "is ", val(lut[i]), ", expected ", want);
}

static std::vector<eirin::fixed64> calls;
static i128 factor;
static eirin::fixed64 record(eirin::fixed64 x)
{
    calls.push_back(x);
    return mk<eirin::fixed64>(raw(x) * factor + 7);
}
template <size_t N>
static void table_run(Src& s, Case& c)
{
    typedef eirin::fixed64 F;
    factor = 1 + static_cast<i128>(s.draw(1000));
    c.in(factor);
    c.in(N);
    c.nontrivial = true;
    PBT_DESC("func_ptr_lut<", N, ">(x -> ", factor, " x + 7 ulp)");
    calls.clear();
    auto lut = eirin::util::lut::func_ptr_lut<N>(&record);
    PBT_CHECK(calls.size() >= N, "the function is called only ", calls.size(), " times");
    for(size_t i = 0; i < N; ++i)
    {
        i128 arg = (raw(lut[i]) - 7) / factor;
        PBT_CHECK((raw(lut[i]) - 7) % factor == 0, "entry ", i, " is not a value of the function");
        ld want = M_PIl * static_cast<ld>(i) / static_cast<ld>(N - 1), got = std::ldexp(static_cast<ld>(arg), -32);
        PBT_CHECK(c.within(static_cast<double>(std::fabs(got - want)), static_cast<double>((static_cast<ld>(i) * 1.25L + 1) * ulp<F>())), "entry ", i, " is the value at ", got, ", expected ", want);
    }
}

// ---- pi by the BBP formula
template <class T, int f, int N>
static void pi_run(Src& s, Case& c)
{
    s.index(1);
    c.in(f * 1000 + N);
    c.in(sizeof(T));
    c.nontrivial = true;
    PBT_DESC("bbp_calc_pi<", sizeof(T) * 8, " bits, ", f, ", ", N, ">");
    T v = eirin::util::pi_calc::bbp_calc_pi<T, f, N>();
    q128 err = fabsq(ldexpq(static_cast<q128>(v), -f) - M_PIq), allowed = ldexpq(8 * N + 1, -f) + ldexpq(1, -4 * N);
    PBT_CHECK(c.within(static_cast<double>(err), static_cast<double>(allowed)), "the error is ", static_cast<double>(err), ", allowed ", static_cast<double>(allowed));
}

// ---- the generator of the constants
static void constants_run(Src& s, Case& c)
{
    s.index(1);
    c.in(1);
    c.nontrivial = true;
    PBT_DESC("print_constants()");
    FILE* tmp = std::tmpfile();
    std::fflush(stdout);
    int keep = dup(1);
    dup2(fileno(tmp), 1);
    eirin::util::print_constants();
    std::fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::rewind(tmp);
    std::string text;
    char buf[4096];
    for(size_t n; (n = std::fread(buf, 1, sizeof buf, tmp)) > 0;)
        text.append(buf, n);
    std::fclose(tmp);
    typedef fx<int64_t, 61> F;
    namespace k = eirin::numbers;
    struct
    {
        const char* name;
        ld value;
    } const want[] = {{"log2e", 1.442695040888963407359924681L}, {"log10e", 0.434294481903251827651128919L}, {"inv_pi", 0.318309886183790671537767526745L}, {"inv_sqrtpi", 0.564189583547756286948079451560772586L}, {"ln2", 0.693147180559945309417232121458L}, {"ln10", 2.302585092994045684017991454684L}, {"sqrt2", 1.414213562373095048801688724209698L}, {"sqrt3", 1.732050807568877293527446341505872L}, {"inv_sqrt3", 0.577350269189625764509148780501957L}, {"egamma", 0.577215664901532860606512090082402L}, {"phi", 1.618033988749894848204586834365638L}};
    for(auto& w : want)
    {
        size_t p = text.find(std::string(" ") + w.name + "_v()");
        PBT_CHECK(p != std::string::npos, "there is no ", w.name);
        size_t h = text.find("0x", p);
        PBT_CHECK(h != std::string::npos && h < p + 200, "there is no value of ", w.name);
        unsigned long long v = std::strtoull(text.c_str() + h, nullptr, 16);
        // the values are calculated in double
        i128 exact = static_cast<i128>(std::ldexp(static_cast<ld>(static_cast<double>(w.value)), 61));
        PBT_CHECK(static_cast<i128>(v) == exact, w.name, " is ", static_cast<i128>(v), ", expected ", exact);
    }
}

// ---- measure_esp
template <class F>
static void esp_run(Src& s, Case& c)
{
    typedef traits<F> X;
    static i128 table[64];
    i128 start = gen_raw<F>(s, X::min / 2, X::max / 2), step = 1 + static_cast<i128>(s.draw(s.draw(2) ? 1000 : 0x7fffff));
    size_t n = 1 + s.draw(40);
    i128 end = start + step * static_cast<i128>(n - 1) + static_cast<i128>(s.draw(static_cast<uint64_t>(step)));
    if(!fits<F>(end + step))
    {
        c.discarded = true;
        return;
    }
    i128 mx = 0, mn = static_cast<i128>(255) << X::f, mxi = 0, mni = 0;
    for(size_t i = 0; i < n; ++i)
    {
        i128 e = static_cast<i128>(s.draw(s.draw(2) ? 8 : 100000));
        table[i] = s.draw(2) ? e : -e;
        if(e > mx)
            mx = e, mxi = start + step * static_cast<i128>(i);
        if(e < mn)
            mn = e, mni = start + step * static_cast<i128>(i);
        c.in(table[i]);
    }
    c.in(start);
    c.in(step);
    c.nontrivial = n > 1;
    c.label_if(L_MANY, n > 8);
    c.label_if(L_FIRST, mxi == start);
    PBT_DESC("measure_esp of ", traits<F>::name(), " from raw ", start, " to ", end, " step ", step, ", greatest error ", mx, ", least ", mn);
    auto func = [](F x) { return mk<F>(raw(x) / 2); };
    auto real = [&](F x) { return mk<F>(raw(x) / 2 + table[static_cast<size_t>((raw(x) - start) / step)]); };
    auto r = eirin::perf::measure_esp<F>(mk<F>(start), mk<F>(end), mk<F>(step), func, real, [](int64_t v) { return F(v); });
    PBT_CHECK(raw(r.max_esp) == mx, "the greatest error is ", raw(r.max_esp));
    PBT_CHECK(raw(r.min_esp) == mn, "the least error is ", raw(r.min_esp));
    PBT_CHECK(raw(r.max_esp_input) == mxi, "the input of the greatest error is ", raw(r.max_esp_input), ", expected ", mxi);
    PBT_CHECK(raw(r.min_esp_input) == mni, "the input of the least error is ", raw(r.min_esp_input), ", expected ", mni);
}

template <class T, int f, int... N>
static void add_pi(std::integer_sequence<int, N...>)
{
    (pbt::add_all(pbt::cat("pi/", sizeof(T) * 8, "f", f, "/", N + 1), 1, &pi_run<T, f, N + 1>), ...);
}
template <class T, int... f>
static void add_pis(std::integer_sequence<int, f...>)
{
    (add_pi<T, f + 1>(std::make_integer_sequence<int, 12>()), ...);
}

static int r0 = []
{
    pbt::labels({"at least one", "exactly representable", "with a fraction", "more than eight inputs", "greatest error at the first input"});
    pbt::rule("a number whose raw value is not zero, a table entry other than the first, a configuration of the pi calculation, or an error measurement with more than one input");
    pbt::add("eval_value/i64", 6000000, 300000000, &eval_value_run<int64_t>);
    pbt::add("eval_value/i32", 3000000, 100000000, &eval_value_run<int32_t>);
    pbt::add("eval_value/i16", 3000000, 50000000, &eval_value_run<int16_t>);
    pbt::add_all("angles/1", 1, &angles_run<1>);
    pbt::add_all("angles/2", 2, &angles_run<2>);
    pbt::add_all("angles/7", 7, &angles_run<7>);
    pbt::add_all("angles/64", 64, &angles_run<64>);
    pbt::add_all("angles/512", 512, &angles_run<512>);
    pbt::add_all("angles/1000", 1000, &angles_run<1000>);
    pbt::add("table/2", 2000, 20000, &table_run<2>);
    pbt::add("table/3", 2000, 20000, &table_run<3>);
    pbt::add("table/100", 2000, 20000, &table_run<100>);
    pbt::add("table/512", 2000, 20000, &table_run<512>);
    pbt::add_all("constants", 1, &constants_run);
    add_pi<int64_t, 61>(std::make_integer_sequence<int, 24>());
    add_pi<int64_t, 48>(std::make_integer_sequence<int, 16>());
    add_pi<int64_t, 32>(std::make_integer_sequence<int, 16>());
    add_pi<int64_t, 17>(std::make_integer_sequence<int, 8>());
    add_pi<int32_t, 29>(std::make_integer_sequence<int, 16>());
    add_pi<int32_t, 16>(std::make_integer_sequence<int, 16>());
    add_pi<int16_t, 13>(std::make_integer_sequence<int, 8>());
    add_pi<int16_t, 8>(std::make_integer_sequence<int, 8>());
    pbt::add("measure_esp/i32f16", 300000, 6000000, &esp_run<eirin::fixed32>);
    pbt::add("measure_esp/i64f32", 300000, 6000000, &esp_run<eirin::fixed64>);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
