// C29: distributions, as histories of calls against a model of the range.
#include "gen.hpp"
#include <eirin/eirin.hpp>
#include <set>
#include <sstream>
using namespace g;

enum { L_ONE, L_FULL, L_SMALLR, L_PARAM, L_CALLPARAM, L_COVER, L_EQ };

template <class F>
void gen_range(Src& s, i128& a, i128& b)
{
    typedef traits<F> X;
    switch(s.draw(5))
    {
    case 0:
        a = X::min;
        b = X::max;
        break;
    case 1:
        a = b = gen_raw<F>(s);
        break;
    case 2:
        a = gen_raw<F>(s);
        b = std::min(X::max, a + static_cast<i128>(s.draw(6)));
        break;
    default:
        a = gen_raw<F>(s);
        b = gen_raw<F>(s);
        if(a > b)
            std::swap(a, b);
    }
}

// what the underlying distribution gives for the raw ends
template <class D, class Gen>
i128 underlying(i128 a, i128 b, Gen& gen)
{
    typedef typename D::underlying_type U;
    U u{static_cast<typename U::result_type>(a), static_cast<typename U::result_type>(b)};
    if constexpr(requires { gen.__underlying_engine(); })
        return static_cast<i128>(u(gen.__underlying_engine()));
    else
        return static_cast<i128>(u(gen));
}

template <class D, class F, class Gen>
void history(Src& s, Case& c, Gen gen)
{
    typedef typename D::param_type P;
    i128 a, b;
    gen_range<F>(s, a, b);
    std::ostringstream log;
    bool by_param = s.draw(2);
    bool def = s.draw(8) == 0;
    if(def)
    {
        a = traits<F>::min;
        b = traits<F>::max;
    }
    D d = def ? D() : by_param ? D(P(mk<F>(a), mk<F>(b))) : D(mk<F>(a), mk<F>(b));
    Gen gen2 = gen, gen3 = gen;
    size_t steps = 1 + s.draw(15);
    log << " range [" << pbt::to_s(a) << "," << pbt::to_s(b) << "]";
    auto reported = [&]
    {
        PBT_CHECK(raw(d.a()) == a && raw(d.b()) == b && raw(d.min()) == a && raw(d.max()) == b, "a(), b(), min(), max() report raw ", raw(d.a()), ", ", raw(d.b()), ", ", raw(d.min()), ", ", raw(d.max()), " after", log.str());
        P p = d.param();
        PBT_CHECK(raw(p.a()) == a && raw(p.b()) == b && p == P(mk<F>(a), mk<F>(b)) && !(p != P(mk<F>(a), mk<F>(b))), "param() reports raw ", raw(p.a()), ", ", raw(p.b()), " after", log.str());
        // parameters which differ in one end or both are different
        for(i128 x : {a, traits<F>::min})
            for(i128 y : {b, traits<F>::max})
            {
                P q(mk<F>(x), mk<F>(y));
                bool same = x == a && y == b;
                PBT_CHECK((p == q) == same && (p != q) == !same && (q == p) == same, "the parameters raw [", a, ", ", b, "] and [", x, ", ", y, "] compare ", same ? "unequal" : "equal");
            }
    };
    reported();
    for(size_t st = 0; st < steps; ++st)
    {
        c.in(a);
        c.in(b);
        switch(s.draw(5))
        {
        case 0:
            gen_range<F>(s, a, b);
            d.param(P(mk<F>(a), mk<F>(b)));
            log << " param [" << pbt::to_s(a) << "," << pbt::to_s(b) << "]";
            c.label(L_PARAM);
            break;
        case 1:
            {
                i128 x, y;
                gen_range<F>(s, x, y);
                log << " call with [" << pbt::to_s(x) << "," << pbt::to_s(y) << "]";
                c.label(L_CALLPARAM);
                D fresh{mk<F>(x), mk<F>(y)};
                F v = d(gen, P(mk<F>(x), mk<F>(y)));
                PBT_CHECK(raw(v) >= x && raw(v) <= y, "raw ", raw(v), " is outside of the range of the parameters after", log.str());
                F w = fresh(gen2);
                PBT_CHECK(raw(v) == raw(w), "a new distribution with the range of the parameters gives raw ", raw(w), " instead of ", raw(v), " after", log.str());
                i128 u = underlying<D>(x, y, gen3);
                PBT_CHECK(raw(v) == u, "the underlying distribution over the raw ends of the parameters gives ", u, " instead of ", raw(v), " after", log.str());
                c.nontrivial = true;
                break;
            }
        case 2:
            d.reset();
            log << " reset";
            break;
        default:
            {
                c.label_if(L_ONE, a == b);
                c.label_if(L_FULL, a == traits<F>::min && b == traits<F>::max);
                c.label_if(L_SMALLR, b - a < 8);
                c.nontrivial = true;
                log << " call";
                F v = d(gen);
                PBT_CHECK(raw(v) >= a && raw(v) <= b, "raw ", raw(v), " is outside of the range [", a, ", ", b, "] after", log.str());
                D fresh{mk<F>(a), mk<F>(b)};
                F w = fresh(gen2);
                PBT_CHECK(raw(v) == raw(w), "a new distribution with the same range gives raw ", raw(w), " instead of ", raw(v), " after", log.str());
                i128 u = underlying<D>(a, b, gen3);
                PBT_CHECK(raw(v) == u, "the underlying distribution over the raw ends gives ", u, " instead of ", raw(v), " after", log.str());
            }
        }
        reported();
    }
    PBT_DESC(traits<F>::name(), log.str());
}

// every number of a small range appears, about equally often; wide ranges are covered in all eighths
template <class D, class F, class Gen>
void cover(Src& s, Case& c, Gen gen)
{
    i128 a, b;
    c.nontrivial = true;
    c.label(L_COVER);
    if(s.draw(2))
    {
        a = gen_raw<F>(s);
        b = std::min(traits<F>::max, a + static_cast<i128>(s.draw(10)));
        c.in(a);
        c.in(b);
        PBT_DESC("2000 numbers of raw [", a, ", ", b, "] of ", traits<F>::name());
        D d{mk<F>(a), mk<F>(b)};
        int cnt[10] = {}, n = static_cast<int>(b - a + 1);
        for(int i = 0; i < 2000; ++i)
        {
            i128 v = raw(d(gen));
            PBT_CHECK(v >= a && v <= b, "raw ", v, " is outside of the range");
            ++cnt[static_cast<int>(v - a)];
        }
        for(int i = 0; i < n; ++i)
            PBT_CHECK(cnt[i] >= 2000 / n / 3 && cnt[i] <= 2000 / n * 3, "raw ", a + i, " appears ", cnt[i], " times out of 2000");
    }
    else
    {
        gen_range<F>(s, a, b);
        if(b - a < 4096)
        {
            c.discarded = true;
            return;
        }
        c.in(a);
        c.in(b);
        PBT_DESC("1600 numbers of raw [", a, ", ", b, "] of ", traits<F>::name());
        D d{mk<F>(a), mk<F>(b)};
        int cnt[8] = {}, odd = 0;
        for(int i = 0; i < 1600; ++i)
        {
            i128 v = raw(d(gen));
            PBT_CHECK(v >= a && v <= b, "raw ", v, " is outside of the range");
            u128 k = static_cast<u128>(v - a) * 8 / (static_cast<u128>(b - a) + 1);
            ++cnt[static_cast<int>(k)];
            odd += v & 1;
        }
        for(int i = 0; i < 8; ++i)
            PBT_CHECK(cnt[i] >= 60 && cnt[i] <= 500, "eighth ", i, " of the range appears ", cnt[i], " times out of 1600");
        PBT_CHECK(odd > 400 && odd < 1200, odd, " of 1600 raw values are odd");
    }
}

template <class F, class Int, class E>
void plain(Src& s, Case& c)
{
    E e(static_cast<typename E::result_type>(s.draw(0)));
    history<eirin::fixed_int_distribution_adapter<F, std::uniform_int_distribution<Int>>, F>(s, c, e);
}
template <class F, class Int, class E>
void adapted(Src& s, Case& c)
{
    eirin::fixed_random_engine_adapter<F, E> e;
    e.seed(static_cast<typename E::result_type>(s.draw(0)));
    history<eirin::fixed_distribution_adapter<F, std::uniform_int_distribution<Int>>, F>(s, c, e);
}
template <class F, class Int, class E>
void plain_cover(Src& s, Case& c)
{
    E e(static_cast<typename E::result_type>(s.draw(0)));
    cover<eirin::fixed_int_distribution_adapter<F, std::uniform_int_distribution<Int>>, F>(s, c, e);
}
template <class F, class Int, class E>
void adapted_cover(Src& s, Case& c)
{
    eirin::fixed_random_engine_adapter<F, E> e;
    e.seed(static_cast<typename E::result_type>(s.draw(0)));
    cover<eirin::fixed_distribution_adapter<F, std::uniform_int_distribution<Int>>, F>(s, c, e);
}

static int r0 = []
{
    using namespace eirin;
    pbt::labels({"range of one number", "full range", "small range", "range changed by param", "range passed to the call", "coverage of the range counted", "equal sequences"});
    pbt::rule("histories of calls, calls with parameters and changes of the range, each output compared with a new distribution on a copy of the engine; or counts over a range; non-trivial: a number was generated");
    pbt::add("int/f32/pcg2014", 500000, 15000000, &plain<f32, int32_t, pcg2014>);
    pbt::add("int/f64/pcg2014_64", 500000, 15000000, &plain<f64, int64_t, pcg2014_64>);
    pbt::add("int/f64/pcg2014", 300000, 8000000, &plain<f64, int64_t, pcg2014>);
    pbt::add("int/f32/minstd_rand", 300000, 8000000, &plain<f32, int32_t, eirin::minstd_rand>);
    pbt::add("int/f32/mt19937", 3000, 80000, &plain<f32, int32_t, eirin::mt19937>);
    pbt::add("int/f64/mt19937_64", 3000, 80000, &plain<f64, int64_t, eirin::mt19937_64>);
    pbt::add("int/f32/minstd_rand0", 100000, 2000000, &plain<f32, int32_t, eirin::minstd_rand0>);
    pbt::add("int/f64/ranlux24_base", 50000, 1000000, &plain<f64, int64_t, eirin::ranlux24_base>);
    pbt::add("int/f64/ranlux48_base", 50000, 1000000, &plain<f64, int64_t, eirin::ranlux48_base>);
    pbt::add("int/i16f8/pcg2014", 100000, 2000000, &plain<fx<int16_t, 8>, int16_t, pcg2014>);
    pbt::add("int/u64f40/pcg2014_64", 100000, 2000000, &plain<fx<uint64_t, 40>, uint64_t, pcg2014_64>);
    pbt::add("int/i32f24r/pcg2014", 200000, 5000000, &plain<fx<int32_t, 24, true>, int32_t, pcg2014>);
    pbt::add("int/u32f16/pcg2014", 200000, 5000000, &plain<fx<uint32_t, 16>, uint32_t, pcg2014>);
    pbt::add("fixed/f32/pcg2014", 500000, 15000000, &adapted<f32, int32_t, pcg2014>);
    pbt::add("fixed/f64/pcg2014_64", 500000, 15000000, &adapted<f64, int64_t, pcg2014_64>);
    pbt::add("fixed/u32f16/pcg2014", 100000, 2000000, &adapted<fx<uint32_t, 16>, uint32_t, pcg2014>);
    pbt::add("fixed/i16f8/pcg2014", 100000, 2000000, &adapted<fx<int16_t, 8>, int16_t, pcg2014>);
    pbt::add("fixed/i32f24r/pcg2014_64", 100000, 2000000, &adapted<fx<int32_t, 24, true>, int32_t, pcg2014_64>);
    pbt::add("fixed/f32/mt19937", 3000, 80000, &adapted<f32, int32_t, eirin::mt19937>);
    pbt::add("cover/int/f32/pcg2014", 8000, 200000, &plain_cover<f32, int32_t, pcg2014>);
    pbt::add("cover/int/f64/pcg2014_64", 8000, 200000, &plain_cover<f64, int64_t, pcg2014_64>);
    pbt::add("cover/int/f32/mt19937", 8000, 200000, &plain_cover<f32, int32_t, eirin::mt19937>);
    pbt::add("cover/fixed/f32/pcg2014", 8000, 200000, &adapted_cover<f32, int32_t, pcg2014>);
    pbt::add("cover/fixed/f64/pcg2014_64", 8000, 200000, &adapted_cover<f64, int64_t, pcg2014_64>);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
