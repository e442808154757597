// C30: CORDIC sine and the interpolated table sine.
#include "angle.hpp"
#include <eirin/detail/util.hpp>
#include <eirin/eirin.hpp>
#include <eirin/ext/cordic.hpp>
using namespace g;

enum { L_NEG, L_FAR, L_SPECIAL, L_NEAR0, L_CORDIC, L_TABLE };

template <class F, class Fn>
void check(Case& c, i128 a, Fn fn, ld base, ld ulps, const char* name)
{
    typedef Real<F> R;
    c.in(a);
    const F x = mk<F>(a);
    const R v = rv(x), u = rulp<F>();
    const R E = R(base) + (ulps + r_abs(v) / 3) * u;
    c.nontrivial = a != 0;
    c.label_if(L_NEG, a < 0);
    c.label_if(L_FAR, r_abs(v) > 7);
    c.label_if(L_NEAR0, r_abs(v) < R(1e-3L));
    PBT_DESC(name, " of ", show(x));
    const F y = fn(x);
    R rs = r_sin(v), ys = rv(y);
    PBT_CHECK(c.within(dbl(r_abs(ys - rs)), dbl(E)), name, " is ", dbl(ys), ", expected ", dbl(rs), ", error ", dbl(r_abs(ys - rs)), ", allowed ", dbl(E));
    if(a != traits<F>::min && a != 0)
        PBT_CHECK(raw(fn(mk<F>(-a))) == -raw(y), name, " of the negated angle is raw ", raw(fn(mk<F>(-a))), ", not minus raw ", raw(y));
    PBT_CHECK(raw(fn(x)) == raw(y), name, " gives another result in a second call");
}

template <class F>
struct Cordic
{
    static void one(Case& c, i128 a)
    {
        c.label(L_CORDIC);
        check<F>(c, a, [](F x) { return eirin::cordic_sine(x); }, 0, traits<F>::f == 16 ? CORDIC32 : CORDIC64, "cordic_sine");
    }
    static constexpr ld CORDIC32 = 14, CORDIC64 = 32;
    static void run(Src& s, Case& c) { one(c, gen_angle<F>(s, c, L_SPECIAL)); }
    static void all32(Src& s, Case& c) { one(c, traits<F>::min + static_cast<i128>(s.index(1ull << 32))); }
};

template <size_t N>
void table(Src& s, Case& c)
{
    c.label(L_TABLE);
    i128 a = gen_angle<f64>(s, c, L_SPECIAL);
    if(s.draw(3) == 0) // next to an entry of the table
    {
        i128 step = static_cast<i128>(M_PIl * 4294967296.0L / (N - 1));
        a = step * static_cast<i128>(s.draw(2 * N)) + static_cast<i128>(s.draw(5)) - 2;
        if(s.draw(2))
            a = -a;
    }
    const ld h = M_PIl / (N - 1);
    check<f64>(c, a, [](f64 x) { return eirin::util::lut::lut_calc_sin<N>(x); }, h * h / 8, 8, "lut_calc_sin");
}

static int r0 = []
{
    pbt::labels({"negative", "beyond one turn", "next to a multiple of pi/4", "magnitude below 0.001", "CORDIC", "table"});
    pbt::rule("any angle, or one next to a multiple of pi/4 or to an entry of the table; non-trivial: not zero");
    each<Cordic>(types<f32, f64>{}, "cordic", 3000000, 60000000);
    pbt::add_all_thorough("all/i32f16", 4000000, 1ull << 32, &Cordic<f32>::all32);
    pbt::add("table/512", 3000000, 60000000, &table<512>);
    pbt::add("table/16", 300000, 6000000, &table<16>);
    pbt::add("table/100", 300000, 6000000, &table<100>);
    pbt::add("table/3", 100000, 2000000, &table<3>);
    pbt::add("table/37", 200000, 4000000, &table<37>);
    pbt::add("table/4096", 200000, 4000000, &table<4096>);
    pbt::add("table/2048", 300000, 6000000, &table<2048>);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
