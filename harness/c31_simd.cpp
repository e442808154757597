// C31: vectorised angle reduction against exact integer arithmetic.  Built for AVX2 and for AVX-512.
#include "angle.hpp"
#include <eirin/eirin.hpp>
#include <eirin/ext/simd_math.hpp>
using namespace g;

enum { L_NEG, L_FAR, L_SPECIAL, L_MIXED, L_BOUNDARY, L_FOUR, L_TWO };

static const i128 two_pi = 2 * raw(eirin::numbers::pi_f64);

// the lane: r = a - k * 2pi; |r| < 2 pi up to the truncation of 1/(2 pi); r has the sign of a or is zero
static void lane(Case& c, i128 a, i128 r, int i, const char* name)
{
    PBT_CHECK((a - r) % two_pi == 0, name, ": lane ", i, " is raw ", r, ", which differs from the input raw ", a, " by raw ", a - r, ", not a multiple of raw ", two_pi);
    i128 m = a < 0 ? -a : a, rm = r < 0 ? -r : r;
    // 1/(2pi) is truncated by less than one ulp: the number of turns falls short by less than |a| ulp
    i128 allowed = two_pi + (two_pi * ((m >> 32) + 2) >> 32) + 1;
    PBT_CHECK(rm <= allowed, name, ": lane ", i, " is raw ", r, " for the input raw ", a, ", farther from zero than raw ", allowed);
    PBT_CHECK(r == 0 || (r < 0) == (a < 0), name, ": lane ", i, " is raw ", r, " for the input raw ", a, ", which has the other sign");
}

static i128 gen_lane(Src& s, Case& c)
{
    if(s.draw(3) == 0) // next to a multiple of 2 pi
    {
        c.label(L_BOUNDARY);
        uint64_t k = s.draw(30) + 1;
        i128 v = two_pi * static_cast<i128>(s.draw(1ull << k)) + static_cast<i128>(s.draw(7)) - 3;
        return fold(s, s.draw(2) ? -v : v, traits<f64>::min, traits<f64>::max);
    }
    return gen_angle<f64>(s, c, L_SPECIAL);
}

template <size_t N, class Fn>
void vec(Src& s, Case& c, Fn fn, const char* name)
{
    std::array<f64, N> in;
    i128 a[N];
    bool neg = false, pos = false;
    std::string d;
    for(size_t i = 0; i < N; ++i)
    {
        a[i] = gen_lane(s, c);
        c.in(a[i]);
        in[i] = mk<f64>(a[i]);
        (a[i] < 0 ? neg : pos) = true;
        c.label_if(L_NEG, a[i] < 0);
        if(a[i] > 2 * two_pi || a[i] < -2 * two_pi)
        {
            c.label(L_FAR);
            c.nontrivial = true;
        }
        d += " " + show(in[i]);
    }
    c.label_if(L_MIXED, neg && pos);
    PBT_DESC(name, " of", d);
    std::array<f64, N> out = fn(in);
    for(size_t i = 0; i < N; ++i)
        lane(c, a[i], raw(out[i]), static_cast<int>(i), name);
    // each lane by itself, in all lanes: same result
    for(size_t i = 0; i < N; ++i)
    {
        std::array<f64, N> one;
        one.fill(in[i]);
        std::array<f64, N> o = fn(one);
        for(size_t j = 0; j < N; ++j)
            PBT_CHECK(raw(o[j]) == raw(out[i]), name, ": the input of lane ", i, " gives raw ", raw(o[j]), " in lane ", j, " when all lanes are equal, but raw ", raw(out[i]), " beside the others");
    }
}

static void four(Src& s, Case& c)
{
    c.label(L_FOUR);
    vec<4>(s, c, [](std::array<f64, 4> x) { return eirin::simd::simd_reduce_angle(x); }, "simd_reduce_angle");
}
static void two(Src& s, Case& c)
{
    c.label(L_TWO);
    vec<2>(s, c, [](std::array<f64, 2> x) { return eirin::simd::simd_reduce_angle_2(x); }, "simd_reduce_angle_2");
}

static int r0 = []
{
    pbt::labels({"negative lane", "more than two turns", "next to a multiple of pi/4", "lanes of both signs", "next to a multiple of 2 pi", "four lanes", "two lanes"});
    pbt::rule("vectors of angles of any size and sign; non-trivial: some lane has a magnitude of more than two turns");
    pbt::add("four", 4000000, 100000000, &four);
    pbt::add("two", 4000000, 100000000, &two);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
