// C06: checked division throws exactly for zero divisors and otherwise equals the division operator.
#include "gen.hpp"
using namespace g;

enum { L_ZERO, L_NEG, L_INT, L_FIXED };

template <class F, class D>
void check(Case& c, i128 a, const D& d, bool zero, bool representable)
{
    F x = mk<F>(a), z = x;
    if(zero)
    {
        int caught = 0;
        try
        {
            (void)x.divide(d);
        }
        catch(const eirin::divide_by_zero& e)
        {
            caught = e.what() && *e.what() ? 1 : 0;
        }
        PBT_CHECK(caught == 1, "divide by zero did not throw divide_by_zero");
        PBT_CHECK(raw(x) == a, "divide changed its operand");
        caught = 0;
        try
        {
            z.divide_by(d);
        }
        catch(const std::domain_error&)
        {
            caught = 1;
        }
        PBT_CHECK(caught == 1, "divide_by zero did not throw");
        PBT_CHECK(raw(z) == a, "divide_by threw but changed the number to raw ", raw(z));
        return;
    }
    if(!representable)
        return;
    i128 want = raw(x / d);
    i128 got = raw(x.divide(d)); // throws: reported as an unexpected exception
    PBT_CHECK(got == want, "divide is raw ", got, ", the operator gives ", want);
    PBT_CHECK(raw(x) == a, "divide changed its operand");
    F& ref = z.divide_by(d);
    PBT_CHECK(&ref == &z, "divide_by does not return the number");
    PBT_CHECK(raw(z) == want, "divide_by is raw ", raw(z), ", the operator gives ", want);
}

template <class F>
struct Fixed
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s), b = s.draw(4) == 0 ? 0 : gen_raw<F>(s);
        if(b != 0)
            while(!fits<F>(X::r ? round_div(a << X::f, b) : (a << X::f) / b))
                a /= 2;
        c.in(a), c.in(b);
        c.label(L_FIXED);
        c.label_if(L_ZERO, b == 0);
        c.label_if(L_NEG, a < 0 || b < 0);
        c.nontrivial = true;
        F y = mk<F>(b);
        PBT_DESC(show(mk<F>(a)), " divide ", show(y));
        check<F>(c, a, y, b == 0, true);
        // independent of the operator: the exact quotient
        if(b != 0)
        {
            i128 q = X::r ? round_div(a << X::f, b) : (a << X::f) / b;
            PBT_CHECK(raw(mk<F>(a).divide(y)) == q, "divide is raw ", raw(mk<F>(a).divide(y)), ", expected ", q);
            F self = y;
            if(fits<F>(pow2(X::f)))
                PBT_CHECK(raw(self.divide_by(self)) == pow2(X::f), "x.divide_by(x) is not 1");
        }
        else
        {
            F self = y;
            bool t = false;
            try
            {
                self.divide_by(self);
            }
            catch(const eirin::divide_by_zero&)
            {
                t = true;
            }
            PBT_CHECK(t && raw(self) == 0, "0.divide_by(itself)");
        }
    }
};

template <class F, class V>
struct Int
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s);
        V v = s.draw(4) == 0 ? V(0) : gen_int<V>(s, X::sgn ? std::numeric_limits<V>::min() : 0);
        if(s.draw(4) == 0 && v != 0)
        {
            // next to a multiple of the divisor
            const i128 w = static_cast<i128>(v), k = gen_raw<F>(s) / w, b = k * w + static_cast<i128>(s.draw(11)) - 5;
            if(fits<F>(b))
                a = b;
        }
        c.in(a), c.in(static_cast<i128>(v));
        c.label(L_INT);
        c.label_if(L_ZERO, v == 0);
        c.label_if(L_NEG, a < 0 || static_cast<i128>(v) < 0);
        c.nontrivial = true;
        PBT_DESC(show(mk<F>(a)), " divide integer ", static_cast<i128>(v));
        bool rep = v == 0 || fits<F>(a / static_cast<i128>(v));
        check<F>(c, a, v, v == 0, rep);
        if(v != 0 && rep && !X::r)
            PBT_CHECK(raw(mk<F>(a).divide(v)) == a / static_cast<i128>(v), "divide is raw ", raw(mk<F>(a).divide(v)), ", expected ", a / static_cast<i128>(v));
    }
};

// every integer type in turn
template <class F>
struct AnyInt
{
    static void run(Src& s, Case& c)
    {
        switch(s.draw(10))
        {
        case 0:
            return Int<F, signed char>::run(s, c);
        case 1:
            return Int<F, unsigned char>::run(s, c);
        case 2:
            return Int<F, short>::run(s, c);
        case 3:
            return Int<F, unsigned short>::run(s, c);
        case 4:
            return Int<F, unsigned>::run(s, c);
        case 5:
            return Int<F, long>::run(s, c);
        case 6:
            return Int<F, unsigned long>::run(s, c);
        case 7:
            return Int<F, long long>::run(s, c);
        case 8:
            return Int<F, unsigned long long>::run(s, c);
        default:
            return Int<F, int>::run(s, c);
        }
    }
};
template <class F>
void ints(uint64_t q, uint64_t t)
{
    pbt::add("int/" + traits<F>::name(), q, t, &Int<F, int>::run);
    pbt::add("unsigned/" + traits<F>::name(), q, t, &Int<F, unsigned>::run);
    pbt::add("long/" + traits<F>::name(), q, t, &Int<F, long>::run);
    pbt::add("ulong/" + traits<F>::name(), q, t, &Int<F, unsigned long>::run);
    pbt::add("short/" + traits<F>::name(), q, t, &Int<F, short>::run);
    pbt::add("uchar/" + traits<F>::name(), q, t, &Int<F, unsigned char>::run);
}
#ifdef SWEEP
static int r0 = []
{
    sweep<Fixed, BOTH, 1, 1, 64>(signed_storage{}, "sweep/fixed", 20000, 1000000);
    sweep<Fixed, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/fixed", 20000, 1000000);
    sweep<AnyInt, BOTH, 1, 1, 64>(signed_storage{}, "sweep/int", 20000, 1000000);
    sweep<AnyInt, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/int", 20000, 1000000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"zero divisor", "negative operand", "integer divisor", "fixed point divisor"});
    pbt::rule("a dividend and a divisor (one in four is zero); every case is non-trivial: either the exception or the value is checked");
    each<Fixed>(mains{}, "fixed", 6000000, 200000000);
    each<Fixed>(small_signed{}, "fixed", 500000, 10000000);
    each<Fixed>(other_signed{}, "fixed", 500000, 10000000);
    each<Fixed>(types<fx<uint16_t, 8>, fx<uint32_t, 16>, fx<uint64_t, 32>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "fixed", 500000, 10000000);
    ints<f32>(2000000, 50000000);
    ints<f64>(2000000, 50000000);
    ints<fx<int16_t, 8>>(300000, 5000000);
    ints<fx<int64_t, 16>>(300000, 5000000);
    ints<fx<uint32_t, 16>>(300000, 5000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
