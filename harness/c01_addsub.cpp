// C01: addition, subtraction, negation, increment and decrement are exact.
#include "gen.hpp"
using namespace g;

enum { L_NEG, L_CARRY, L_EDGE, L_ZERO, L_ALIAS };

template <class F>
struct AddSub
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s);
        bool sub = s.draw(2);
        i128 b = gen_raw<F>(s);
        i128 r = sub ? a - b : a + b;
        if(!fits<F>(r))
        {
            // construct an operand which makes the result representable
            r = fold(s, r, X::min, X::max);
            b = sub ? a - r : r - a;
            if(!fits<F>(b))
            {
                b = a >= 0 == !sub ? X::min / 2 : X::max / 2;
                r = sub ? a - b : a + b;
                if(!fits<F>(r))
                    b = 0, r = a;
            }
        }
        c.in(a);
        c.in(b);
        c.in(sub);
        c.nontrivial = a != 0 && b != 0;
        c.label_if(L_NEG, a < 0 || b < 0);
        c.label_if(L_CARRY, ((a & (pow2(X::f) - 1)) + (sub ? -(b & (pow2(X::f) - 1)) : (b & (pow2(X::f) - 1)))) >> X::f);
        c.label_if(L_EDGE, r > X::max - 4 || r < X::min + 4);
        c.label_if(L_ZERO, r == 0);
        F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), sub ? " - " : " + ", show(y), " = raw ", r);
        if(sub)
        {
            PBT_CHECK(raw(x - y) == r, "a - b is raw ", raw(x - y), ", expected ", r);
            F z = x;
            F& ref = (z -= y);
            PBT_CHECK(&ref == &z && raw(z) == r, "a -= b is raw ", raw(z), ", expected ", r);
        }
        else
        {
            PBT_CHECK(raw(x + y) == r, "a + b is raw ", raw(x + y), ", expected ", r);
            PBT_CHECK(raw(y + x) == r, "b + a is raw ", raw(y + x), ", expected ", r);
            F z = x;
            F& ref = (z += y);
            PBT_CHECK(&ref == &z && raw(z) == r, "a += b is raw ", raw(z), ", expected ", r);
        }
        PBT_CHECK(raw(x) == a && raw(y) == b, "an operand changed");
        // undo: (a op b) inverse-op b == a
        PBT_CHECK(raw(sub ? mk<F>(r) + y : mk<F>(r) - y) == a, "undoing the operation does not give the operand back");
    }
};

template <class F>
struct NegIncDec
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s);
        const i128 one = pow2(X::f);
        c.in(a);
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        F x = mk<F>(a);
        PBT_DESC(show(x));
        if(fits<F>(-a))
        {
            PBT_CHECK(raw(-x) == -a, "-a is raw ", raw(-x), ", expected ", -a);
            PBT_CHECK(raw(-(-x)) == a, "-(-a) is not a");
        }
        if(fits<F>(a + one))
        {
            F y = x, z = x;
            F pre = ++y;
            F post = z++;
            PBT_CHECK(raw(y) == a + one && raw(pre) == a + one, "++a is raw ", raw(pre), " leaves ", raw(y));
            PBT_CHECK(raw(z) == a + one && raw(post) == a, "a++ is raw ", raw(post), " leaves ", raw(z));
        }
        if(fits<F>(a - one))
        {
            F y = x, z = x;
            F pre = --y;
            F post = z--;
            PBT_CHECK(raw(y) == a - one && raw(pre) == a - one, "--a is raw ", raw(pre), " leaves ", raw(y));
            PBT_CHECK(raw(z) == a - one && raw(post) == a, "a-- is raw ", raw(post), " leaves ", raw(z));
        }
        // aliasing
        {
            F y = x;
            y -= y;
            PBT_CHECK(raw(y) == 0, "a -= a is raw ", raw(y));
            if(fits<F>(a * 2))
            {
                y = x;
                y += y;
                PBT_CHECK(raw(y) == a * 2, "a += a is raw ", raw(y));
            }
        }
    }
};

// associativity: the sum of several numbers does not depend on the order, because nothing is rounded.
template <class F>
struct SumOrder
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        int n = 2 + static_cast<int>(s.draw(6));
        i128 v[8], sum = 0;
        for(int i = 0; i < n; ++i)
        {
            v[i] = gen_raw<F>(s, X::min / 8, X::max / 8);
            c.in(v[i]);
            sum += v[i];
        }
        c.nontrivial = true;
        F fwd = mk<F>(0), bwd = mk<F>(0);
        for(int i = 0; i < n; ++i)
            fwd += mk<F>(v[i]);
        for(int i = n - 1; i >= 0; --i)
            bwd = mk<F>(v[i]) + bwd;
        PBT_DESC("sum of ", n, " numbers of ", X::name(), ", first ", show(mk<F>(v[0])));
        PBT_CHECK(raw(fwd) == sum && raw(bwd) == sum, "sums are raw ", raw(fwd), " and ", raw(bwd), ", expected ", sum);
    }
};

// all pairs of an 8-bit type
template <class F>
struct Pairs8
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        uint64_t i = s.index(65536);
        i128 a = X::min + static_cast<i128>(i >> 8), b = X::min + static_cast<i128>(i & 255);
        F x = mk<F>(a), y = mk<F>(b);
        c.in(i);
        c.nontrivial = a && b;
        PBT_DESC(show(x), " +- ", show(y));
        if(fits<F>(a + b))
            PBT_CHECK(raw(x + y) == a + b, "a + b is raw ", raw(x + y));
        if(fits<F>(a - b))
            PBT_CHECK(raw(x - y) == a - b, "a - b is raw ", raw(x - y));
    }
};

typedef types<fx<int32_t, 31>, fx<int64_t, 63>, fx<int8_t, 7>> full_fraction;
#ifdef SWEEP
static int r0 = []
{
    sweep<AddSub, BOTH, 1, 1, 64>(signed_storage{}, "sweep/add-sub", 20000, 1000000);
    sweep<AddSub, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/add-sub", 20000, 1000000);
    sweep<NegIncDec, BOTH, 1, 1, 64>(signed_storage{}, "sweep/neg-inc-dec", 10000, 300000);
    return 0;
}();
#else
static int r0 = (pbt::labels({"negative operand", "carry across the point", "result at an end of the range", "zero result"}), pbt::rule("both operands are generated (small, log-uniform, powers of two, range ends, integers and half integers and their neighbours, literals of the sources), the second one is folded so that the result is representable; non-trivial: no operand is zero"), 0);
static int r1 = each<AddSub>(mains{}, "add-sub", 30000000, 1000000000);
static int r2 = each<AddSub>(small_signed{}, "add-sub", 1500000, 40000000);
static int r3 = each<AddSub>(other_signed{}, "add-sub", 2500000, 60000000);
static int r4 = each<AddSub>(unsigneds{}, "add-sub", 2000000, 50000000);
static int r5 = each<AddSub>(roundings{}, "add-sub", 1500000, 40000000);
static int r6 = each<NegIncDec>(mains{}, "neg-inc-dec", 10000000, 300000000);
static int r7 = each<NegIncDec>(small_signed{}, "neg-inc-dec", 500000, 10000000);
static int r8 = each<NegIncDec>(other_signed{}, "neg-inc-dec", 1000000, 20000000);
static int r9 = each<NegIncDec>(unsigneds{}, "neg-inc-dec", 1000000, 20000000);
static int ra = each<SumOrder>(mains{}, "sum-order", 4000000, 100000000);
static int rb = each<AddSub>(full_fraction{}, "add-sub", 1000000, 20000000);
static int rc = (pbt::add_all("all-pairs/i8f4", 65536, &Pairs8<fx<int8_t, 4>>::run), pbt::add_all("all-pairs/u8f4", 65536, &Pairs8<fx<uint8_t, 4>>::run), 0);

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
