// C07: comparisons, min, max, sign bit and hash follow the numeric value.
#include "gen.hpp"
#include <eirin/math.hpp>
#include <compare>
#include <map>
#include <set>
#include <unordered_map>
using namespace g;

enum { L_EQ, L_ADJ, L_SIGNS, L_FAR, L_SORT };

template <class F>
struct Order
{
    static void run(Src& s, Case& c)
    {
        typedef traits<F> X;
        i128 a = gen_raw<F>(s), b;
        switch(s.draw(4))
        {
        case 0:
            b = a;
            break;
        case 1:
            b = a + static_cast<i128>(s.draw(5)) - 2;
            b = std::min(std::max(b, X::min), X::max);
            break;
        case 2:
            {
                // one bit away
                i128 m = static_cast<i128>(static_cast<typename F::value_type>(static_cast<u128>(a) ^ (static_cast<u128>(1) << s.draw(X::bits))));
                b = m;
                break;
            }
        default:
            b = gen_raw<F>(s);
        }
        c.in(a), c.in(b);
        c.nontrivial = true;
        c.label_if(L_EQ, a == b);
        c.label_if(L_ADJ, a - b == 1 || b - a == 1);
        c.label_if(L_SIGNS, (a < 0) != (b < 0));
        c.label_if(L_FAR, !fits<F>(a - b));
        const F x = mk<F>(a), y = mk<F>(b);
        PBT_DESC(show(x), " <=> ", show(y));
        PBT_CHECK((x == y) == (a == b), "==");
        PBT_CHECK((x != y) == (a != b), "!=");
        PBT_CHECK((x < y) == (a < b), "<");
        PBT_CHECK((x > y) == (a > b), ">");
        PBT_CHECK((x <= y) == (a <= b), "<=");
        PBT_CHECK((x >= y) == (a >= b), ">=");
        auto o = x <=> y;
        PBT_CHECK((o < 0) == (a < b) && (o > 0) == (a > b) && (o == 0) == (a == b), "<=>");
        PBT_CHECK(raw(min(x, y)) == std::min(a, b), "min is raw ", raw(min(x, y)));
        PBT_CHECK(raw(max(x, y)) == std::max(a, b), "max is raw ", raw(max(x, y)));
        PBT_CHECK(signbit(x) == (a < 0), "signbit");
        PBT_CHECK(signbit(y) == (b < 0), "signbit");
        eirin::fixed_hash<F> h;
        if(a == b)
            PBT_CHECK(h(x) == h(y), "equal numbers with different hashes");
        F z = x;
        PBT_CHECK(z == x && h(z) == h(x), "a copy differs");
    }
};

// containers and sorting: the order is total, the hash usable
template <class F>
struct Containers
{
    static void run(Src& s, Case& c)
    {
        size_t n = 1 + s.draw(24);
        std::vector<i128> raws;
        for(size_t i = 0; i < n; ++i)
            raws.push_back(i && s.draw(3) == 0 ? raws[s.draw(i)] : gen_raw<F>(s));
        std::vector<F> v;
        std::map<i128, int> model;
        std::map<F, int> m;
        std::unordered_map<F, int, eirin::fixed_hash<F>> u;
        for(auto r : raws)
        {
            c.in(r);
            v.push_back(mk<F>(r));
            ++model[r];
            ++m[mk<F>(r)];
            ++u[mk<F>(r)];
        }
        c.label(L_SORT);
        c.nontrivial = n > 2;
        PBT_DESC(n, " numbers, ", model.size(), " distinct, the first is ", show(v[0]));
        std::sort(v.begin(), v.end());
        std::sort(raws.begin(), raws.end());
        for(size_t i = 0; i < n; ++i)
            PBT_CHECK(raw(v[i]) == raws[i], "sorted element ", i, " is raw ", raw(v[i]), ", expected ", raws[i]);
        PBT_CHECK(m.size() == model.size(), "map has ", m.size(), " keys, expected ", model.size());
        PBT_CHECK(u.size() == model.size(), "unordered map has ", u.size(), " keys, expected ", model.size());
        for(auto& [k, cnt] : model)
        {
            auto it = u.find(mk<F>(k));
            PBT_CHECK(it != u.end() && it->second == cnt, "unordered map lookup");
            auto jt = m.find(mk<F>(k));
            PBT_CHECK(jt != m.end() && jt->second == cnt, "map lookup");
        }
    }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Order, BOTH, 1, 1, 64>(signed_storage{}, "sweep/order", 20000, 1000000);
    sweep<Order, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/order", 20000, 1000000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"equal", "adjacent", "different signs", "difference not representable", "container of numbers"});
    pbt::rule("two numbers: equal, at most two ulp apart, one bit apart or independent; or a list of numbers with repetitions; every pair is non-trivial, lists from three elements on");
    each<Order>(mains{}, "order", 25000000, 600000000);
    each<Order>(small_signed{}, "order", 1000000, 20000000);
    each<Order>(other_signed{}, "order", 1500000, 40000000);
    each<Order>(unsigneds{}, "order", 1500000, 40000000);
    each<Order>(roundings{}, "order", 1000000, 20000000);
    each<Containers>(mains{}, "containers", 300000, 6000000);
    each<Containers>(types<fx<int16_t, 8>, fx<int64_t, 48>, fx<uint32_t, 16>>{}, "containers", 100000, 2000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
