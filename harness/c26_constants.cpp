// C26: the mathematical constants of every type with up to 45 fraction bits.
#include "ref.hpp"
#include <eirin/math.hpp>
#include <eirin/numbers.hpp>
using namespace g;

enum { L_32, L_64, L_ROUND, L_NA };

struct Const
{
    const char* name;
    q128 value;
};
static const Const consts[] = {
    {"pi", 3.14159265358979323846264338327950288419716939937510Q},
    {"e", 2.71828182845904523536028747135266249775724709369995Q},
    {"log2e", 1.44269504088896340735992468100189213742664595415298Q},
    {"log10e", 0.43429448190325182765112891891660508229439700580366Q},
    {"inv_pi", 0.31830988618379067153776752674502872406891929148091Q},
    {"inv_sqrtpi", 0.56418958354775628694807945156077258584405062932900Q},
    {"ln2", 0.69314718055994530941723212145817656807550013436026Q},
    {"ln10", 2.30258509299404568401799145468436420760110148862877Q},
    {"sqrt2", 1.41421356237309504880168872420969807856967187537694Q},
    {"sqrt3", 1.73205080756887729352744634150587236694280525381038Q},
    {"inv_sqrt3", 0.57735026918962576450914878050195745564760175127012Q},
    {"egamma", 0.57721566490153286060651209008240243104215933593992Q},
    {"phi", 1.61803398874989484820458683436563811772030917980576Q},
    {"F::e()", 2.71828182845904523536028747135266249775724709369995Q},
    {"F::pi()", 3.14159265358979323846264338327950288419716939937510Q},
    {"F::pi_2()", 1.57079632679489661923132169163975144209858469968755Q},
    {"F::pi_4()", 0.78539816339744830961566084581987572104929234984378Q},
    {"F::double_pi()", 6.28318530717958647692528676655900576839433879875021Q},
};
constexpr int n_const = 18;

template <class F>
F get(int i)
{
    namespace n = eirin::numbers;
    switch(i)
    {
    case 0: return n::pi_v<F>();
    case 1: return n::e_v<F>();
    case 2: return n::log2e_v<F>();
    case 3: return n::log10e_v<F>();
    case 4: return n::inv_pi_v<F>();
    case 5: return n::inv_sqrtpi_v<F>();
    case 6: return n::ln2_v<F>();
    case 7: return n::ln10_v<F>();
    case 8: return n::sqrt2_v<F>();
    case 9: return n::sqrt3_v<F>();
    case 10: return n::inv_sqrt3_v<F>();
    case 11: return n::egamma_v<F>();
    case 12: return n::phi_v<F>();
    case 13: return F::e();
    case 14: return F::pi();
    case 15: return F::pi_2();
    case 16: return F::pi_4();
    default: return F::double_pi();
    }
}

template <class F>
i128 want(int i, bool& ok)
{
    q128 v = ldexpq(consts[i].value, static_cast<int>(traits<F>::f));
    v = floorq(traits<F>::r ? v + 0.5Q : v);
    ok = v <= static_cast<q128>(traits<F>::max);
    return ok ? static_cast<i128>(v) : 0;
}

template <class F>
void one_const(Case& c, int i)
{
    bool ok;
    i128 w = want<F>(i, ok);
    c.label_if(L_32, traits<F>::bits == 32);
    c.label_if(L_64, traits<F>::bits == 64);
    c.label_if(L_ROUND, traits<F>::r);
    PBT_DESC(consts[i].name, " of ", traits<F>::name(), ", raw ", w);
    if(!ok)
    {
        c.label(L_NA);
        return;
    }
    c.nontrivial = true;
    PBT_CHECK(raw(get<F>(i)) == w, consts[i].name, " of ", traits<F>::name(), " is raw ", raw(get<F>(i)), ", expected ", w);
}

typedef void (*Fn)(Case&, int);
static std::vector<Fn> table;
template <class T, bool r, unsigned... k>
void fill(std::integer_sequence<unsigned, k...>)
{
    (table.push_back(&one_const<fx<T, k + 1, r>>), ...);
}

static void sweep(Src& s, Case& c)
{
    uint64_t i = s.index(table.size() * n_const);
    c.in(i);
    table[i / n_const](c, static_cast<int>(i % n_const));
}

// the predefined constants
static void predefined(Src& s, Case& c)
{
    namespace n = eirin::numbers;
    static const f32 a[] = {n::pi, n::e, n::log2e, n::log10e, n::inv_pi, n::inv_sqrtpi, n::ln2, n::ln10, n::sqrt2, n::sqrt3, n::inv_sqrt3, n::egamma, n::phi};
    static const f64 b[] = {n::pi_f64, n::e_f64, n::log2e_f64, n::log10e_f64, n::inv_pi_f64, n::inv_sqrtpi_f64, n::ln2_f64, n::ln10_f64, n::sqrt2_f64, n::sqrt3_f64, n::inv_sqrt3_f64, n::egamma_f64, n::phi_f64};
    int i = static_cast<int>(s.index(13));
    bool ok;
    c.in(i);
    c.nontrivial = true;
    PBT_DESC("predefined ", consts[i].name);
    PBT_CHECK(raw(a[i]) == want<f32>(i, ok), consts[i].name, " of fixed32 is raw ", raw(a[i]), ", expected ", want<f32>(i, ok));
    PBT_CHECK(raw(b[i]) == want<f64>(i, ok), consts[i].name, "_f64 is raw ", raw(b[i]), ", expected ", want<f64>(i, ok));
}

static int r0 = []
{
    pbt::labels({"32 bit", "64 bit", "rounding type", "not representable in the type"});
    pbt::rule("every combination of constant, storage type (16, 32, 64 bit), fraction bits from 1 to 45 and rounding; non-trivial: the constant is representable");
    fill<int16_t, false>(std::make_integer_sequence<unsigned, 14>{});
    fill<int32_t, false>(std::make_integer_sequence<unsigned, 30>{});
    fill<int64_t, false>(std::make_integer_sequence<unsigned, 45>{});
    fill<int16_t, true>(std::make_integer_sequence<unsigned, 14>{});
    fill<int32_t, true>(std::make_integer_sequence<unsigned, 30>{});
    fill<int64_t, true>(std::make_integer_sequence<unsigned, 45>{});
    pbt::add_all("sweep", table.size() * n_const, &sweep);
    pbt::add_all("predefined", 13, &predefined);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
