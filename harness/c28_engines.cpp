// C28: random engines, as histories of operations against a model (seed, position).
#include "gen.hpp"
#include <eirin/eirin.hpp>
#include <map>
#include <sstream>
using namespace g;

enum { L_RESEED, L_DISCARD, L_COPY, L_EQUAL, L_UNEQUAL, L_SEQ, L_WRAP, L_DEFAULT, L_TEXT };

// how an engine was seeded: kind 0 default, 1 integer, 2 seed sequence
struct Model
{
    int kind = 0;
    uint64_t seed = 0;
    uint64_t pos = 0; // outputs since
};

template <class E, class R>
struct Ops
{
    static E fresh(const Model& m)
    {
        E e;
        if(m.kind == 1)
            e.seed(static_cast<R>(m.seed));
        else if(m.kind == 2)
        {
            std::seed_seq q{static_cast<uint32_t>(m.seed), static_cast<uint32_t>(m.seed >> 32)};
            e.seed(q);
        }
        return e;
    }
};

template <class R>
uint64_t gen_seed(Src& s)
{
    switch(s.draw(4))
    {
    case 0:
        return s.draw(4);
    case 1:
        return static_cast<R>(~static_cast<R>(s.draw(3)));
    case 2:
        return static_cast<R>(static_cast<uint64_t>(1) << s.draw(sizeof(R) * 8));
    default:
        return static_cast<R>(s.draw(0));
    }
}

// numbers of outputs to discard: of every magnitude, and next to the multiples of the powers of two
inline uint64_t gen_count(Src& s)
{
    if(s.draw(3))
        return s.draw(0) >> s.draw(64);
    uint64_t k = s.draw(64), m = s.draw(3) ? 1 : 1 + s.draw(12), p = static_cast<uint64_t>(1) << k;
    uint64_t q = s.draw(3) ? p : p - 1;
    return q * m + s.draw(5) - 2;
}

// E: the engine, R: the type of its seed; wrap: bits of the position
template <class E, class R>
void history(Src& s, Case& c, bool far)
{
    typedef Ops<E, R> O;
    E e[3];
    Model m[3];
    std::ostringstream log;
    size_t steps = 2 + s.draw(20);
    c.label(L_DEFAULT);
    PBT_DESC("a history of three engines");
    auto expect = [&](int i)
    {
        // a fresh engine moved to the position by single calls (near) or by discard (far)
        E f = O::fresh(m[i]);
        if(m[i].pos <= 300)
            for(uint64_t k = 0; k < m[i].pos; ++k)
                (void)f();
        else
            f.discard(m[i].pos);
        return f;
    };
    for(size_t st = 0; st < steps; ++st)
    {
        int i = static_cast<int>(s.draw(3)), j = static_cast<int>(s.draw(3));
        switch(s.draw(9))
        {
        case 0:
            m[i] = {1, gen_seed<R>(s), 0};
            e[i].seed(static_cast<R>(m[i].seed));
            log << " seed(" << i << "," << m[i].seed << ")";
            c.label(L_RESEED);
            break;
        case 1:
            {
                m[i] = {2, s.draw(0) >> s.draw(60), 0};
                std::seed_seq q{static_cast<uint32_t>(m[i].seed), static_cast<uint32_t>(m[i].seed >> 32)};
                e[i].seed(q);
                log << " seed_seq(" << i << "," << m[i].seed << ")";
                c.label(L_SEQ);
                break;
            }
        case 2:
            m[i] = Model{};
            e[i].seed();
            log << " seed(" << i << ")";
            c.label(L_RESEED);
            break;
        case 3:
            {
                uint64_t n = far && s.draw(3) == 0 ? gen_count(s) : s.draw(20);
                if(far && m[i].pos + n < m[i].pos)
                    n = 0;
                m[i].pos += n;
                e[i].discard(n);
                log << " discard(" << i << "," << n << ")";
                c.label(L_DISCARD);
                break;
            }
        case 4:
            e[i] = e[j];
            m[i] = m[j];
            log << " copy(" << i << "," << j << ")";
            c.label(L_COPY);
            break;
        case 5: // comparison
            {
                bool same = m[i].kind == m[j].kind && m[i].seed == m[j].seed && m[i].pos == m[j].pos;
                if(same)
                {
                    c.label(L_EQUAL);
                    log << " equal(" << i << "," << j << ")";
                    PBT_CHECK(e[i] == e[j] && !(e[i] != e[j]), "engines in the same state compare unequal after", log.str());
                }
                else if(far && m[i].kind == 1 && m[j].kind == 1 && (m[i].seed != m[j].seed || (m[i].pos != m[j].pos && m[i].pos < 1000 && m[j].pos < 1000)))
                {
                    c.label(L_UNEQUAL);
                    log << " unequal(" << i << "," << j << ")";
                    PBT_CHECK(e[i] != e[j] && !(e[i] == e[j]), "engines in different states compare equal after", log.str());
                }
                break;
            }
        default: // outputs
            {
                uint64_t n = 1 + s.draw(6);
                log << " generate(" << i << "," << n << ")";
                E f = expect(i);
                PBT_CHECK(f == e[i], "the engine is not in the state of a fresh one with the same seed and position ", m[i].pos, " after", log.str());
                for(uint64_t k = 0; k < n; ++k)
                {
                    auto v = e[i](), w = f();
                    PBT_CHECK(v == w, "output ", k, " differs from that of a fresh engine with the same seed and position ", m[i].pos, " after", log.str());
                    PBT_CHECK(v >= E::min() && v <= E::max(), "output outside of [min(), max()] after", log.str());
                }
                m[i].pos += n;
                c.nontrivial = true;
            }
        }
        c.in(static_cast<uint64_t>(m[i].seed * 31 + m[i].pos));
    }
    PBT_DESC("three engines:", log.str());
    for(int i = 0; i < 3; ++i)
        PBT_CHECK(expect(i) == e[i], "engine ", i, " is not in the state of a fresh one with the same seed and position ", m[i].pos, " after", log.str());
}

template <class E>
void balance(Src& s, Case& c)
{
    typedef typename E::result_type R;
    constexpr int bits = sizeof(R) * 8;
    uint64_t sd = gen_seed<R>(s), skip = s.draw(2) ? 0 : gen_count(s);
    c.in(sd);
    c.in(skip);
    c.nontrivial = true;
    PBT_DESC("4096 outputs of the engine with seed ", sd, " after discard(", skip, ")");
    E e(static_cast<R>(sd)), d(static_cast<R>(sd ^ (1ull << s.draw(bits))));
    e.discard(skip);
    d.discard(skip);
    int ones[64] = {}, same = 0, pairs[64] = {};
    R prev = 0;
    for(int i = 0; i < 4096; ++i)
    {
        R v = e();
        same += i < 64 && v == d();
        for(int b = 0; b < bits; ++b)
        {
            ones[b] += (v >> b) & 1;
            pairs[b] += ((v ^ prev) >> b) & 1;
        }
        prev = v;
    }
    PBT_CHECK(same < 32, "another seed gives the same outputs (", same, " of 64)");
    for(int b = 0; b < bits; ++b)
    {
        PBT_CHECK(ones[b] >= 1536 && ones[b] <= 2560, "bit ", b, " is set in ", ones[b], " of 4096 outputs");
        PBT_CHECK(pairs[b] >= 1024 && pairs[b] <= 3072, "bit ", b, " changes in ", pairs[b], " of 4096 steps");
    }
}

// the outputs which the parameters of the engine define, calculated independently
template <class U>
struct Reference
{
    U seed, state, mul, inc, mix, xm;
    U operator()()
    {
        u128 mask = std::numeric_limits<U>::max();
        auto low = [&](u128 v) { return static_cast<U>(v & mask); };
        U v = low(low(static_cast<u128>(state) * mul) + static_cast<u128>(seed));
        state = low(static_cast<u128>(state) + 1);
        v = low(static_cast<u128>(v ^ (v >> 8)) + inc);
        v = low(static_cast<u128>(low(static_cast<u128>(v) << 8) ^ v) * xm);
        v = low(static_cast<u128>(v ^ (v >> 8)) * mix);
        return v ^ (v >> 8);
    }
};

// recorded seeds replay: the sequence of a seed is fixed by the parameters of the engine
template <class U, U st, U mul, U inc, U mix, U xm>
void sequence(Src& s, Case& c)
{
    typedef eirin::permuted_congruential_engine<U, st, mul, inc, mix, xm> E;
    E e;
    Reference<U> r{0x89ABCD, st, mul, inc, mix, xm};
    PBT_CHECK(E::init_state == st && E::increment_size == inc && E::multiplier_size == mul && E::mix_multiplier_size == mix && E::xor_multiplier_size == xm && E::default_seed == 0x89ABCD, "a parameter the engine reports is wrong");
    std::ostringstream log;
    for(uint64_t k = 1 + s.draw(2); k > 0; --k)
    {
        switch(s.draw(4))
        {
        case 0:
            break;
        case 1:
            {
                uint32_t x = static_cast<uint32_t>(s.draw(0) >> s.draw(32));
                std::seed_seq q{x}, q2{x};
                uint32_t w[2];
                q2.generate(w, w + 2);
                e.seed(q);
                r.seed = static_cast<U>(w[0]);
                r.state = static_cast<U>(w[1]);
                log << " seed_seq(" << x << ")";
                c.in(static_cast<uint64_t>(x));
                c.label(L_SEQ);
                break;
            }
        default:
            {
                r.seed = static_cast<U>(gen_seed<U>(s));
                r.state = st;
                if(s.draw(2))
                    e.seed(r.seed);
                else
                    e = E(r.seed);
                log << " seed(" << static_cast<uint64_t>(r.seed) << ")";
                c.in(static_cast<uint64_t>(r.seed));
                c.label(L_RESEED);
            }
        }
        if(uint64_t n = s.draw(2) ? gen_count(s) : 0)
        {
            e.discard(n);
            r.state = static_cast<U>(r.state + n);
            log << " discard(" << n << ")";
            c.in(n);
            c.label(L_DISCARD);
        }
        std::ostringstream os;
        int fl = static_cast<int>(s.draw(3));
        os << (fl == 0 ? std::dec : fl == 1 ? std::hex : std::oct);
        if(s.draw(2))
            os << std::showbase;
        if(s.draw(2))
            os << std::right;
        const auto flags = os.flags();
        os << e;
        PBT_DESC("engine of ", sizeof(U) * 8, " bits:", log.str());
        PBT_CHECK(os.str() == std::to_string(r.seed) + " " + std::to_string(r.state), "the engine prints ", pbt::quote(os.str()), ", seed and state are ", static_cast<uint64_t>(r.seed), " and ", static_cast<uint64_t>(r.state), " after", log.str());
        PBT_CHECK(os.flags() == flags && os.fill() == ' ', "printing an engine changed the format flags of the stream");
        for(uint64_t n = 1 + s.draw(12); n > 0; --n)
        {
            U v = e(), w = r();
            log << " ()";
            PBT_CHECK(v == w, "the engine gives ", static_cast<uint64_t>(v), ", its parameters define ", static_cast<uint64_t>(w), " after", log.str());
        }
        c.nontrivial = true;
    }
}

// integer seeding by the constructor equals seeding by seed()
template <class E>
void construct(Src& s, Case& c)
{
    typedef typename E::result_type R;
    uint64_t sd = gen_seed<R>(s);
    c.in(sd);
    c.nontrivial = true;
    PBT_DESC("engine constructed with seed ", sd);
    E a(static_cast<R>(sd)), b, d, f;
    for(uint64_t k = s.draw(5); k > 0; --k)
        (void)b();
    b.seed(static_cast<R>(sd));
    PBT_CHECK(a == b, "construction with a seed differs from seed()");
    d.seed();
    PBT_CHECK(d == f, "the default state differs from the one after seed()");
    PBT_CHECK(E::min() == 0 && E::max() == std::numeric_limits<R>::max(), "min() or max() is not the end of the range");
    for(int i = 0; i < 8; ++i)
        PBT_CHECK(a() == b() && d() == f(), "outputs differ");
    std::ostringstream x, y;
    x << a;
    y << b;
    PBT_CHECK(x.str() == y.str(), "equal engines print ", pbt::quote(x.str()), " and ", pbt::quote(y.str()));
    (void)b();
    y.str("");
    y << b;
    PBT_CHECK(x.str() != y.str(), "different engines both print ", pbt::quote(x.str()));
    c.label(L_TEXT);
}

// the adapter yields the numbers whose raw values are the outputs of the underlying engine
template <class F, class E>
void adapter(Src& s, Case& c)
{
    typedef eirin::fixed_random_engine_adapter<F, E> A;
    typedef typename E::result_type R;
    constexpr bool FAR = std::is_same_v<E, eirin::pcg2014> || std::is_same_v<E, eirin::pcg2014_64>; // discards in constant time
    A a;
    E e;
    std::ostringstream log;
    size_t steps = 1 + s.draw(12);
    for(size_t st = 0; st < steps; ++st)
    {
        switch(s.draw(6))
        {
        case 0:
            {
                uint64_t sd = gen_seed<uint32_t>(s);
                a.seed(static_cast<R>(sd));
                e.seed(static_cast<R>(sd));
                log << " seed(" << sd << ")";
                c.in(sd);
                break;
            }
        case 1:
            {
                uint32_t x = static_cast<uint32_t>(s.draw(0));
                std::seed_seq q{x, 7u}, q2{x, 7u};
                a.seed(q);
                e.seed(q2);
                log << " seed_seq(" << x << ")";
                c.in(static_cast<uint64_t>(x));
                break;
            }
        case 2:
            {
                uint64_t n = FAR && s.draw(2) ? gen_count(s) : s.draw(30);
                a.discard(n);
                e.discard(n);
                log << " discard(" << n << ")";
                c.in(n);
                break;
            }
        case 3:
            a.seed();
            e.seed();
            log << " seed()";
            break;
        default:
            {
                F v = a();
                i128 w = static_cast<i128>(static_cast<typename F::value_type>(e()));
                c.nontrivial = true;
                PBT_CHECK(raw(v) == w, "the adapter gives raw ", raw(v), ", the engine ", w, " after", log.str());
                PBT_CHECK(v >= A::min() && v <= A::max(), "outside of [min(), max()]");
                log << " ()";
            }
        }
        PBT_CHECK(a.__underlying_engine() == e, "the underlying engine is in another state after", log.str());
        A b = a, z;
        z.__underlying_engine() = e;
        PBT_CHECK(b == a && !(b != a) && z == a, "a copy of the adapter is not equal to it after", log.str());
    }
    PBT_DESC(traits<F>::name(), " adapter:", log.str());
    A fresh;
    PBT_CHECK(fresh.__underlying_engine() == E(), "the default state of a new adapter depends on the history");
}

template <class F>
struct Tag
{};

static_assert(std::is_same_v<eirin::pcg2014, eirin::permuted_congruential_engine<uint32_t, 0x0, 0xB5297A4D, 0x68E31DA4, 0x1B56C4E9, 0x92D68CA2>>);
static_assert(std::is_same_v<eirin::pcg2014_64, eirin::permuted_congruential_engine<uint64_t, 0x0, 0x5851F42D4C957F2D, 0x9E3779B97F4A7C15, 0x94D049BB133111EB, 0xBF58476D1CE4E5B9>>);

static int r0 = []
{
    using namespace eirin;
    pbt::labels({"reseeded", "discard", "copied", "compared equal", "compared unequal", "seed sequence", "wrapped", "default seeded", "printed"});
    pbt::rule("histories of seeding, generating, discarding, copying and comparing three engines; non-trivial: at least one output was compared with a fresh engine");
    pbt::add("history/pcg2014", 800000, 20000000, [](Src& s, Case& c) { history<pcg2014, uint32_t>(s, c, true); });
    pbt::add("history/pcg2014_64", 800000, 20000000, [](Src& s, Case& c) { history<pcg2014_64, uint64_t>(s, c, true); });
    pbt::add("history/adapter<fixed32,pcg2014>", 400000, 10000000, [](Src& s, Case& c) { history<fixed_random_engine_adapter<fixed32, pcg2014>, uint32_t>(s, c, true); });
    pbt::add("history/adapter<fixed64,pcg2014_64>", 400000, 10000000, [](Src& s, Case& c) { history<fixed_random_engine_adapter<fixed64, pcg2014_64>, uint64_t>(s, c, true); });
    pbt::add("history/adapter<fixed32,minstd_rand>", 100000, 2000000, [](Src& s, Case& c) { history<fixed_random_engine_adapter<fixed32, minstd_rand>, uint32_t>(s, c, false); });
    pbt::add("sequence/pcg2014", 400000, 10000000, &sequence<uint32_t, 0x0, 0xB5297A4D, 0x68E31DA4, 0x1B56C4E9, 0x92D68CA2>);
    pbt::add("sequence/pcg2014_64", 400000, 10000000, &sequence<uint64_t, 0x0, 0x5851F42D4C957F2D, 0x9E3779B97F4A7C15, 0x94D049BB133111EB, 0xBF58476D1CE4E5B9>);
    pbt::add("sequence/custom32", 100000, 2000000, &sequence<uint32_t, 0x89ABCDEF, 0x9E3779B1, 0xFFFFFFFF, 0x85EBCA77, 0xC2B2AE3D>);
    pbt::add("sequence/custom64", 100000, 2000000, &sequence<uint64_t, 0xFEDCBA9876543210, 0x9E3779B185EBCA87, 0x1, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9>);
    pbt::add("balance/pcg2014", 20000, 400000, &balance<pcg2014>);
    pbt::add("balance/pcg2014_64", 20000, 400000, &balance<pcg2014_64>);
    pbt::add("construct/pcg2014", 300000, 5000000, &construct<pcg2014>);
    pbt::add("construct/pcg2014_64", 300000, 5000000, &construct<pcg2014_64>);
    pbt::add("adapter/f32/pcg2014", 400000, 10000000, &adapter<f32, pcg2014>);
    pbt::add("adapter/f32/pcg2014_64", 200000, 5000000, &adapter<f32, pcg2014_64>);
    pbt::add("adapter/f64/pcg2014_64", 400000, 10000000, &adapter<f64, pcg2014_64>);
    pbt::add("adapter/f32/mt19937", 4000, 100000, &adapter<f32, eirin::mt19937>);
    pbt::add("adapter/f64/mt19937_64", 4000, 100000, &adapter<f64, eirin::mt19937_64>);
    pbt::add("adapter/f64/minstd_rand0", 100000, 2000000, &adapter<f64, eirin::minstd_rand0>);
    pbt::add("adapter/f32/ranlux48_base", 20000, 400000, &adapter<f32, eirin::ranlux48_base>);
    pbt::add("adapter/u64f40/pcg2014_64", 100000, 2000000, &adapter<fx<uint64_t, 40>, pcg2014_64>);
    pbt::add("adapter/i8f3/pcg2014", 100000, 2000000, &adapter<fx<int8_t, 3>, pcg2014>);
    pbt::add("adapter/i32f24r/pcg2014", 200000, 5000000, &adapter<fx<int32_t, 24, true>, pcg2014>);
    pbt::add("adapter/i16f8/pcg2014", 200000, 5000000, &adapter<fx<int16_t, 8>, pcg2014>);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
