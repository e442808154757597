// C35: histories of operations on several variables against an exact model.
#include "ops_gen.hpp"
#include <cstring>
#include <eirin/io/parse.hpp>
#include <sstream>
using namespace g;

enum { L_ALIAS, L_THROW, L_TEXT, L_LONG, L_CONV, L_CHAIN, L_CONTAINER, L_PURE, L_INT };

constexpr size_t NV = 5;

template <class F>
struct Hist
{
    typedef traits<F> X;
    static constexpr i128 one = static_cast<i128>(1) << X::f;
    typedef std::optional<i128> O;

    static O rep(i128 v) { return fits<F>(v) ? O(v) : O(); }
    static O mul(i128 a, i128 b) { return rep(X::r ? round_div(a * b, one) : floor_div(a * b, one)); }
    static O div(i128 a, i128 b) { return b == 0 ? O() : rep(X::r ? round_div(a * one, b) : a * one / b); }
    static O rem(i128 a, i128 b) { return b == 0 ? O() : rep(a % b); }
    static O bin(int op, i128 a, i128 b)
    {
        switch(op)
        {
        case 0: return rep(a + b);
        case 1: return rep(a - b);
        case 2: return mul(a, b);
        case 3: return div(a, b);
        default: return rem(a, b);
        }
    }

    struct Box
    {
        unsigned char before[16];
        F v[NV];
        unsigned char after[16];
    };

    static F& compound(int op, F& a, const F& b)
    {
        switch(op)
        {
        case 0: return a += b;
        case 1: return a -= b;
        case 2: return a *= b;
        case 3: return a /= b;
        default: return a %= b;
        }
    }
    static F plain(int op, const F& a, const F& b)
    {
        switch(op)
        {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        case 3: return a / b;
        default: return a % b;
        }
    }
    template <class N>
    static F& compound_int(int op, F& a, N n)
    {
        switch(op)
        {
        case 0: return a += n;
        case 1: return a -= n;
        case 2: return a *= n;
        case 3: return a /= n;
        default: return a %= n;
        }
    }

    static void run(Src& s, Case& c)
    {
        static_assert(std::is_trivially_copyable_v<F> && sizeof(F) == sizeof(typename X::T));
        Box box;
        std::memset(box.before, 0xA5, sizeof box.before);
        std::memset(box.after, 0x5A, sizeof box.after);
        i128 m[NV];
        F* v = box.v;
        std::string trace;
        auto log = [&](auto&&... a)
        {
            if(c.verbose)
            {
                trace += pbt::cat(trace.empty() ? "" : "; ", a...);
                c.describe(trace);
            }
        };
        for(size_t i = 0; i < NV; ++i)
        {
            m[i] = gen_raw<F>(s);
            v[i] = mk<F>(m[i]);
            c.in(m[i]);
            log("v", i, " = raw ", m[i]);
        }
        struct Pure
        {
            OpCase k;
            ops::Out out;
        };
        static Pure pure[4];
        size_t np = 0;
        size_t steps = 1 + s.draw(s.draw(4) ? 12 : 48);
        static const char* const sym[] = {"+=", "-=", "*=", "/=", "%="};
        c.nontrivial = steps >= 3;
        c.label_if(L_LONG, steps > 12);
        PBT_DESC(trace);
        for(size_t step = 0; step < steps; ++step)
        {
            const size_t i = s.draw(NV), j = s.draw(NV), k = s.draw(NV);
            const uint64_t what = s.draw(22);
            c.in(what);
            auto set_new = [&]
            {
                // the operation is outside of its domain here: a new value instead
                m[i] = gen_raw<F>(s);
                log("v", i, " = raw ", m[i]);
                v[i] = mk<F>(m[i]);
            };
            switch(what)
            {
            case 0:
            case 1:
            case 2:
                {
                    int op = static_cast<int>(s.draw(5));
                    O r = bin(op, m[i], m[j]);
                    if(!r)
                    {
                        set_new();
                        break;
                    }
                    log("v", i, " ", sym[op], " v", j);
                    c.label_if(L_ALIAS, i == j);
                    F& ref = compound(op, v[i], v[j]);
                    m[i] = *r;
                    PBT_CHECK(&ref == &v[i], "the compound assignment does not return its left operand");
                    break;
                }
            case 3:
                {
                    int op = static_cast<int>(s.draw(5));
                    O r = bin(op, m[j], m[k]);
                    if(!r)
                    {
                        set_new();
                        break;
                    }
                    log("v", i, " = v", j, " ", sym[op][0], " v", k);
                    c.label_if(L_ALIAS, i == j || i == k || j == k);
                    v[i] = plain(op, v[j], v[k]);
                    m[i] = *r;
                    break;
                }
            case 4:
                {
                    // (v[i] op= v[j]) op2= v[k]
                    int op = static_cast<int>(s.draw(5)), op2 = static_cast<int>(s.draw(5));
                    O r = bin(op, m[i], m[j]);
                    O r2 = r ? bin(op2, *r, k == i ? *r : m[k]) : O();
                    if(!r2)
                    {
                        set_new();
                        break;
                    }
                    log("(v", i, " ", sym[op], " v", j, ") ", sym[op2], " v", k);
                    c.label(L_CHAIN);
                    compound(op2, compound(op, v[i], v[j]), v[k]);
                    m[i] = *r2;
                    break;
                }
            case 5:
            case 6:
                {
                    int op = static_cast<int>(s.draw(5)), sub = static_cast<int>(s.draw(8));
                    int64_t n = gen_n(s, sub);
                    if(s.draw(2))
                        n = static_cast<int64_t>(n % 16);
                    i128 w = as_int(sub, n);
                    O r;
                    if(!X::sgn && w < 0)
                        ;
                    else if(op <= 1)
                        r = fits<F>(w * one) ? rep(op ? m[i] - w * one : m[i] + w * one) : O();
                    else if(op == 2)
                        r = rep(m[i] * w);
                    else if(op == 3)
                        r = w == 0 || X::r ? O() : rep(m[i] / w);
                    else
                        r = w == 0 || !fits<F>(w * one) ? O() : rep(m[i] % (w * one));
                    if(!r)
                    {
                        set_new();
                        break;
                    }
                    log("v", i, " ", sym[op], " integer ", w);
                    c.label(L_INT);
                    ops::with_int(sub, n, [&](auto z)
                        {
                            F& ref = compound_int(op, v[i], z);
                            PBT_CHECK(&ref == &v[i], "the compound assignment does not return its left operand");
                        });
                    m[i] = *r;
                    break;
                }
            case 7:
                {
                    uint64_t form = s.draw(4);
                    i128 r = m[i] + (form < 2 ? one : -one);
                    if(!fits<F>(r))
                    {
                        set_new();
                        break;
                    }
                    log(form == 0 ? "++v" : form == 1 ? "v++ v" : form == 2 ? "--v" : "v-- v", i);
                    F got = form == 0 ? ++v[i] : form == 1 ? v[i]++ : form == 2 ? --v[i] : v[i]--;
                    PBT_CHECK(raw(got) == (form & 1 ? m[i] : r), "++ or -- returns raw ", raw(got));
                    m[i] = r;
                    break;
                }
            case 8:
                {
                    uint64_t fn = s.draw(6);
                    i128 r;
                    i128 x = m[j];
                    switch(fn)
                    {
                    case 0: r = floor_div(x, one) * one; break;
                    case 1: r = std::min<i128>(-floor_div(-x, one) * one, X::max); break;
                    case 2: r = x / one * one; break;
                    case 3: r = round_div(x, one) * one; break;
                    case 4: r = x < 0 ? -x : x; break;
                    default: r = -x; break;
                    }
                    if(!fits<F>(r))
                    {
                        set_new();
                        break;
                    }
                    static const char* const fname[] = {"floor", "ceil", "trunc", "round", "abs", "-"};
                    log("v", i, " = ", fname[fn], "(v", j, ")");
                    v[i] = fn == 0 ? floor(v[j]) : fn == 1 ? ceil(v[j]) : fn == 2 ? trunc(v[j]) : fn == 3 ? round(v[j]) : fn == 4 ? abs(v[j]) : -v[j];
                    m[i] = r;
                    break;
                }
            case 9:
                {
                    // modf, also with the argument itself as output
                    log("v", i, " = modf(v", j, ", v", k, ")");
                    i128 fl = floor_div(m[j], one) * one, fr = m[j] - fl;
                    c.label_if(L_ALIAS, j == k);
                    F got = modf(v[j], v[k]);
                    m[k] = fl;
                    PBT_CHECK(raw(v[k]) == fl && raw(got) == fr, "modf gives raw ", raw(got), " and ", raw(v[k]));
                    v[i] = got;
                    m[i] = fr;
                    break;
                }
            case 10:
                log("swap v", i, " v", j);
                std::swap(v[i], v[j]);
                std::swap(m[i], m[j]);
                break;
            case 11:
                {
                    log("v", i, " = ", k & 1 ? "min" : "max", "(v", j, ", v", k, ")");
                    v[i] = k & 1 ? eirin::min(v[j], v[k]) : eirin::max(v[j], v[k]);
                    m[i] = k & 1 ? std::min(m[j], m[k]) : std::max(m[j], m[k]);
                    break;
                }
            case 12:
                {
                    uint64_t how = s.draw(4);
                    c.label(L_CONTAINER);
                    if(how == 0)
                    {
                        log("sort");
                        std::sort(v, v + NV);
                        std::sort(m, m + NV);
                    }
                    else if(how == 1)
                    {
                        log("copy bytes v", j, " to v", i);
                        unsigned char bytes[sizeof(F)];
                        std::memcpy(bytes, &v[j], sizeof(F));
                        std::memcpy(&v[i], bytes, sizeof(F));
                        m[i] = m[j];
                    }
                    else if(how == 2)
                    {
                        log("through a vector, reversed");
                        std::vector<F> w(v, v + NV);
                        w.insert(w.begin(), w[j]);
                        w.push_back(w[1 + i]);
                        std::reverse(w.begin() + 1, w.begin() + 1 + NV);
                        std::copy(w.begin() + 1, w.begin() + 1 + NV, v);
                        i128 mj = m[j], mi = m[i];
                        std::reverse(m, m + NV);
                        PBT_CHECK(raw(w.front()) == mj && raw(w.back()) == mi, "a vector changed its elements");
                    }
                    else
                    {
                        log("v", i, " = v", j, " = v", k);
                        v[i] = v[j] = v[k];
                        m[j] = m[k];
                        m[i] = m[k];
                    }
                    break;
                }
            case 13:
            case 14:
                {
                    if constexpr(X::sgn)
                    {
                        // write v[j] and read it into v[i], with text behind it
                        c.label(L_TEXT);
                        uint64_t how = s.draw(4);
                        log("v", i, " = text of v", j, " way ", how);
                        std::ostringstream os;
                        os << v[j];
                        std::string t = os.str();
                        if(how == 0)
                            PBT_CHECK(eirin::fixed_from_cstring(t.data(), t.size(), v[i]), "the printed text is rejected: ", pbt::quote(t));
                        else if(how == 1)
                        {
                            std::istringstream is(t + " rest");
                            std::string rest;
                            is >> v[i] >> rest;
                            PBT_CHECK(!is.fail() && rest == "rest", "extraction fails or takes following text");
                        }
                        else if(how == 2)
                        {
                            std::string w;
                            F::copy_as_chars_to(v[j], std::back_inserter(w));
                            PBT_CHECK(w == t, "two ways to print differ");
                            eirin::fixed_from_cstring(w.data(), w.size(), v[i]);
                        }
                        else
                        {
                            if constexpr(std::is_same_v<F, eirin::fixed32>)
                                PBT_CHECK(eirin::f32_from_cstring(t.data(), t.size(), v[i]), "the printed text is rejected");
                            else
                                eirin::fixed_from_cstring(t.data(), t.size(), v[i]);
                        }
                        m[i] = m[j];
                    }
                    break;
                }
            case 15:
                {
                    // failing operations keep their target
                    c.label(L_THROW);
                    bool thrown = false;
                    uint64_t how = s.draw(4);
                    log("failing operation ", how, " on v", i);
                    try
                    {
                        if(how == 0)
                            v[i].divide_by(0);
                        else if(how == 1)
                            v[i].divide_by(mk<F>(0));
                        else if(how == 2)
                            v[i] = v[j].divide(0u);
                        else if constexpr(X::sgn)
                        {
                            std::istringstream is(j & 1 ? "99999999999999999999999" : "x");
                            is >> v[i];
                            thrown = is.fail();
                        }
                        else
                            thrown = true;
                    }
                    catch(const eirin::divide_by_zero&)
                    {
                        thrown = true;
                    }
                    PBT_CHECK(thrown, "an operation which has to fail did not");
                    break;
                }
            case 16:
                {
                    O r = div(m[i], m[j]);
                    if(!r)
                    {
                        set_new();
                        break;
                    }
                    log("v", i, ".divide_by(v", j, ")");
                    PBT_CHECK(raw(v[i].divide(v[j])) == *r, "divide is raw ", raw(v[i].divide(v[j])));
                    v[i].divide_by(v[j]);
                    m[i] = *r;
                    break;
                }
            case 17:
                {
                    // through a wider type and back
                    c.label(L_CONV);
                    log("v", i, " = v", j, " through another type");
                    if constexpr(X::sgn && X::f <= 32 && X::bits <= 32)
                        v[i] = F(eirin::fixed64(v[j]));
                    else if constexpr(X::bits <= 32)
                        v[i] = F(static_cast<double>(v[j]));
                    else
                        v[i] = F(static_cast<long double>(v[j]));
                    m[i] = m[j];
                    break;
                }
            case 18:
                {
                    i128 fl = floor_div(m[j], one);
                    log("v", i, " = integer of v", j);
                    auto n = static_cast<typename X::T>(v[j]);
                    PBT_CHECK(static_cast<i128>(n) == fl, "the cast to the integer is ", static_cast<i128>(n));
                    v[i] = F(n);
                    m[i] = fl * one;
                    break;
                }
            case 19:
                {
                    if(np == 4)
                        break;
                    Pure& p = pure[np];
                    p.k = OpCase();
                    if(!gen_case(s, c, p.k, ops::N_OPS, 31))
                        break;
                    p.k.a.text = p.k.text.data();
                    log("call: ", show_case(p.k));
                    c.label(L_PURE);
                    ops::eval(p.k.type, p.k.op, p.k.a, p.out);
                    ++np;
                    break;
                }
            default:
                set_new();
            }
            for(size_t q = 0; q < NV; ++q)
                PBT_CHECK(raw(v[q]) == m[q], "after the last step v", q, " is raw ", raw(v[q]), ", expected ", m[q]);
            for(size_t q = 0; q < 16; ++q)
                PBT_CHECK(box.before[q] == 0xA5 && box.after[q] == 0x5A, "memory beside of the variables changed");
        }
        for(size_t q = np; q-- > 0;)
        {
            ops::Out again;
            ops::eval(pure[q].k.type, pure[q].k.op, pure[q].k.a, again);
            PBT_CHECK(again.n == pure[q].out.n && std::memcmp(again.s, pure[q].out.s, again.n) == 0, show_case(pure[q].k), " gives another result when called again after the history");
        }
        for(size_t q = 0; q < NV; ++q)
            PBT_CHECK(raw(v[q]) == m[q], "calls of functions changed v", q);
    }
};

template <class F>
void reg(uint64_t quick)
{
    pbt::add("history/" + traits<F>::name(), quick, quick * 40, &Hist<F>::run);
}

static int r0 = []
{
    pbt::labels({"operand is its own target", "failing operation", "text round trip", "more than 12 steps", "conversion", "chained assignment", "container or byte copy", "function called again", "integer operand"});
    pbt::rule("a history of at least three operations on five variables");
    reg<eirin::fixed32>(2000000);
    reg<eirin::fixed64>(2000000);
    reg<fx<int64_t, 32, true>>(800000);
    reg<fx<int32_t, 16, true>>(800000);
    reg<fx<int16_t, 8>>(800000);
    reg<fx<int8_t, 4>>(800000);
    reg<fx<uint32_t, 16>>(800000);
    reg<fx<int64_t, 48>>(800000);
    reg<fx<int32_t, 24>>(800000);
    reg<fx<uint16_t, 5, true>>(400000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
