// C13: std::format against an independent formatter.
#include "text.hpp"
#include <eirin/io/format.hpp>
#include <format>
#include <list>
#include <locale>
#include <sstream>
using namespace g;

enum { L_WIDTH, L_ZERO, L_FILL, L_PREC, L_INT, L_ALT, L_DEBUG, L_ERROR, L_MULTI, L_WIDE, L_PADDED };

struct Spec
{
    char fill = 0; // 0: none
    char align = 0;
    char sign = 0;
    bool alt = false, zero = false;
    int width = 0, prec = -1;
    char type = 0;
    std::string text() const
    {
        std::string t;
        if(align)
        {
            if(fill)
                t.push_back(fill);
            t.push_back(align);
        }
        if(sign)
            t.push_back(sign);
        if(alt)
            t.push_back('#');
        if(zero)
            t.push_back('0');
        if(width)
            t += std::to_string(width);
        if(prec >= 0)
            t += "." + std::to_string(prec);
        if(type)
            t.push_back(type);
        return t;
    }
};

inline Spec gen_spec(Src& s)
{
    Spec p;
    if(s.draw(2))
    {
        p.align = "<>^"[s.draw(3)];
        if(s.draw(2))
        {
            static const char pool[] = "*_#0+- .:x<>^97?~a\"";
            p.fill = s.draw(4) ? pool[s.draw(sizeof pool - 1)] : static_cast<char>(33 + s.draw(90));
            if(p.fill == '{' || p.fill == '}')
                p.fill = '*';
        }
    }
    if(s.draw(2))
        p.sign = "+- "[s.draw(3)];
    p.alt = s.draw(3) == 0;
    p.zero = s.draw(3) == 0;
    if(s.draw(3))
        p.width = 1 + static_cast<int>(s.draw(s.draw(4) ? 24 : s.draw(40) == 39 ? 5000 : 120));
    if(s.draw(2))
        p.prec = static_cast<int>(s.draw(s.draw(4) ? 12 : s.draw(40) == 39 ? 5000 : 90));
    static const char types[] = "gGfFdxXobB?";
    if(s.draw(4))
        p.type = types[s.draw(11)];
    return p;
}

inline std::string reference(const Spec& p, i128 a, unsigned f)
{
    bool neg = a < 0;
    u128 m = mag(a);
    std::string pre = neg ? "-" : p.sign == '+' ? "+" : p.sign == ' ' ? " " : "";
    std::string body;
    switch(p.type)
    {
    case 'd':
        body = digits_of(m >> f, 10, false);
        break;
    case 'x':
    case 'X':
        if(p.alt)
            pre += p.type == 'x' ? "0x" : "0X";
        body = digits_of(m >> f, 16, p.type == 'X');
        break;
    case 'o':
        if(p.alt)
            pre += "0";
        body = digits_of(m >> f, 8, false);
        break;
    case 'b':
    case 'B':
        if(p.alt)
            pre += p.type == 'b' ? "0b" : "0B";
        body = digits_of(m >> f, 2, false);
        break;
    case '?':
        if(p.alt)
            pre += "0x";
        body = digits_of(m, 16, false);
        break;
    default:
        {
            body = digits_of(m >> f, 10, false);
            size_t prec = p.prec < 0 ? 6 : static_cast<size_t>(p.prec);
            std::string fr = fraction_digits(m & ((static_cast<u128>(1) << f) - 1), f, 10, false, prec);
            if(p.type == 'f' || p.type == 'F')
                fr.resize(prec, '0');
            if(!fr.empty())
                body += "." + fr;
        }
    }
    size_t n = pre.size() + body.size(), w = static_cast<size_t>(p.width);
    if(n >= w)
        return pre + body;
    size_t pad = w - n;
    if(p.zero)
        return pre + std::string(pad, '0') + body;
    char fill = p.fill ? p.fill : ' ';
    if(p.align == '<')
        return pre + body + std::string(pad, fill);
    if(p.align == '^')
        return std::string(pad / 2, fill) + pre + body + std::string(pad - pad / 2, fill);
    return std::string(pad, fill) + pre + body;
}

template <class F>
struct Fmt
{
    typedef traits<F> X;
    static void one(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s);
        Spec p = gen_spec(s);
        std::string t = p.text();
        std::string fs = s.draw(4) || !t.empty() ? "{:" + t + "}" : "{}";
        std::string want = reference(p, a, X::f);
        c.in(a), c.in(t);
        c.nontrivial = !t.empty();
        c.label_if(L_WIDTH, p.width);
        c.label_if(L_ZERO, p.zero);
        c.label_if(L_FILL, p.fill);
        c.label_if(L_PREC, p.prec >= 0);
        c.label_if(L_INT, p.type && std::strchr("dxXobB", p.type));
        c.label_if(L_ALT, p.alt);
        c.label_if(L_DEBUG, p.type == '?');
        c.label_if(L_PADDED, want.size() == static_cast<size_t>(p.width));
        const F x = mk<F>(a);
        PBT_DESC(show(x), " as ", fs, " is ", want);
        std::string got = std::vformat(fs, std::make_format_args(x));
        PBT_CHECK(got == want, "formatted [", got, "], expected [", want, "]");
        if(s.draw(4) == 0)
        {
            c.label(L_WIDE);
            std::wstring wf(fs.begin(), fs.end()), ww(want.begin(), want.end());
            wchar_t wide = 0;
            if(p.fill && s.draw(2))
            {
                // a fill character outside of the narrow range, possibly with the low byte of a special one
                wide = static_cast<wchar_t>(s.draw(2) ? 0x100 * (1 + s.draw(0xff)) + static_cast<unsigned char>(p.fill) : 0x1f600 + s.draw(64));
                wf[2] = wide;
                c.in(static_cast<uint64_t>(wide));
                Spec q = p;
                q.fill = 1;
                std::string t = reference(q, a, X::f);
                ww.clear();
                for(char ch : t)
                    ww.push_back(ch == 1 ? wide : static_cast<wchar_t>(ch));
            }
            PBT_DESC(show(x), " as ", fs, wide ? " with the wide fill character " : " as wide string", wide ? std::to_string(static_cast<unsigned>(wide)) : std::string(), " is ", want);
            std::wstring wg = std::vformat(wf, std::make_wformat_args(x));
            PBT_CHECK(wg == ww, "as wide string [", std::string(wg.begin(), wg.end()), "], expected [", std::string(ww.begin(), ww.end()), "] (low bytes)");
        }
        PBT_CHECK(raw(x) == a, "the number changed");
    }
    // several fields with text between them, numbered or not
    static void many(Src& s, Case& c)
    {
        size_t n = 1 + s.draw(4);
        std::vector<F> xs;
        std::vector<i128> as;
        for(size_t i = 0; i < 4; ++i)
        {
            as.push_back(gen_raw<F>(s));
            xs.push_back(mk<F>(as.back()));
        }
        bool numbered = s.draw(2);
        std::string fs, want;
        for(size_t i = 0; i < n; ++i)
        {
            static const char* sep[] = {"", " ", "<b>", ", ", "x", "{{}}", ":>5", "0", "^", "{{:f}}"};
            std::string t = sep[s.draw(10)];
            fs += t;
            want += t == "{{}}" ? "{}" : t == "{{:f}}" ? "{:f}" : t;
            Spec p = s.draw(3) ? gen_spec(s) : Spec();
            size_t k = numbered ? s.draw(4) : i;
            std::string body = p.text();
            fs += "{" + (numbered ? std::to_string(k) : std::string()) + (body.empty() && s.draw(2) ? "" : ":" + body) + "}";
            want += reference(p, as[k], X::f);
        }
        fs += "<";
        want += "<";
        c.in(fs), c.in(as[0]), c.in(as[1]);
        c.nontrivial = true;
        c.label(L_MULTI);
        PBT_DESC(fs, " of ", show(xs[0]), ", ", show(xs[1]), ", ", show(xs[2]), ", ", show(xs[3]), " is ", want);
        std::string got = std::vformat(fs, std::make_format_args(xs[0], xs[1], xs[2], xs[3]));
        PBT_CHECK(got == want, "formatted [", got, "], expected [", want, "]");
    }
    static void error(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s);
        const F x = mk<F>(a);
        Spec p = gen_spec(s);
        std::string t;
        uint64_t kind = s.draw(3);
        if(kind == 0)
        {
            // unknown type
            char ch;
            do
                ch = static_cast<char>(33 + s.draw(94));
            while(false);
            static const std::string known = "gGfFdxXobB?{}<>^+-#.:0123456789 ";
            if(known.find(ch) != std::string::npos)
                ch = 'q';
            p.type = ch;
            t = p.text();
            if(p.align == 0 && t.size() >= 2 && (t[1] == '<' || t[1] == '>' || t[1] == '^'))
                t = "q";
        }
        else if(kind == 1)
        {
            // a width beyond int
            p.type = 0;
            p.width = 0;
            p.prec = -1;
            p.zero = false;
            t = p.text() + std::to_string(2147483648ull + s.draw(1ull << 40)) + (s.draw(2) ? gen_digits(s, s.draw(20)) : "") + (s.draw(2) ? ".3f" : "");
        }
        else
        {
            p.type = 0;
            p.prec = -1;
            t = p.text() + "." + std::to_string(2147483648ull + s.draw(1ull << 40)) + (s.draw(2) ? gen_digits(s, s.draw(20)) : "") + (s.draw(2) ? "f" : "");
        }
        c.in(t), c.in(a);
        c.nontrivial = true;
        c.label(L_ERROR);
        std::string fs = "{:" + t + "}";
        PBT_DESC(show(x), " as ", fs, " is an error");
        bool thrown = false;
        std::string got;
        try
        {
            got = std::vformat(fs, std::make_format_args(x));
        }
        catch(const std::format_error&)
        {
            thrown = true;
        }
        PBT_CHECK(thrown, "no format_error, but [", got.substr(0, 100), "]");
        std::wstring wf(fs.begin(), fs.end());
        bool wide_type = kind == 0 && s.draw(2);
        if(wide_type) // a wide character whose low byte may be that of a type
        {
            static const char types[] = "gGfFdxXobB?";
            wf[wf.size() - 2] = static_cast<wchar_t>(0x100 * (1 + s.draw(0xff)) + static_cast<unsigned char>(s.draw(4) ? types[s.draw(11)] : s.draw(0x100)));
            c.in(static_cast<uint64_t>(wf[wf.size() - 2]));
            // a wide character before an alignment is a fill character
            if(wf.size() == 5 && (wf[2] == L'<' || wf[2] == L'>' || wf[2] == L'^'))
                wf.erase(2, 1);
        }
        PBT_DESC(show(x), " as wide ", fs, wide_type ? " with the last character replaced by " : "", wide_type ? std::to_string(static_cast<unsigned>(wf[wf.size() - 2])) : std::string(), " is an error");
        thrown = false;
        std::wstring wg;
        try
        {
            wg = std::vformat(wf, std::make_wformat_args(x));
        }
        catch(const std::format_error&)
        {
            thrown = true;
        }
        PBT_CHECK(thrown, "no format_error, but [", std::string(wg.begin(), wg.begin() + std::min<size_t>(wg.size(), 100)), "]");
    }
    // the other functions of the standard library for formatting, and format strings which are checked at compile time
    static void entry(Src& s, Case& c)
    {
        i128 a = gen_raw<F>(s);
        const F x = mk<F>(a);
        Spec p = gen_spec(s);
        std::string fs = "[{:" + p.text() + "}]";
        if(s.draw(2))
        {
            std::string want = "[" + reference(p, a, X::f) + "]";
            c.in(a), c.in(fs);
            c.nontrivial = true;
            PBT_DESC(show(x), " as ", fs, " is ", want);
            auto args = std::make_format_args(x);
            std::list<char> l;
            std::vformat_to(std::back_inserter(l), fs, args);
            PBT_CHECK(std::string(l.begin(), l.end()) == want, "format_to a list gives ", std::string(l.begin(), l.end()), ", expected ", want);
            std::string buf(want.size() + 2, '#');
            char* end = std::vformat_to(buf.data() + 1, fs, args);
            PBT_CHECK(end == buf.data() + 1 + want.size() && buf == "#" + want + "#", "format_to an array gives ", buf, ", expected #", want, "#");
            std::ostringstream os;
            std::vformat_to(std::ostreambuf_iterator<char>(os), fs, args);
            PBT_CHECK(os.str() == want, "format_to a stream buffer gives ", os.str(), ", expected ", want);
            static const std::locale loc(std::locale::classic(), new Grouping);
            PBT_CHECK(std::vformat(loc, fs, args) == want, "with a locale the result is ", std::vformat(loc, fs, args), ", expected ", want);
            return;
        }
        struct Row
        {
            const char* spec;
            std::string (*narrow)(const F&);
            std::wstring (*wide)(const F&);
            size_t (*size)(const F&);
            std::string (*first)(const F&, size_t);
        };
#define ROW(S)                                                                                                                                                     \
    Row{S, [](const F& v) { return std::format("{:" S "}", v); }, [](const F& v) { return std::format(L"{:" S "}", v); }, [](const F& v) { return std::formatted_size("{:" S "}", v); }, \
        [](const F& v, size_t n) { std::string b; std::format_to_n(std::back_inserter(b), static_cast<std::ptrdiff_t>(n), "{:" S "}", v); return b; }}
        static const Row rows[] = {ROW(""), ROW("f"), ROW(".3f"), ROW("012.4F"), ROW("*<20"), ROW("#x"), ROW("+#020X"), ROW(" d"), ROW("_^9o"), ROW("#b"), ROW("?"), ROW("#?"), ROW("-.0f"), ROW("5.12G"), ROW(".40g"), ROW("0>8B"), ROW("<<7.2f"), ROW(" #012b")};
        static const Spec specs[] = {sp(0, 0, 0, false, false, 0, -1, 0), sp(0, 0, 0, false, false, 0, -1, 'f'), sp(0, 0, 0, false, false, 0, 3, 'f'), sp(0, 0, 0, false, true, 12, 4, 'F'), sp('*', '<', 0, false, false, 20, -1, 0),
            sp(0, 0, 0, true, false, 0, -1, 'x'), sp(0, 0, '+', true, true, 20, -1, 'X'), sp(0, 0, ' ', false, false, 0, -1, 'd'), sp('_', '^', 0, false, false, 9, -1, 'o'), sp(0, 0, 0, true, false, 0, -1, 'b'), sp(0, 0, 0, false, false, 0, -1, '?'),
            sp(0, 0, 0, true, false, 0, -1, '?'), sp(0, 0, '-', false, false, 0, 0, 'f'), sp(0, 0, 0, false, false, 5, 12, 'G'), sp(0, 0, 0, false, false, 0, 40, 'g'), sp('0', '>', 0, false, false, 8, -1, 'B'), sp('<', '<', 0, false, false, 7, 2, 'f'), sp(0, 0, ' ', true, true, 12, -1, 'b')};
        static_assert(std::size(rows) == std::size(specs));
        size_t i = s.draw(std::size(rows));
        std::string want = reference(specs[i], a, X::f);
        c.in(a), c.in(static_cast<uint64_t>(i));
        c.nontrivial = true;
        PBT_DESC(show(x), " as {:", rows[i].spec, "} is ", want);
        std::string got = rows[i].narrow(x);
        PBT_CHECK(got == want, "format gives [", got, "], expected [", want, "]");
        std::wstring wg = rows[i].wide(x);
        PBT_CHECK(std::string(wg.begin(), wg.end()) == want, "as wide string [", std::string(wg.begin(), wg.end()), "], expected [", want, "]");
        PBT_CHECK(rows[i].size(x) == want.size(), "formatted_size is ", rows[i].size(x), ", expected ", want.size());
        size_t n = s.draw(want.size() + 2);
        PBT_CHECK(rows[i].first(x, n) == want.substr(0, n), "format_to_n of ", n, " characters gives ", rows[i].first(x, n), ", expected ", want.substr(0, n));
    }
    static Spec sp(char fill, char align, char sign, bool alt, bool zero, int width, int prec, char type)
    {
        Spec p;
        p.fill = fill, p.align = align, p.sign = sign, p.alt = alt, p.zero = zero, p.width = width, p.prec = prec, p.type = type;
        return p;
    }
    struct Grouping : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\1"; }
    };
};

template <class F>
void reg(uint64_t q, uint64_t t)
{
    pbt::add("one/" + traits<F>::name(), q, t, &Fmt<F>::one);
    pbt::add("many/" + traits<F>::name(), q / 4, t / 4, &Fmt<F>::many);
    pbt::add("error/" + traits<F>::name(), q / 20, t / 20, &Fmt<F>::error);
    pbt::add("entry/" + traits<F>::name(), q / 20, t / 20, &Fmt<F>::entry);
}
template <class F>
struct One
{
    static void run(Src& s, Case& c) { Fmt<F>::one(s, c); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<One, BOTH, 1, 1, 64>(signed_storage{}, "sweep/one", 5000, 100000);
    sweep<One, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/one", 5000, 100000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"width", "zero padding", "fill character", "precision", "integral type", "# form", "raw (?)", "rejected specification", "several fields", "wide characters", "padded to exactly the width"});
    pbt::rule("a number and a specification assembled from optional fill and alignment, sign, #, 0, width, precision and type; or a format string with several fields, numbered or not, and text between; or a specification which has to be rejected; non-trivial: the specification is not empty");
    reg<f32>(2500000, 60000000);
    reg<f64>(2500000, 60000000);
    reg<fx<int16_t, 8>>(200000, 4000000);
    reg<fx<int8_t, 4>>(100000, 2000000);
    reg<fx<int32_t, 24>>(200000, 4000000);
    reg<fx<int32_t, 30>>(200000, 4000000);
    reg<fx<int64_t, 16>>(200000, 4000000);
    reg<fx<int64_t, 48>>(200000, 4000000);
    reg<fx<int64_t, 61>>(200000, 4000000);
    reg<fx<uint32_t, 16>>(200000, 4000000);
    reg<fx<uint64_t, 32>>(200000, 4000000);
    reg<fx<int32_t, 16, true>>(100000, 2000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
