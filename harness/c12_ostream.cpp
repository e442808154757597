// C12: stream output and the character output interface print the exact value.
#include "text.hpp"
#include <iomanip>
#include <list>
#include <locale>
using namespace g;

enum { L_NEG, L_FRAC, L_BIN, L_OCT, L_DEC, L_HEX, L_ZEROINT, L_EDGE, L_LEFT, L_PADDED, L_OTHER, L_SINKFAILS, L_SINKTHROWS };

// a locale with another decimal point and grouping
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return "\1"; }
};

struct Fault
{};

// a sink which accepts `room` characters and then fails or throws
struct Sink : std::streambuf
{
    std::string got;
    size_t room;
    bool throws;
    char space[8];
    Sink(size_t room, bool throws, bool buffered) : room(room), throws(throws)
    {
        if(buffered)
            setp(space, space + sizeof space - 1);
    }
    bool take(char c)
    {
        if(got.size() >= room)
        {
            if(throws)
                throw Fault();
            return false;
        }
        got.push_back(c);
        return true;
    }
    bool drain()
    {
        for(char* q = pbase(); q != pptr(); ++q)
            if(!take(*q))
                return false;
        if(pbase())
            setp(space, space + sizeof space - 1);
        return true;
    }
    int_type overflow(int_type ch) override
    {
        if(!drain() || (!traits_type::eq_int_type(ch, traits_type::eof()) && !take(traits_type::to_char_type(ch))))
            return traits_type::eof();
        return traits_type::not_eof(ch);
    }
    int sync() override { return drain() ? 0 : -1; }
};

template <class F>
struct Out
{
    typedef traits<F> X;
    static void check(Case& c, i128 a, unsigned base, bool upper, uint64_t seq)
    {
        c.in(a), c.in(base), c.in(static_cast<int>(upper));
        std::string want = exact_text(a, X::f, base, upper);
        c.nontrivial = a != 0;
        c.label_if(L_NEG, a < 0);
        c.label_if(L_FRAC, want.find('.') != std::string::npos);
        c.label(base == 2 ? L_BIN : base == 8 ? L_OCT : base == 10 ? L_DEC : L_HEX);
        c.label_if(L_ZEROINT, a != 0 && mag(a) >> X::f == 0);
        c.label_if(L_EDGE, a == X::min || a == X::max);
        const F x = mk<F>(a);
        PBT_DESC(show(x), " base ", base, upper ? " upper" : "", " is ", want.size() > 90 ? want.substr(0, 90) + "..." : want);
        static thread_local std::ostringstream os;
        os.str("");
        os.clear();
        os.unsetf(std::ios_base::basefield | std::ios_base::uppercase);
        if(base != 2)
            os.setf(base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::dec);
        if(upper)
            os.setf(std::ios_base::uppercase);
        auto flags = os.flags();
        std::ostream& r = (os << x);
        PBT_CHECK(&r == &os && os.good(), "the stream is not good or another one");
        auto got = os.view();
        PBT_CHECK(got == want, "printed ", got, ", expected ", want);
        PBT_CHECK(os.flags() == flags, "the flags of the stream changed");
        // the iterator interface
        switch(seq % 3)
        {
        case 0:
            {
                char buf[1400];
                std::memset(buf, '#', sizeof buf);
                char* e = F::copy_as_chars_to(x, buf + 4, static_cast<int>(base), upper);
                PBT_CHECK(std::string_view(buf + 4, static_cast<size_t>(e - buf - 4)) == want, "the iterator interface wrote ", std::string(buf + 4, static_cast<size_t>(e - buf - 4)), ", expected ", want);
                PBT_CHECK(*e == '#' && buf[3] == '#', "characters outside were overwritten");
                break;
            }
        case 1:
            {
                std::string t = "x";
                F::copy_as_chars_to(x, std::back_inserter(t), static_cast<int>(base), upper);
                PBT_CHECK(t == "x" + want, "the iterator interface wrote ", t, ", expected x", want);
                std::list<char> l;
                F::copy_as_chars_to(x, std::front_inserter(l), static_cast<int>(base), upper);
                PBT_CHECK(std::string(l.rbegin(), l.rend()) == want, "the iterator interface wrote ", std::string(l.rbegin(), l.rend()), " into a list, expected ", want);
                std::wstring w;
                F::copy_as_chars_to(x, std::back_inserter(w), static_cast<int>(base), upper);
                PBT_CHECK(w == std::wstring(want.begin(), want.end()), "the iterator interface wrote ", std::string(w.begin(), w.end()), " into a wide string, expected ", want);
                std::ostringstream sb;
                F::copy_as_chars_to(x, std::ostreambuf_iterator<char>(sb), static_cast<int>(base), upper);
                PBT_CHECK(sb.str() == want, "the iterator interface wrote ", sb.str(), " into a stream buffer, expected ", want);
                break;
            }
        default:
            if(base == 10 && !upper)
            {
                std::string t;
                F::copy_as_chars_to(x, std::back_inserter(t));
                PBT_CHECK(t == want, "the iterator interface with defaults wrote ", t, ", expected ", want);
            }
            else
            {
                // a number between other output
                std::ostringstream o2;
                o2.flags(flags);
                o2 << "[" << x << "|" << x << "]";
                PBT_CHECK(o2.str() == "[" + want + "|" + want + "]", "printed ", o2.str());
            }
        }
    }
    static void run(Src& s, Case& c)
    {
        static const unsigned bases[] = {10, 10, 16, 8, 2};
        i128 a = gen_raw<F>(s);
        unsigned b = bases[s.draw(5)];
        bool up = s.draw(2);
        check(c, a, b, up, s.draw(3));
    }
    // width, fill and adjustment apply to the whole text; nothing else of the stream's state matters
    static void state(Src& s, Case& c)
    {
        static const unsigned bases[] = {10, 10, 16, 8, 2};
        i128 a = gen_raw<F>(s);
        unsigned base = bases[s.draw(5)];
        bool upper = s.draw(2);
        c.in(a), c.in(base), c.in(static_cast<int>(upper));
        const F x = mk<F>(a);
        std::string want = exact_text(a, X::f, base, upper);
        static const std::locale loc(std::locale::classic(), new Punct);
        std::ostringstream os;
        os.unsetf(std::ios_base::basefield);
        if(base != 2)
            os.setf(base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::dec);
        if(upper)
            os.setf(std::ios_base::uppercase);
        uint64_t o = s.draw(0) & s.draw(0);
        c.in(o);
        std::string how;
        auto flag = [&](int bit, std::ios_base::fmtflags fl, const char* name)
        {
            if(o >> bit & 1)
                os.setf(fl), how += std::string(" ") + name, c.label(L_OTHER);
        };
        flag(0, std::ios_base::showpos, "showpos");
        flag(1, std::ios_base::showbase, "showbase");
        flag(2, std::ios_base::showpoint, "showpoint");
        flag(3, std::ios_base::fixed, "fixed");
        flag(4, std::ios_base::scientific, "scientific");
        flag(5, std::ios_base::boolalpha, "boolalpha");
        flag(6, std::ios_base::unitbuf, "unitbuf");
        if(o >> 7 & 1)
            os.imbue(loc), how += " locale", c.label(L_OTHER);
        if(o >> 8 & 1)
            os.precision(static_cast<int>(o >> 9 & 15)), how += " precision", c.label(L_OTHER);
        int adj = static_cast<int>(s.draw(4));
        if(adj)
            os.setf(adj == 1 ? std::ios_base::left : adj == 2 ? std::ios_base::right : std::ios_base::internal, std::ios_base::adjustfield);
        char fill = s.draw(2) ? ' ' : static_cast<char>(33 + s.draw(90));
        os.fill(fill);
        size_t w = s.draw(3) ? s.draw(want.size() + 8) : s.draw(20) == 19 ? s.draw(3000) : s.draw(4);
        os.width(static_cast<std::streamsize>(w));
        c.in(static_cast<uint64_t>(w * 4 + adj));
        std::string pad(w > want.size() ? w - want.size() : 0, fill);
        c.nontrivial = !how.empty() || !pad.empty();
        c.label_if(L_PADDED, !pad.empty());
        c.label_if(L_LEFT, !pad.empty() && adj == 1);
        PBT_DESC(show(x), " base ", base, upper ? " upper" : "", " width ", w, " fill ", std::string(1, fill), adj == 1 ? " left" : "", how);
        const auto flags = os.flags();
        os << x;
        std::string full = adj == 1 ? want + pad : pad + want;
        PBT_CHECK(os.str() == full, "printed ", pbt::quote(os.str()), ", expected ", pbt::quote(full));
        PBT_CHECK(os.good() && os.width() == 0 && os.flags() == flags && os.fill() == fill, "the width stays, or flags, fill or state changed");
        os << x;
        PBT_CHECK(os.str() == full + want, "printed ", pbt::quote(os.str()), ", expected ", pbt::quote(full + want), " for two numbers");
        // a failed stream prints nothing and stays failed
        os.setstate(std::ios_base::failbit);
        os << x;
        PBT_CHECK(os.str() == full + want && os.fail(), "printed to a failed stream");
    }
    // a sink which is full after some characters: it has got exactly those, and the stream reports the failure
    static void fault(Src& s, Case& c)
    {
        static const unsigned bases[] = {10, 10, 16, 8, 2};
        i128 a = gen_raw<F>(s);
        unsigned base = bases[s.draw(5)];
        bool upper = s.draw(2), throws = s.draw(2), mask = s.draw(2);
        const F x = mk<F>(a);
        std::string want = exact_text(a, X::f, base, upper);
        size_t w = s.draw(3) ? 0 : s.draw(want.size() + 6);
        bool left = s.draw(2);
        std::string pad(w > want.size() ? w - want.size() : 0, '*');
        std::string full = left ? want + pad : pad + want;
        size_t room = s.draw(8) ? s.draw(full.size() + 2) : full.size() - 1;
        c.in(a), c.in(base), c.in(static_cast<uint64_t>(room * 64 + w * 16 + (upper * 8 + throws * 4 + mask * 2 + left)));
        c.nontrivial = room < full.size();
        c.label_if(room < full.size() && throws ? L_SINKTHROWS : L_SINKFAILS, room < full.size());
        PBT_DESC(show(x), " base ", base, " width ", w, " to a sink of ", room, " characters", throws ? " which throws" : "", mask ? ", badbit throws" : "");
        Sink sink(room, throws, false);
        std::ostream os(&sink);
        os.unsetf(std::ios_base::basefield);
        if(base != 2)
            os.setf(base == 16 ? std::ios_base::hex : base == 8 ? std::ios_base::oct : std::ios_base::dec);
        if(upper)
            os.setf(std::ios_base::uppercase);
        if(left)
            os.setf(std::ios_base::left, std::ios_base::adjustfield);
        os.fill('*');
        os.width(static_cast<std::streamsize>(w));
        if(mask)
            os.exceptions(std::ios_base::badbit);
        bool thrown = false;
        try
        {
            os << x;
        }
        catch(const Fault&)
        {
            thrown = true;
        }
        catch(const std::ios_base::failure&)
        {
            thrown = true;
        }
        const bool fails = room < full.size();
        PBT_CHECK(sink.got == full.substr(0, room), "the sink has got ", pbt::quote(sink.got), " of ", pbt::quote(full));
        PBT_CHECK(os.bad() == fails, fails ? "badbit is not set" : "badbit is set");
        PBT_CHECK(thrown == (fails && mask), thrown ? "an exception was thrown" : "no exception was thrown");
        // once there is room again, the stream prints again
        sink.room = 100000;
        sink.got.clear();
        os.exceptions(std::ios_base::goodbit);
        os.clear();
        os.width(0);
        os << x;
        PBT_CHECK(os.good() && sink.got == want, "after the failure the sink has got ", pbt::quote(sink.got), ", expected ", pbt::quote(want));
        // the same through a small buffer: what arrived is a beginning of the text, and all of it if there is no failure
        Sink small(room, throws, true);
        std::ostream ob(&small);
        ob.flags(os.flags());
        ob.fill('*');
        ob.width(static_cast<std::streamsize>(w));
        ob << x;
        ob.flush();
        PBT_CHECK(small.got == full.substr(0, room), "behind a buffer the sink has got ", pbt::quote(small.got), " of ", pbt::quote(full));
        PBT_CHECK(ob.bad() == fails, fails ? "badbit is not set behind a buffer" : "badbit is set behind a buffer");
    }
    static void all16(Src& s, Case& c)
    {
        uint64_t i = s.index(65536 * 4);
        static const unsigned bases[] = {10, 16, 8, 2};
        check(c, X::min + static_cast<i128>(i >> 2), bases[i & 3], (i >> 5) & 1, i);
    }
    static void all8(Src& s, Case& c)
    {
        uint64_t i = s.index(256 * 4);
        static const unsigned bases[] = {10, 16, 8, 2};
        check(c, X::min + static_cast<i128>(i >> 2), bases[i & 3], (i >> 5) & 1, i);
    }
};

template <class F>
struct OutState
{
    static void run(Src& s, Case& c) { Out<F>::state(s, c); }
};

template <class F>
struct OutFault
{
    static void run(Src& s, Case& c) { Out<F>::fault(s, c); }
};

#ifdef SWEEP
static int r0 = []
{
    sweep<Out, BOTH, 1, 1, 64>(signed_storage{}, "sweep/print", 10000, 200000);
    sweep<Out, BOTH, 1, 1, 64>(unsigned_storage{}, "sweep/print", 10000, 200000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"negative", "has a fraction", "base 2", "base 8", "base 10", "base 16", "integral part 0", "an end of the range", "padded on the right", "padded", "flags, locale or precision which do not matter", "the sink is full before the end", "the sink throws before the end"});
    pbt::rule("a generated or enumerated number, a base and a case, non-trivial: not zero; or a number and a state of the stream with width, fill, adjustment, other flags, precision and locale, non-trivial: padded or with such a flag; or a number and a sink with room for some characters, non-trivial: less than the text");
    each<Out>(mains{}, "print", 2000000, 60000000);
    each<Out>(types<fx<int32_t, 1>, fx<int32_t, 8>, fx<int32_t, 24>, fx<int32_t, 30>, fx<int32_t, 31>, fx<int64_t, 1>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>>{}, "print", 200000, 4000000);
    each<Out>(types<fx<uint16_t, 15>, fx<uint32_t, 16>, fx<uint32_t, 31>, fx<uint64_t, 32>, fx<uint64_t, 60>, fx<int32_t, 16, true>, fx<int64_t, 32, true>>{}, "print", 200000, 4000000);
    each<OutState>(mains{}, "state", 300000, 8000000);
    each<OutState>(types<fx<int8_t, 4>, fx<int16_t, 8>, fx<int32_t, 31>, fx<int64_t, 1>, fx<int64_t, 48>, fx<uint32_t, 16>, fx<uint64_t, 60>, fx<int32_t, 16, true>>{}, "state", 50000, 1000000);
    each<OutFault>(mains{}, "fault", 100000, 3000000);
    each<OutFault>(types<fx<int8_t, 4>, fx<int32_t, 31>, fx<int64_t, 48>, fx<uint64_t, 60>, fx<int32_t, 16, true>>{}, "fault", 20000, 500000);
    pbt::add_all("all/i8f4", 1024, &Out<fx<int8_t, 4>>::all8);
    pbt::add_all("all/i8f7", 1024, &Out<fx<int8_t, 7>>::all8);
    pbt::add_all("all/u8f4", 1024, &Out<fx<uint8_t, 4>>::all8);
    pbt::add_all("all/i16f8", 65536 * 4, &Out<fx<int16_t, 8>>::all16);
    pbt::add_all("all/i16f3", 65536 * 4, &Out<fx<int16_t, 3>>::all16);
    pbt::add_all("all/u16f8", 65536 * 4, &Out<fx<uint16_t, 8>>::all16);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
