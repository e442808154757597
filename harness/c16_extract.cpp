// C16: stream extraction over generated token sequences, against a model of the stream.
#include "text.hpp"
#include <eirin/eirin.hpp>
#include <sstream>
using namespace g;

enum { L_MANY, L_FAIL, L_RANGE, L_WS, L_ADJ, L_EOF, L_WIDE, L_MIXED, L_STRANGE, L_NOSKIP, L_FLAGS, L_THROWS, L_SMALLBUF, L_FAILED, L_SOURCEFAILS, L_LOOKAHEAD };

inline bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }

// a source which delivers one character at a time and cannot put back or seek
template <class Ch>
struct Trickle : std::basic_streambuf<Ch>
{
    typedef std::char_traits<Ch> Tr;
    std::basic_string<Ch> text;
    size_t next = 0;
    Ch one{};
    explicit Trickle(std::basic_string<Ch> t) : text(std::move(t)) {}
    typename Tr::int_type underflow() override
    {
        if(this->gptr() < this->egptr())
            return Tr::to_int_type(*this->gptr());
        if(next >= text.size())
            return Tr::eof();
        one = text[next++];
        this->setg(&one, &one, &one + 1);
        return Tr::to_int_type(one);
    }
};

struct Fault
{};

// a source of single characters which throws when the one at `limit` is asked for
template <class Ch>
struct Broken : Trickle<Ch>
{
    size_t limit;
    Broken(std::basic_string<Ch> t, size_t limit) : Trickle<Ch>(std::move(t)), limit(limit) {}
    typename Trickle<Ch>::Tr::int_type underflow() override
    {
        if(!(this->gptr() < this->egptr()) && this->next >= limit)
            throw Fault();
        return Trickle<Ch>::underflow();
    }
};

template <class F, class Ch>
struct Extract
{
    // a source which fails at some character: badbit is set and the number unchanged if that character is in the number or
    // the first one behind it; characters farther behind are not asked for
    static void fault(Src& s, Case& c)
    {
        std::string t(s.draw(4) ? 0 : s.draw(4), " \t\n"[s.draw(3)]);
        t += gen_decimal<F>(s, true);
        t += " x,-.0"[s.draw(6)];
        t += gen_decimal<F>(s, true);
        std::basic_string<Ch> w(t.begin(), t.end());
        size_t start = 0;
        while(ws(t[start]))
            ++start;
        auto p = longest_prefix(std::string_view(t).substr(start));
        size_t need = start + p.len;
        size_t limit;
        switch(s.draw(6))
        {
        case 0:
            limit = need;
            break;
        case 1:
        case 2:
            limit = need + 1;
            break;
        default:
            limit = s.draw(need + 2);
        }
        bool mask = s.draw(2);
        i128 want = 0, old = gen_raw<F>(s);
        bool in = p.digits && in_range<F>(p, want), fails = need >= limit;
        c.in(t), c.in(static_cast<uint64_t>(limit)), c.in(old);
        c.nontrivial = p.digits;
        c.label_if(L_SOURCEFAILS, fails);
        c.label_if(L_LOOKAHEAD, limit == need + 1);
        PBT_DESC(pbt::quote(t), " as ", traits<F>::name(), " from a source that fails at character ", limit, mask ? ", badbit throws" : "");
        if(!p.digits)
            return; // how much was consumed is not stated
        Broken<Ch> source(w, limit);
        std::basic_istream<Ch> is(&source);
        if(mask)
            is.exceptions(std::ios_base::badbit);
        F x = mk<F>(old);
        bool thrown = false;
        try
        {
            is >> x;
        }
        catch(const Fault&)
        {
            thrown = true;
        }
        catch(const std::ios_base::failure&)
        {
            thrown = true;
        }
        PBT_CHECK(is.bad() == fails, fails ? "badbit is not set" : "badbit is set, though the number and the character behind it could be read");
        PBT_CHECK(thrown == (fails && mask), thrown ? "an exception was thrown" : "no exception was thrown");
        if(fails)
            PBT_CHECK(raw(x) == old, "the number was changed to raw ", raw(x), " though its source failed");
        else
        {
            PBT_CHECK(is.fail() != in, in ? "the extraction failed" : "the extraction did not fail");
            PBT_CHECK(raw(x) == (in ? want : old), "the extraction gives raw ", raw(x), ", expected ", in ? want : old);
        }
    }

    static void run(Src& s, Case& c)
    {
        // the text
        std::string t;
        size_t n = s.draw(5) + 1;
        for(size_t i = 0; i < n; ++i)
        {
            switch(s.draw(8))
            {
            case 0:
            case 1:
                t += std::string(s.draw(4), " \t\n\r\f\v"[s.draw(6)]);
                break;
            default:
                if(i)
                    t += " \n\t"[s.draw(3)];
            }
            switch(s.draw(10))
            {
            case 0:
                {
                    static const char* junk[] = {"-", ".", "-.", "abc", "+1", "--1", "1e5", "0x10", "1,2", "-a", "..5", "1.2.3", "5-3", "1.-2", "\xff", "-\n1"};
                    t += junk[s.draw(16)];
                    break;
                }
            case 1:
                t += gen_decimal<F>(s, true) + gen_decimal<F>(s, true);
                break;
            default:
                t += gen_decimal<F>(s, true);
            }
        }
        if(s.draw(3) == 0)
            t += " \n"[s.draw(2)];
        c.in(t);
        c.label_if(L_WIDE, sizeof(Ch) > 1);
        PBT_DESC(pbt::quote(t), " as ", traits<F>::name());
        std::basic_string<Ch> w;
        for(char ch : t)
            w.push_back(sizeof(Ch) > 1 ? static_cast<Ch>(static_cast<unsigned char>(ch)) : static_cast<Ch>(ch)); // 0xff must not become WEOF
        if(sizeof(Ch) > 1 && !t.empty() && s.draw(3) == 0)
        {
            // a character outside of the narrow range, whose low byte is that of a digit, a sign or a space: a stranger
            size_t k = s.draw(t.size());
            bool insert = s.draw(2);
            char low = insert ? "0123456789.- "[s.draw(13)] : t[k];
            Ch wide = static_cast<Ch>(0x100u + (static_cast<unsigned char>(low) & 0x7f));
            if(insert)
                t.insert(t.begin() + static_cast<std::ptrdiff_t>(k), '\x01'), w.insert(w.begin() + static_cast<std::ptrdiff_t>(k), wide);
            else
                t[k] = '\x01', w[k] = wide;
            c.in(static_cast<uint64_t>(k * 256 + static_cast<unsigned char>(low)));
            c.label(L_STRANGE);
            PBT_DESC(pbt::quote(t), " as ", traits<F>::name(), " from a wide stream, with character ", static_cast<unsigned>(wide), " in place of \\x01");
        }
        std::basic_stringbuf<Ch> whole(w);
        Trickle<Ch> trickle(w);
        const bool small = s.draw(4) == 0, noskip = s.draw(5) == 0, throws = s.draw(5) == 0;
        std::basic_istream<Ch> is(small ? static_cast<std::basic_streambuf<Ch>*>(&trickle) : &whole);
        c.label_if(L_SMALLBUF, small);
        c.label_if(L_NOSKIP, noskip);
        c.label_if(L_THROWS, throws);
        if(noskip)
            is.unsetf(std::ios_base::skipws);
        if(throws)
            is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        if(s.draw(4) == 0)
        {
            // neither the base nor the width of the stream matters
            is.setf(s.draw(2) ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
            is.width(static_cast<std::streamsize>(s.draw(4)));
            c.label(L_FLAGS);
        }
        auto failed_stays = [&](i128 old, F& x)
        {
            // extraction from a failed stream changes neither the number nor the position
            is.exceptions(std::ios_base::goodbit);
            x = mk<F>(old);
            is >> x;
            PBT_CHECK(is.fail() && raw(x) == old, "extraction from a failed stream gives raw ", raw(x));
            c.label(L_FAILED);
        };
        size_t pos = 0;
        int numbers = 0;
        for(int step = 0; step < 12; ++step)
        {
            i128 old = gen_raw<F>(s);
            F x = mk<F>(old);
            if(s.draw(6) == 0)
            {
                // other data in between
                c.label(L_MIXED);
                if(pos >= t.size())
                    is.exceptions(std::ios_base::goodbit);
                auto ch = is.get();
                if(pos < t.size())
                    PBT_CHECK(static_cast<Ch>(ch) == w[pos], "the next character is not the one at ", pos);
                else
                {
                    PBT_CHECK(is.eof(), "no end of file at ", pos);
                    return;
                }
                ++pos;
                continue;
            }
            size_t start = pos;
            while(!noskip && pos < t.size() && ws(t[pos]))
                ++pos;
            c.label_if(L_WS, pos > start);
            auto p = longest_prefix(std::string_view(t).substr(pos));
            i128 want = 0;
            bool ok = p.digits && in_range<F>(p, want);
            bool thrown = false;
            const auto fmt = is.flags();
            try
            {
                auto& r = (is >> x);
                PBT_CHECK(&r == &is, "another stream is returned");
            }
            catch(const std::ios_base::failure&)
            {
                thrown = true;
            }
            PBT_CHECK(thrown == (throws && !ok), thrown ? "an exception which was not asked for or needed" : "no exception", " at ", pos);
            PBT_CHECK(is.flags() == fmt, "the format flags of the stream changed");
            if(!ok)
            {
                c.label(L_FAIL);
                c.label_if(L_RANGE, p.digits);
                c.nontrivial = true;
                PBT_CHECK(is.fail(), "extraction at ", pos, " did not fail, raw ", raw(x));
                PBT_CHECK(raw(x) == old, "the number was changed to raw ", raw(x), " by a failing extraction at ", pos);
                failed_stays(old, x);
                if(!p.digits)
                    return; // how much was consumed is not stated
                // the digits of a number out of range are consumed
                is.clear();
                pos += p.len;
                auto nx = is.peek();
                if(pos < t.size())
                    PBT_CHECK(static_cast<Ch>(nx) == w[pos], "the next character behind a number out of range is not the one at ", pos);
                else
                    PBT_CHECK(is.eof(), "no end of file behind a number out of range");
                return;
            }
            PBT_CHECK(!is.fail(), "extraction at ", pos, " failed");
            PBT_CHECK(raw(x) == want, "extraction at ", pos, " gives raw ", raw(x), ", expected ", want);
            c.label_if(L_ADJ, start == pos && step > 0);
            pos += p.len;
            if(++numbers > 1)
                c.label(L_MANY);
            c.nontrivial = true;
            if(pos >= t.size())
                c.label(L_EOF);
            else
            {
                PBT_CHECK(is.good(), "the stream is not good after the number before ", pos);
                auto nx = is.peek();
                PBT_CHECK(static_cast<Ch>(nx) == w[pos], "the next character is not the one at ", pos);
            }
        }
    }
};

template <class F>
struct A
{
    static void run(Src& s, Case& c) { Extract<F, char>::run(s, c); }
};
template <class F>
struct W
{
    static void run(Src& s, Case& c) { Extract<F, wchar_t>::run(s, c); }
};
template <class F>
struct AF
{
    static void run(Src& s, Case& c) { Extract<F, char>::fault(s, c); }
};
template <class F>
struct WF
{
    static void run(Src& s, Case& c) { Extract<F, wchar_t>::fault(s, c); }
};
#ifdef SWEEP
static int r0 = []
{
    sweep<A, BOTH, 1, 1, 64>(signed_storage{}, "sweep/char", 4000, 100000);
    sweep<A, NO_ROUNDING, 1, 1, 64>(unsigned_storage{}, "sweep/char", 4000, 100000);
    return 0;
}();
#else
static int r0 = []
{
    pbt::labels({"several numbers read", "failing extraction", "value out of range", "white space skipped", "number directly behind the previous one", "end of file behind the number", "wide characters", "other data read in between", "character outside of the narrow range", "white space not skipped", "base and width set", "failures throw", "source of single characters", "extraction from a failed stream", "source fails within the number or directly behind it", "source fails two characters behind the number"});
    pbt::rule("a text of one to five tokens (decimals inside and outside of the range, malformed text) and white space; numbers and single characters are read from it until a failure or its end; non-trivial: at least one extraction was decided; or a decimal from a source that throws at some character, non-trivial: it has a digit");
    each<A>(types<f32, f64>{}, "char", 1500000, 40000000);
    each<W>(types<f32, f64>{}, "wchar_t", 300000, 6000000);
    each<A>(types<fx<int16_t, 8>, fx<int32_t, 24>, fx<int64_t, 16>, fx<int64_t, 48>, fx<int64_t, 62>, fx<int32_t, 16, true>, fx<uint32_t, 16>>{}, "char", 150000, 4000000);
    each<AF>(types<f32, f64, fx<int16_t, 8>, fx<int64_t, 48>, fx<uint32_t, 16>>{}, "char/fault", 100000, 3000000);
    each<WF>(types<f32, f64>{}, "wchar_t/fault", 50000, 1000000);
    return 0;
}();

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
