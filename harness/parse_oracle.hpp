// Decides what every parsing function does with arbitrary characters (used by the generated cases and the fuzz target of C15).
#pragma once
#include "text.hpp"
#include <eirin/eirin.hpp>
#include <memory>
#include <sstream>

namespace g
{
// the text in a heap block of exactly its size, so that AddressSanitizer notices any access beside it
struct Exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    // an empty block would be one accessible byte, so an empty text lies at the end of a longer one
    explicit Exact(std::string_view t)
        : p(new char[t.empty() ? 16 : t.size()]), n(t.size()) { std::copy(t.begin(), t.end(), p.get()); }
    const char* data() const { return n ? p.get() : p.get() + 16; }
};

struct Verdict
{
    bool valid;    // the whole text is -?digits[.digits]
    bool digits;   // its longest numeric prefix contains a digit
    bool in_range; // the value of the prefix is representable
    bool empty_ok;
    Prefix p;
    i128 want;
};

template <class F>
Verdict judge(std::string_view t)
{
    Verdict v{};
    v.p = longest_prefix(t);
    v.valid = v.p.len == t.size();
    v.digits = v.p.digits;
    v.in_range = in_range<F>(v.p, v.want);
    return v;
}

// returns an empty string when everything is as stated.
template <class F>
std::string check_lenient(std::string_view t, i128 old)
{
    Verdict v = judge<F>(t);
    Exact e(t);
    F x = mk<F>(old);
    bool ok = eirin::fixed_from_cstring(e.data(), e.n, x);
    if(ok != v.in_range)
        return pbt::cat("fixed_from_cstring reports ", ok ? "success" : "failure", ", raw ", raw(x));
    if(raw(x) != (ok ? v.want : old))
        return pbt::cat("fixed_from_cstring gives raw ", raw(x), ", expected ", ok ? v.want : old);
    return "";
}

inline std::string check_strict(std::string_view t, i128 old, char stop)
{
    auto v = judge<f32>(t);
    bool want_ok = v.valid && v.in_range;
    {
        Exact e(t);
        f32 x = mk<f32>(old);
        bool ok = eirin::f32_from_cstring(e.data(), e.n, x);
        if(ok != want_ok)
            return pbt::cat("f32_from_cstring reports ", ok ? "success" : "failure", ", raw ", raw(x));
        if(raw(x) != (ok ? v.want : old))
            return pbt::cat("f32_from_cstring gives raw ", raw(x), ", expected ", ok ? v.want : old);
    }
    {
        Exact e(t);
        f32 x = mk<f32>(old);
        const char* r = eirin::io::parse(std::string_view(e.data(), e.n), x);
        if(r != e.data() + (want_ok ? e.n : 0))
            return pbt::cat("io::parse(string_view) returns position ", r - e.data());
        if(raw(x) != (want_ok ? v.want : old))
            return pbt::cat("io::parse(string_view) gives raw ", raw(x), ", expected ", want_ok ? v.want : old);
    }
    {
        // the form with an end pointer ends at the first character equal to the one at the end
        std::string_view u = t.substr(0, t.find(stop));
        auto w = judge<f32>(u);
        bool wok = w.valid && w.in_range;
        std::string b(t);
        b += stop;
        Exact e(b);
        f32 x = mk<f32>(old);
        const char* r = eirin::io::parse(e.data(), e.data() + t.size(), x);
        if(r != e.data() + (wok ? u.size() : 0))
            return pbt::cat("io::parse(start, stop) returns position ", r - e.data(), " with stop character ", static_cast<int>(stop));
        if(raw(x) != (wok ? w.want : old))
            return pbt::cat("io::parse(start, stop) gives raw ", raw(x), ", expected ", wok ? w.want : old);
    }
    return "";
}

template <class F>
std::string check_stream(std::string_view t, i128 old)
{
    size_t b = 0;
    while(b < t.size() && (t[b] == ' ' || (t[b] >= '\t' && t[b] <= '\r')))
        ++b;
    Verdict v = judge<F>(t.substr(b));
    bool want_ok = v.digits && v.in_range;
    std::istringstream is{std::string(t)};
    F x = mk<F>(old);
    is >> x;
    if(is.fail() == want_ok)
        return pbt::cat("stream extraction reports ", is.fail() ? "failure" : "success", ", raw ", raw(x));
    if(raw(x) != (want_ok ? v.want : old))
        return pbt::cat("stream extraction gives raw ", raw(x), ", expected ", want_ok ? v.want : old);
    return "";
}
} // namespace g
