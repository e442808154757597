// C15: coverage-guided fuzzing (libFuzzer) of all parsing functions against the reference parser.
#include "parse_oracle.hpp"
#include <cstdio>
#include <cstdlib>
using namespace g;

static void must(const std::string& m, std::string_view t)
{
    if(m.empty())
        return;
    std::fprintf(stderr, "FUZZ-MISMATCH: %s for the text %s\n", m.c_str(), pbt::quote(t).c_str());
    std::abort();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if(size < 2)
        return 0;
    uint8_t kind = data[0], stop = data[1];
    std::string_view t(reinterpret_cast<const char*>(data) + 2, size - 2);
    i128 old = static_cast<int8_t>(stop);
    switch(kind % 8)
    {
    case 0:
        must(check_strict(t, old, static_cast<char>(stop)), t);
        break;
    case 1:
        must(check_lenient<f32>(t, old), t);
        break;
    case 2:
        must(check_lenient<f64>(t, old), t);
        break;
    case 3:
        must(check_lenient<fx<int16_t, 8>>(t, old), t);
        break;
    case 4:
        must(check_lenient<fx<int64_t, 62>>(t, old), t);
        break;
    case 5:
        must(check_stream<f32>(t, old), t);
        break;
    case 6:
        must(check_stream<f64>(t, old), t);
        break;
    default:
        must(check_lenient<fx<uint32_t, 16>>(t, stop), t);
    }
    return 0;
}
