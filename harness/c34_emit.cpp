// C34: prints generated cases (arguments inside of the domains) for the generated programs.
//   c34_emit DICT SEED FIRST COUNT      random cases
//   c34_emit DICT choices FILE          the cases of the choice sequences in FILE, one per line
// Output per case: index|type|op|a|b|c|n|sub|x|text as hexadecimal|choices
#include <csignal>
#include <unistd.h>
#include "cx_ops.hpp"
#include "ops_gen.hpp"
using namespace g;

static bool usable_op(int op)
{
    bool r = false;
    [&]<int... I>(std::integer_sequence<int, I...>) { ((op == I ? (void)(r = cx::usable<I>) : (void)0), ...); }(std::make_integer_sequence<int, ops::N_OPS>());
    return r;
}

static OpCase k;
static Src s;
static uint64_t id;

static void print()
{
    std::printf("%llu|%d|%d|%lld|%lld|%lld|%lld|%d|%a|", (unsigned long long)id, k.type, k.op, (long long)k.a.a, (long long)k.a.b, (long long)k.a.c, (long long)k.a.n, k.a.sub, k.a.x);
    for(unsigned char ch : k.text)
        std::printf("%02x", ch);
    std::printf("|");
    for(uint64_t v : s.log())
        std::printf("%llu ", (unsigned long long)v);
    std::printf("\n");
}

// the tested function crashed or does not return
static void on_signal(int)
{
    print();
    std::fflush(stdout);
    _exit(3);
}

static bool one()
{
    Case c;
    c.reset(false);
    k = OpCase();
    std::string lit;
    if(s.draw(24) == 1)
    {
        // a numeric literal
        k.op = -1;
        k.type = static_cast<int>(s.draw(2));
        std::string ip = std::to_string(s.draw(4) == 0 ? s.draw(k.type ? 0x80000000ull : 0x8000) : s.draw(1000));
        k.text = ip;
        if(s.draw(4))
        {
            k.text += ".";
            size_t n = s.draw(k.type ? 40 : 9);
            for(size_t i = 0; i < n; ++i)
                k.text += static_cast<char>('0' + s.draw(10));
        }
        if(s.draw(3) == 0) // digit separators
            for(size_t i = k.text.size(); i-- > 1;)
                if(k.text[i] != '.' && k.text[i - 1] != '.' && s.draw(3) == 0)
                    k.text.insert(i, 1, '\'');
    }
    else
    {
        if(!gen_case(s, c, k, ops::N_OPS, 0))
            return false;
        if(!usable_op(k.op) || k.text.size() > 64)
            return false;
        ops::Out out;
        k.a.text = k.text.data();
        alarm(10);
        ops::eval(k.type, k.op, k.a, out);
        if(std::string_view(out.s, out.n).find("_") != std::string_view::npos || (k.op != ops::TOINT && out.n == 0))
            return false; // an exception cannot be a constant; no result for this type
    }
    print();
    return true;
}

int main(int argc, char** argv)
{
    pbt::load_dict(argv[1]);
    for(int sig : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGALRM})
        std::signal(sig, on_signal);
    if(std::string(argv[2]) == "choices")
    {
        std::ifstream in(argv[3]);
        std::string line;
        for(id = 0; std::getline(in, line); ++id)
        {
            std::istringstream is(line);
            std::vector<uint64_t> v;
            for(uint64_t x; is >> x;)
                v.push_back(x);
            s.start_replay(&v);
            one();
        }
        return 0;
    }
    uint64_t seed = std::strtoull(argv[2], nullptr, 10), first = std::strtoull(argv[3], nullptr, 10), n = std::strtoull(argv[4], nullptr, 10);
    for(id = first; id < first + n; ++id)
    {
        s.start_random(pbt::mix64(pbt::mix64(seed * 0x2545F4914F6CDD1Dull + 34) + id * 0xD1342543DE82EF95ull), id);
        one();
    }
}
