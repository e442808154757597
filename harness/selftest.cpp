// The engine itself: a property that holds must pass, a wrong one must be found, shrunk and replayable.
#include "gen.hpp"
static void holds(pbt::Src& s, pbt::Case& c)
{
    auto v = s.draw(1000);
    c.in(v);
    c.nontrivial = true;
    PBT_CHECK(v < 1000, "range");
}
static void wrong(pbt::Src& s, pbt::Case& c)
{
    auto v = s.draw(100000);
    c.in(v);
    c.nontrivial = true;
    PBT_DESC(v);
    PBT_CHECK(v < 777, "v is ", v);
}
static void crash(pbt::Src& s, pbt::Case& c)
{
    auto v = s.draw(100000);
    c.in(v);
    PBT_DESC(v);
    if(v >= 777)
        std::abort();
}
static int r = (pbt::add("holds", 100000, 100000, holds), pbt::add("wrong", 100000, 100000, wrong), pbt::add("crash", 100000, 100000, crash), 0);
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
