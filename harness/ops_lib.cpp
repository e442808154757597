// One build of all operations, loaded by the check of C32.
#include "ops.hpp"
#include <memory>
extern "C" __attribute__((visibility("default"))) void ops_eval(int type, int op, const ops::Args* a, ops::Out* o)
{
    ops::eval(type, op, *a, *o);
}
