#include "shim_common.h"
#include <gmlib/memory_utils/memdump.h>
static void md(const void* p, size_t n, size_t ml, const char* f, int a, const char* s, const char* pr, const char* e)
{
    memory_utils::memdump(p, n, ml, f, a != 0, s, pr, e);
}
static void mdd(const void* p, size_t n) { memory_utils::memdump(p, n); }
static const DumpApi api = {md, mdd};
GM_EXPORT const DumpApi* gm_api_dump() { return &api; }
