#pragma once
#include "shim_common.h"
#include <gmlib/rng/rng.h>
struct CbRng : rng::Rng
{
    GenFn f;
    void* c;
    CbRng(GenFn f_, void* c_) : f(f_), c(c_) {}
    const char* name() const noexcept override { return "SimRng"; }
    void gen(void* out, std::size_t len) override
    {
        int r = f(c, out, len);
        if (r == 1) throw SimFault{1};
        if (r) throw SimFaultStd();
    }
};
