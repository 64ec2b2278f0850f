#pragma once
#include "api.h"
#include "toy.h"
#include <exception>
#include <new>
#include <stdexcept>
#include <cstdlib>
#include <utility>

struct SimFault // not derived from std::exception
{
    int code;
};
struct SimFaultStd : std::runtime_error
{
    SimFaultStd() : std::runtime_error("simulated device failure") {}
};
template <class F>
static inline int guarded(F&& f)
{
    try
    {
        f();
        return RC_OK;
    }
    catch (SimFault&)
    {
        return RC_FAULT;
    }
    catch (SimFaultStd&)
    {
        return RC_FAULT;
    }
    catch (std::exception&)
    {
        return RC_STD;
    }
    catch (...)
    {
        return RC_OTHER;
    }
}
// object living in heap memory pre-filled with plan-determined garbage, at an
// address its type's alignment allows (not always a 16-byte boundary), ending
// where the allocation ends, in memory that may have held an earlier object
template <class T>
struct Box
{
    void* raw = nullptr;
    void* at  = nullptr;
    T*    p   = nullptr;
    mutable uint8_t cnt = 0;
    void prep(uint32_t fill)
    {
        cnt = (uint8_t)(fill % 251);
        size_t n = sizeof(T), off = 0;
        if (alignof(T) > 16)
        {
            n   = (n + alignof(T) - 1) / alignof(T) * alignof(T);
            raw = aligned_alloc(alignof(T), n);
        }
        else
        {
            off = (fill * 0x9e3779b9u >> 28) / alignof(T) * alignof(T);
            raw = ::operator new(off + n);
        }
        at         = (uint8_t*)raw + off;
        uint64_t x = fill * 0x9e3779b97f4a7c15ull + 12345;
        for (size_t i = 0; i < n; i++)
        {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            ((uint8_t*)at)[i] = fill ? (uint8_t)(x >> 56) : 0;
        }
    }
    void drop()
    {
        if (alignof(T) > 16) free(raw);
        else ::operator delete(raw);
        raw = nullptr;
    }
    template <class... A>
    void make(uint32_t fill, A&&... a)
    {
        prep(fill);
        try
        {
            p = new (at) T(std::forward<A>(a)...);
        }
        catch (...)
        {
            drop();
            throw;
        }
    }
    void make_default(uint32_t fill)
    {
        prep(fill);
        p = new (at) T;
    }
    unsigned turn() const
    {
#ifdef __SANITIZE_THREAD__
        return 0; // the source may be shared between threads
#else
        return cnt++;
#endif
    }
    // every way the language offers to pass an object's value on; the source
    // stays as it is (moves go through a temporary copy)
    void copy(const Box& o)
    {
        unsigned how = o.turn();
        uint32_t f   = 0x5a5a5a5a + how * 0x01000193u;
        const T& s   = *o.p;
        if (how % 3 == 1) make(f, [&]() -> T { T t(s); return t; }());
        else if (how % 3 == 2)
        {
            T t(s);
            make(f, std::move(t));
        }
        else make(f, s);
        cnt = (uint8_t)(how * 5 + 2);
    }
    void assign(const Box& o)
    {
        unsigned how = o.turn();
        const T& s   = *o.p;
        if (how % 3 == 1)
        {
            T t(s);
            *p = std::move(t);
        }
        else if (how % 3 == 2)
        {
            T t(s);
            std::swap(*p, t);
        }
        else *p = s;
    }
    ~Box()
    {
        if (p) p->~T();
        drop();
    }
    Box() {}
    Box(const Box&) = delete;
    Box& operator=(const Box&) = delete;
};
