// shared by the modules
#include "util.h"
#include <sys/mman.h>
#include <unistd.h>

Nest g_nest;
void Nest::step()
{
    if (in || at < 0 || at-- != 0 || !fn) return;
    in = true;
    try
    {
        fn(ctx, seed);
        done++;
    }
    catch (Violation& v)
    {
        err = v.cls + ": " + v.msg;
    }
    catch (std::exception& e)
    {
        err = e.what();
    }
    in = false;
}

Huge::Huge(size_t n_, bool writable) : n(n_)
{
    const size_t seg = 4 << 20;
    p = (u8*)mmap(0, n, writable ? PROT_NONE : PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { p = nullptr; return; }
    if (!writable)
    {
        if (n >= 16 && mprotect(p, 16, PROT_READ | PROT_WRITE) == 0)
            for (int i = 0; i < 16; i++) p[i] = (u8)(i * 37 + 11);
        return;
    }
    int fd = memfd_create("sink", 0);
    bool ok = fd >= 0 && ftruncate(fd, seg) == 0;
    for (size_t k = 0; ok && k < n; k += seg)
        ok = mmap(p + k, std::min(seg, n - k), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
    if (fd >= 0) close(fd);
    if (!ok) munmap(p, n), p = nullptr;
}
Huge::~Huge()
{
    if (p) munmap(p, n);
}
