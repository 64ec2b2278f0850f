#pragma once
// Simulated threads: real OS threads that run one at a time under a seeded
// scheduler, and a happens-before race detector fed by the memory accesses of
// library code compiled with -fsanitize=thread (this replaces the runtime).
#include "../sim/core.h"
#include <functional>
namespace tsim {
enum { MAXT = 5 };
struct Config
{
    u64  seed = 1;
    u64  gap = 1000;    // mean number of shared accesses between preemptions
    int  hot = 4;       // preempt at 1/hot of the accesses to shared or static data (0: never)
    bool track = true;  // race detection and preemption on
    u64  maxev = 400000000ull;
};
struct Report
{
    bool        race = false, deadlock = false, runaway = false;
    char        msg[400];
    u64         events, switches, hot_events, sync_ops, order, static_writes, lost;
};
// run every function to completion; returns what the simulator saw
void run(const Config& c, std::vector<std::function<void()>> fs, Report& r);
void point(int op); // operation boundary, called by the harness in a thread
void add_lib(const char* path_part);
} // namespace tsim
