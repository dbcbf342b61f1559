// Deterministic execution of the real library: every thread of the process runs under one baton,
// scheduling decisions come from a seeded generator, and time is virtual.  See DESIGN.md, "sim".
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim
{
struct Config
{
    uint64_t seed = 1;
    int strategy = 1;          // 0 cooperative, 1 random preemption, 2 priority based (PCT like)
    int mem_interval = 100;    // mean number of memory accesses between two preemptions (strategy 1)
    int sync_permille = 100;   // probability of a preemption at a synchronisation operation
    uint64_t tick_ns = 100000; // virtual time added by one clock read
    uint64_t step_ns = 1000;   // virtual time added by one scheduling decision
    uint64_t max_steps = 6000000;
    uint64_t max_vtime_ns = 600ull * 1000 * 1000 * 1000;
    int pct_depth = 4;
    int pct_len = 20000;
    int log_rest = 0;  // log when nothing can run before time has passed
    int wake_lifo = 0; // choose woken cond waiter: 0 random
};

void start(const Config &cfg, char *out, size_t cap);
bool started();

uint64_t now_ns();
uint64_t steps();
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // appends one JSON value
[[noreturn]] void finish(const char *status);

int tid();                 // small deterministic thread number
void point();              // user code: preemption point and delivery point of pending signals
void gate(int k, bool soft = false); // block until everything else is quiescent, lowest k first; soft: until
                                      // nothing can run at this moment
void atomic_begin();       // no preemption until atomic_end (harness bookkeeping)
void atomic_end();
uint64_t rnd();            // harness side randomness (own stream)
size_t live_bytes();       // bytes currently allocated by operator new
size_t live_maps();        // bytes currently mapped through mmap()
void preempt_signals(bool on); // deliver CO_SWITCH_SIGNAL at point()
int signals_sent();
}
