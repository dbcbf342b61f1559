// Compiled without instrumentation.  Provides the run time of -fsanitize=thread (each instrumented access is a
// potential preemption point), the pthread functions, clocks, futexes and operator new.
#include "sim.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <initializer_list>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace
{
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm("r10") = d;
    register long r8 __asm("r8") = e;
    register long r9 __asm("r9") = f;
    __asm volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
    return ret;
}

struct Rng
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n)
    {
        return n ? next() % n : 0;
    }
};

enum State
{
    RUN,
    B_MUTEX,
    B_COND,
    B_FUTEX,
    B_SLEEP,
    B_JOIN,
    B_ONCE,
    B_GATE,
    DONE
};

constexpr uint64_t NEVER = ~0ull;

struct Th
{
    int id;
    State st;
    const void *obj;
    uint64_t deadline;
    bool timedout;
    bool bg; // wakes up again and again without any effect (the manager's monitor thread)
    int idle;   // number of such wake ups in a row
    bool lastto; // the last timed wait has timed out
    bool fruit; // had an effect on others since
    int gate;
    bool soft;
    bool sigpend;
    int prio;
    uint64_t ran; // decisions since it was last switched in
    int go;
    long ktid;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
};

constexpr int MAXT = 256;
Th ths[MAXT];
int nth = 1;
int on = 0;
int nopre = 0; // harness atomic sections
sim::Config cfg;
Rng rng, hrng;
long budget = LONG_MAX;
uint64_t vtime = 1000ull * 1000 * 1000 * 1000; // an arbitrary start
uint64_t nsteps = 0;
int bgrounds = 0;
uint64_t lastlog = 0;  // when something was logged
bool restless = false; // something was logged since everything was at rest
uint64_t lastreal = 0; // when something other than a background thread has run
int idle_jumps = 0;
bool deliver = false;
int sigsent = 0;
char *out = nullptr;
size_t outcap = 0, outlen = 0;
bool dead = false;
int pct_left = 0;
uint64_t pct_at[16];

__thread Th *me = nullptr;

Th *self()
{
    if (!me)
    {
        me = &ths[0];
    }
    return me;
}

void fut_wait(int *a, int v)
{
    while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v)
    {
        raw(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
    }
}

void fut_wake(int *a)
{
    raw(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void emit(const char *s, size_t n)
{
    if (out && outlen + n + 64 < outcap)
    {
        memcpy(out + outlen, s, n);
        outlen += n;
        out[outlen] = 0;
    }
}

[[noreturn]] void die(const char *status)
{
    dead = true;
    char buf[160];
    int n = snprintf(buf, sizeof buf, "{\"e\":\"%s\",\"t\":%llu}\n", status, (unsigned long long)(vtime / 1000 - 1000000000ull));
    emit(buf, n);
    raw(SYS_exit_group, 0);
    __builtin_unreachable();
}

void set_budget()
{
    if (!on || cfg.strategy == 0)
    {
        budget = 2000 + rng.below(2000);
        return;
    }
    if (cfg.strategy == 2)
    {
        budget = 200;
        return;
    }
    budget = 1 + rng.below(2 * (uint64_t)cfg.mem_interval);
}

void sig_to_self(int sig)
{
    raw(SYS_tgkill, raw(SYS_getpid), raw(SYS_gettid), sig);
}

void transfer(Th *n)
{
    Th *s = self();
    if (n == s)
    {
        return;
    }
    s->go = 0;
    n->ran = 0;
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    fut_wake(&n->go);
    if (s->st == DONE)
    {
        return; // the OS thread ends by itself
    }
    fut_wait(&s->go, 0);
}

bool expire(Th &t)
{
    return t.deadline != NEVER && t.deadline <= vtime;
}

// Chooses the next thread; the caller may itself be blocked or runnable.
// The thread at the gate which comes next, if it is a soft one
Th *soft_gate()
{
    Th *g = nullptr;
    for (int i = 0; i < nth; ++i)
    {
        if (ths[i].st == B_GATE && (!g || ths[i].gate < g->gate))
        {
            g = &ths[i];
        }
    }
    return g && g->soft ? g : nullptr;
}

Th *pick()
{
    for (;;)
    {
        if (vtime > 1000ull * 1000 * 1000 * 1000 + cfg.max_vtime_ns)
        {
            die("vlimit");
        }
        Th *r[MAXT];
        int n = 0;
        for (int i = 0; i < nth; ++i)
        {
            Th &t = ths[i];
            if (t.st == RUN)
            {
                r[n++] = &t;
            }
            else if (t.st != DONE && t.st != B_GATE && expire(t))
            {
                t.st = RUN;
                t.deadline = NEVER;
                t.timedout = true;
                r[n++] = &t;
            }
        }
        // those who poll do not hold up a soft gate for ever
        if (n && vtime > lastlog + 100000000)
        {
            if (Th *sg = soft_gate())
            {
                sg->st = RUN;
                r[n++] = sg;
                lastlog = vtime;
            }
        }
        if (n)
        {
            Th *c;
            if (cfg.strategy == 2)
            {
                c = r[0];
                for (int i = 1; i < n; ++i)
                {
                    if (r[i]->prio > c->prio)
                    {
                        c = r[i];
                    }
                }
            }
            else
            {
                c = r[rng.below(n)];
            }
            if (!c->bg)
            {
                bgrounds = 0;
                lastreal = vtime;
            }
            return c;
        }
        if (Th *sg = soft_gate())
        {
            sg->st = RUN;
            return sg;
        }
        uint64_t best = NEVER, bestreal = NEVER;
        for (int i = 0; i < nth; ++i)
        {
            Th &t = ths[i];
            if (t.st != DONE && t.st != RUN && t.deadline < best)
            {
                best = t.deadline;
            }
            if (t.st != DONE && t.st != RUN && !t.bg && t.deadline < bestreal)
            {
                bestreal = t.deadline;
            }
        }
        // nothing can run before time has passed
        if (cfg.log_rest && restless && best != NEVER)
        {
            char buf[96];
            int l = snprintf(buf, sizeof buf, "{\"e\":\"rest\",\"t\":%llu}\n", (unsigned long long)(vtime / 1000 - 1000000000ull));
            emit(buf, l);
            restless = false;
        }
        if (bestreal != NEVER)
        {
            vtime = best;
            continue;
        }
        if (best != NEVER && (bgrounds < 4 || (vtime < lastreal + 200000000 && bgrounds < 1000)))
        {
            ++bgrounds;
            vtime = best;
            continue;
        }
        // quiescent
        Th *g = nullptr;
        for (int i = 0; i < nth; ++i)
        {
            if (ths[i].st == B_GATE && (!g || ths[i].gate < g->gate))
            {
                g = &ths[i];
            }
        }
        if (g)
        {
            char buf[96];
            int l = snprintf(buf, sizeof buf, "{\"e\":\"quiet\",\"t\":%llu}\n", (unsigned long long)(vtime / 1000 - 1000000000ull));
            emit(buf, l);
            g->st = RUN;
            bgrounds = 0;
            return g;
        }
        die("stuck");
    }
}

void decide(bool must)
{
    ++nsteps;
    vtime += cfg.step_ns;
    if (nsteps > cfg.max_steps)
    {
        die("livelock");
    }
    Th *s = self();
    set_budget();
    if (cfg.strategy == 2)
    {
        for (int i = 0; i < pct_left; ++i)
        {
            if (nsteps == pct_at[i])
            {
                s->prio = -1 - i;
            }
        }
        if (++s->ran > 400 + (uint64_t)(s->id * 37))
        { // fairness: a spinning thread does not keep the baton for ever
            s->ran = 0;
            int lo = 0;
            for (int i = 0; i < nth; ++i)
            {
                if (ths[i].prio < lo)
                {
                    lo = ths[i].prio;
                }
            }
            s->prio = lo - 1;
        }
        transfer(pick());
        return;
    }
    if (cfg.strategy == 0 && !must)
    {
        if (++s->ran < 200)
        {
            return;
        }
        s->ran = 0;
    }
    transfer(pick());
}

void slow_point()
{
    if (!on || nopre || dead)
    {
        budget = 1000;
        return;
    }
    decide(false);
}

inline void sync_point()
{
    if (!on || nopre || dead)
    {
        return;
    }
    if (cfg.strategy == 2)
    {
        decide(false);
        return;
    }
    if ((int)rng.below(1000) < cfg.sync_permille)
    {
        decide(false);
    }
}

// blocks the calling thread until another one makes it runnable, or until the deadline
bool block(State st, const void *obj, uint64_t deadline)
{
    Th *s = self();
    if (deadline != NEVER)
    {
        s->idle = s->lastto && !s->fruit ? s->idle + 1 : 0;
        s->bg = s->idle >= 3;
    }
    s->st = st;
    s->obj = obj;
    s->deadline = deadline;
    s->timedout = false;
    ++nsteps;
    vtime += cfg.step_ns;
    set_budget();
    if (nsteps > cfg.max_steps)
    {
        die("livelock");
    }
    transfer(pick());
    s->obj = nullptr;
    s->deadline = NEVER;
    if (deadline != NEVER)
    {
        s->lastto = s->timedout;
        s->fruit = false;
    }
    return !s->timedout;
}

int wake(State st, const void *obj, int n)
{
    int woken = 0;
    while (woken < n)
    {
        Th *c[MAXT];
        int k = 0;
        for (int i = 0; i < nth; ++i)
        {
            if (ths[i].st == st && ths[i].obj == obj)
            {
                c[k++] = &ths[i];
            }
        }
        if (!k)
        {
            break;
        }
        Th *t = c[(on && k > 1) ? rng.below(k) : 0];
        t->st = RUN;
        t->obj = nullptr;
        t->deadline = NEVER;
        t->timedout = false;
        ++woken;
    }
    if (woken)
    {
        self()->fruit = true;
    }
    return woken;
}

///////////////////////////////////////////////////////////////// heap
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SZ = 16ull << 30;
constexpr uintptr_t SHADOW = 0x180000000000ull;
constexpr uintptr_t MAPS = 0x200000000000ull;
uintptr_t arena_top = 0, maps_top = MAPS;
size_t g_live = 0, g_maps = 0;

void arena_init()
{
    if (arena_top)
    {
        return;
    }
    void *a = (void *)raw(SYS_mmap, ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void *b = (void *)raw(SYS_mmap, SHADOW, ARENA_SZ / 16, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (a != (void *)ARENA || b != (void *)SHADOW)
    {
        raw(SYS_exit_group, 99);
    }
    arena_top = ARENA + 4096;
}

unsigned char *shadow(uintptr_t p)
{
    return (unsigned char *)(SHADOW + (p - ARENA) / 16);
}

void *arena_alloc(size_t n, size_t al)
{
    arena_init();
    if (al < 16)
    {
        al = 16;
    }
    uintptr_t p = (arena_top + 32 + al - 1) & ~(uintptr_t)(al - 1);
    size_t r = (n + 15) & ~(size_t)15;
    if (r == 0)
    {
        r = 16;
    }
    *(size_t *)(p - 16) = r;
    memset(shadow(p), 1, r / 16);
    arena_top = p + r;
    g_live += r;
    if (arena_top > ARENA + ARENA_SZ)
    {
        raw(SYS_exit_group, 98);
    }
    return (void *)p;
}

void bad_access(const char *what, uintptr_t a)
{
    if (!on || dead)
    {
        return;
    }
    (void)a;
    if (getenv("SIM_TRAP"))
    {
        fprintf(stderr, "%s at %lx tid %d\n", what, a, self()->id);
        void *bt[40];
        backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
        __builtin_trap();
    }
    die(what);
}

void arena_free(void *q)
{
    if (!q)
    {
        return;
    }
    uintptr_t p = (uintptr_t)q;
    if (p < ARENA || p >= ARENA + ARENA_SZ)
    {
        return;
    }
    if (*shadow(p) != 1)
    {
        bad_access("double_free", p);
        return;
    }
    size_t r = *(size_t *)(p - 16);
    memset(shadow(p), 2, r / 16);
    g_live -= r;
    memset(q, 0xdd, r);
}

inline void chk(const void *q)
{
    uintptr_t p = (uintptr_t)q;
    if (p - ARENA < ARENA_SZ)
    {
        unsigned char s = *shadow(p);
        if (__builtin_expect(s != 1, 0))
        {
            bad_access(s == 2 ? "use_after_free" : "heap_overflow", p);
        }
    }
}

inline void acc(const void *p)
{
    chk(p);
    if (__builtin_expect(--budget <= 0, 0))
    {
        slow_point();
    }
}

void crash(int sig, siginfo_t *si, void *uc)
{
    char b[32];
    snprintf(b, sizeof b, "crash%d", sig);
    if (getenv("SIM_TRAP"))
    {
        fprintf(stderr, "crash sig %d addr %p rip %llx tid %d\n", sig, si->si_addr,
                (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], me ? me->id : -1);
        signal(sig, SIG_DFL);
        return;
    }
    die(b);
}

void alt_stack()
{
    stack_t ss {};
    ss.ss_size = 64 * 1024;
    ss.ss_sp = (void *)raw(SYS_mmap, 0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    raw(SYS_sigaltstack, (long)&ss, 0);
}

template <class F>
F real(const char *name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

} // namespace

///////////////////////////////////////////////////////////////// public interface
namespace sim
{
void start(const Config &c, char *o, size_t cap)
{
    cfg = c;
    rng.s = c.seed * 0x2545F4914F6CDD1Dull + 12345;
    hrng.s = c.seed ^ 0xabcdef;
    out = o;
    outcap = cap;
    outlen = 0;
    me = &ths[0];
    ths[0].st = RUN;
    ths[0].deadline = NEVER;
    ths[0].ktid = raw(SYS_gettid);
    ths[0].pt = pthread_self();
    ths[0].prio = 1 + rng.below(1000);
    nth = 1;
    pct_left = c.pct_depth > 16 ? 16 : c.pct_depth;
    for (int i = 0; i < pct_left; ++i)
    {
        pct_at[i] = 1 + rng.below(c.pct_len);
    }
    alt_stack();
    auto rs = real<int (*)(int, const struct sigaction *, struct sigaction *)>("sigaction");
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE})
    {
        struct sigaction sa {};
        sa.sa_sigaction = crash;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        rs(s, &sa, nullptr);
    }
    on = 1;
    set_budget();
}

bool started()
{
    return on;
}

uint64_t now_ns()
{
    return vtime;
}

uint64_t steps()
{
    return nsteps;
}

void log(const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 3)
    {
        n = sizeof buf - 3;
    }
    buf[n++] = '\n';
    emit(buf, n);
    self()->fruit = true;
    lastlog = vtime;
    restless = true;
}

void finish(const char *status)
{
    die(status);
}

int tid()
{
    return self()->id;
}

void point()
{
    if (!on || dead)
    {
        return;
    }
    Th *s = self();
    if (deliver && s->sigpend)
    {
        s->sigpend = false;
        sig_to_self(10);
        // may return on the same thread much later
    }
    sync_point();
}

void gate(int k, bool soft)
{
    self()->gate = k;
    self()->soft = soft;
    block(B_GATE, nullptr, NEVER);
}

void atomic_begin()
{
    ++nopre;
}

void atomic_end()
{
    --nopre;
}

uint64_t rnd()
{
    return hrng.next();
}

size_t live_bytes()
{
    return g_live;
}

size_t live_maps()
{
    return g_maps;
}

void preempt_signals(bool b)
{
    deliver = b;
}

int signals_sent()
{
    return sigsent;
}
}

///////////////////////////////////////////////////////////////// operator new
void *operator new(size_t n)
{
    return arena_alloc(n, 16);
}
void *operator new[](size_t n)
{
    return arena_alloc(n, 16);
}
void *operator new(size_t n, std::align_val_t a)
{
    return arena_alloc(n, (size_t)a);
}
void *operator new[](size_t n, std::align_val_t a)
{
    return arena_alloc(n, (size_t)a);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    return arena_alloc(n, 16);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept
{
    return arena_alloc(n, 16);
}
void operator delete(void *p) noexcept
{
    arena_free(p);
}
void operator delete[](void *p) noexcept
{
    arena_free(p);
}
void operator delete(void *p, size_t) noexcept
{
    arena_free(p);
}
void operator delete[](void *p, size_t) noexcept
{
    arena_free(p);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    arena_free(p);
}
void operator delete[](void *p, std::align_val_t) noexcept
{
    arena_free(p);
}
void operator delete(void *p, size_t, std::align_val_t) noexcept
{
    arena_free(p);
}
void operator delete[](void *p, size_t, std::align_val_t) noexcept
{
    arena_free(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept
{
    arena_free(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept
{
    arena_free(p);
}

///////////////////////////////////////////////////////////////// libc and pthread
extern "C"
{
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    if (a == nullptr && fd == -1)
    {
        // deterministic addresses for coroutine stacks; a guard page between two maps
        uintptr_t at = maps_top;
        size_t r = (n + 4095) & ~(size_t)4095;
        maps_top += r + 4096;
        long p = raw(SYS_mmap, at, n, prot, flags | MAP_FIXED | MAP_NORESERVE, fd, off);
        if (p < 0)
        {
            errno = -p;
            return MAP_FAILED;
        }
        g_maps += r;
        return (void *)p;
    }
    long p = raw(SYS_mmap, (long)a, n, prot, flags, fd, off);
    if (p < 0 && p > -4096)
    {
        errno = -p;
        return MAP_FAILED;
    }
    return (void *)p;
}

int munmap(void *a, size_t n)
{
    if ((uintptr_t)a >= MAPS && (uintptr_t)a < maps_top)
    {
        g_maps -= (n + 4095) & ~(size_t)4095;
    }
    long r = raw(SYS_munmap, (long)a, n);
    if (r < 0)
    {
        errno = -r;
        return -1;
    }
    return 0;
}

int sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
    static int (*rs)(int, const struct sigaction *, struct sigaction *) = nullptr;
    if (!rs)
    {
        rs = real<int (*)(int, const struct sigaction *, struct sigaction *)>("sigaction");
    }
    if (!on || s == SIGUSR1 || s == SIGPIPE)
    {
        return rs(s, n, o);
    }
    return 0; // crashes are reported by the simulator
}

static void thread_exit(Th *t)
{
    t->st = DONE;
    wake(B_JOIN, t, MAXT);
    Th *n = pick();
    n->ran = 0;
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    fut_wake(&n->go);
}

static void *tramp(void *a)
{
    Th *t = (Th *)a;
    me = t;
    t->ktid = raw(SYS_gettid);
    alt_stack();
    fut_wait(&t->go, 0);
    void *r = t->fn(t->arg);
    thread_exit(t);
    return r;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    static int (*rc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
    if (!rc)
    {
        rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    }
    if (nth >= MAXT)
    {
        die("too_many_threads");
    }
    Th *t = &ths[nth];
    *t = Th {};
    t->id = nth;
    t->st = RUN;
    t->deadline = NEVER;
    t->fn = fn;
    t->arg = arg;
    t->prio = 1 + rng.below(1000);
    ++nth;
    int r = rc(&t->pt, attr, tramp, t);
    if (r)
    {
        t->st = DONE;
        return r;
    }
    // the kernel thread id must be known before anybody asks for it
    while (__atomic_load_n(&t->ktid, __ATOMIC_ACQUIRE) == 0)
    {
        raw(SYS_sched_yield);
    }
    *pt = t->pt;
    self()->fruit = true;
    sync_point();
    return 0;
}

int pthread_join(pthread_t pt, void **ret)
{
    static int (*rj)(pthread_t, void **) = nullptr;
    if (!rj)
    {
        rj = real<int (*)(pthread_t, void **)>("pthread_join");
    }
    for (int i = 0; i < nth; ++i)
    {
        if (pthread_equal(ths[i].pt, pt) && ths[i].fn)
        {
            while (ths[i].st != DONE)
            {
                block(B_JOIN, &ths[i], NEVER);
            }
            ths[i].fn = nullptr;
            break;
        }
    }
    return rj(pt, ret);
}

static bool m_try(pthread_mutex_t *m)
{
    chk(m);
    long k = self()->id + 1;
    if (m->__data.__owner == 0)
    {
        m->__data.__owner = k;
        m->__data.__count = 1;
        return true;
    }
    if (m->__data.__owner == k && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
        ++m->__data.__count;
        return true;
    }
    return false;
}

static void m_unlock(pthread_mutex_t *m)
{
    chk(m);
    if (m->__data.__count > 0 && --m->__data.__count == 0)
    {
        m->__data.__owner = 0;
        wake(B_MUTEX, m, MAXT);
    }
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    sync_point();
    while (!m_try(m))
    {
        block(B_MUTEX, m, NEVER);
    }
    return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
    sync_point();
    return m_try(m) ? 0 : EBUSY;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    m_unlock(m);
    sync_point();
    return 0;
}

static uint64_t ns_of(const struct timespec *ts)
{
    if (ts->tv_sec < 0)
    {
        return 0;
    }
    return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
{
    sync_point();
    chk(c);
    unsigned cnt = m->__data.__count;
    m->__data.__count = 1;
    m_unlock(m);
    bool ok = block(B_COND, c, deadline);
    while (!m_try(m))
    {
        block(B_MUTEX, m, NEVER);
    }
    m->__data.__count = cnt;
    return ok ? 0 : ETIMEDOUT;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    return cond_wait(c, m, NEVER);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    return cond_wait(c, m, ns_of(ts));
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
    return cond_wait(c, m, ns_of(ts));
}

int pthread_cond_signal(pthread_cond_t *c)
{
    chk(c);
    wake(B_COND, c, 1);
    sync_point();
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
    chk(c);
    wake(B_COND, c, MAXT);
    sync_point();
    return 0;
}

static int m_timed(pthread_mutex_t *m, uint64_t deadline)
{
    sync_point();
    while (!m_try(m))
    {
        if (!block(B_MUTEX, m, deadline))
        {
            return ETIMEDOUT;
        }
    }
    return 0;
}

int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    return m_timed(m, ns_of(ts));
}

int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
    return m_timed(m, ns_of(ts));
}

static bool rw_try(pthread_rwlock_t *m, bool write)
{
    chk(m);
    if (m->__data.__cur_writer || (write && m->__data.__readers))
    {
        return false;
    }
    if (write)
    {
        m->__data.__cur_writer = self()->id + 1;
    }
    else
    {
        ++m->__data.__readers;
    }
    return true;
}

static int rw_lock(pthread_rwlock_t *m, bool write, uint64_t deadline)
{
    sync_point();
    while (!rw_try(m, write))
    {
        if (!block(B_MUTEX, m, deadline))
        {
            return ETIMEDOUT;
        }
    }
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    return rw_lock(m, false, NEVER);
}

int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    return rw_lock(m, true, NEVER);
}

int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    sync_point();
    return rw_try(m, false) ? 0 : EBUSY;
}

int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    sync_point();
    return rw_try(m, true) ? 0 : EBUSY;
}

int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *ts)
{
    return rw_lock(m, false, ns_of(ts));
}

int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *ts)
{
    return rw_lock(m, true, ns_of(ts));
}

int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t, const struct timespec *ts)
{
    return rw_lock(m, false, ns_of(ts));
}

int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t, const struct timespec *ts)
{
    return rw_lock(m, true, ns_of(ts));
}

int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    chk(m);
    if (m->__data.__cur_writer)
    {
        m->__data.__cur_writer = 0;
    }
    else if (m->__data.__readers)
    {
        --m->__data.__readers;
    }
    wake(B_MUTEX, m, MAXT);
    sync_point();
    return 0;
}

int pthread_spin_init(pthread_spinlock_t *m, int)
{
    *m = 0;
    return 0;
}

int pthread_spin_lock(pthread_spinlock_t *m)
{
    sync_point();
    chk((const void *)m);
    while (*m)
    {
        block(B_MUTEX, (const void *)m, NEVER);
    }
    *m = 1;
    return 0;
}

int pthread_spin_trylock(pthread_spinlock_t *m)
{
    sync_point();
    chk((const void *)m);
    if (*m)
    {
        return EBUSY;
    }
    *m = 1;
    return 0;
}

int pthread_spin_unlock(pthread_spinlock_t *m)
{
    *m = 0;
    wake(B_MUTEX, (const void *)m, MAXT);
    sync_point();
    return 0;
}

static int sem_down(sem_t *s, uint64_t deadline)
{
    sync_point();
    chk(s);
    while (*(int *)s <= 0)
    {
        if (!block(B_FUTEX, s, deadline))
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    --*(int *)s;
    return 0;
}

int sem_init(sem_t *s, int, unsigned v)
{
    *(int *)s = (int)v;
    return 0;
}

int sem_wait(sem_t *s)
{
    return sem_down(s, NEVER);
}

int sem_timedwait(sem_t *s, const struct timespec *ts)
{
    return sem_down(s, ns_of(ts));
}

int sem_clockwait(sem_t *s, clockid_t, const struct timespec *ts)
{
    return sem_down(s, ns_of(ts));
}

int sem_trywait(sem_t *s)
{
    sync_point();
    if (*(int *)s <= 0)
    {
        errno = EAGAIN;
        return -1;
    }
    --*(int *)s;
    return 0;
}

int sem_post(sem_t *s)
{
    chk(s);
    ++*(int *)s;
    wake(B_FUTEX, s, 1);
    sync_point();
    return 0;
}

int pthread_cond_destroy(pthread_cond_t *)
{
    return 0;
}

int pthread_once(pthread_once_t *o, void (*f)(void))
{
    sync_point();
    // 0 fresh, 1 running, 2 done
    while (*o == 1)
    {
        block(B_ONCE, o, NEVER);
    }
    if (*o == 2)
    {
        return 0;
    }
    *o = 1;
    struct G
    {
        pthread_once_t *o;
        bool ok = false;
        ~G()
        {
            *o = ok ? 2 : 0;
            wake(B_ONCE, o, MAXT);
        }
    } g {o};
    f();
    g.ok = true;
    return 0;
}

int sched_yield(void)
{
    if (on && !nopre)
    {
        decide(true);
    }
    return 0;
}

int clock_gettime(clockid_t, struct timespec *ts)
{
    if (on && !nopre)
    {
        vtime += cfg.tick_ns;
        sync_point();
    }
    ts->tv_sec = vtime / 1000000000ull;
    ts->tv_nsec = vtime % 1000000000ull;
    return 0;
}

int nanosleep(const struct timespec *req, struct timespec *)
{
    block(B_SLEEP, nullptr, vtime + ns_of(req));
    return 0;
}

int clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *)
{
    block(B_SLEEP, nullptr, (flags & TIMER_ABSTIME) ? ns_of(req) : vtime + ns_of(req));
    return 0;
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on)
    {
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sync_point();
            if (*(int *)a != (int)c)
            {
                errno = EAGAIN;
                return -1;
            }
            uint64_t dl = NEVER;
            if (d)
            {
                dl = ns_of((const struct timespec *)d) + (op == FUTEX_WAIT ? vtime : 0);
            }
            if (!block(B_FUTEX, (void *)a, dl))
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int k = wake(B_FUTEX, (void *)a, (int)c);
            sync_point();
            return k;
        }
    }
    if (n == SYS_tgkill && on)
    {
        ++sigsent;
        for (int i = 0; i < nth; ++i)
        {
            if (ths[i].ktid == b && ths[i].st != DONE)
            {
                ths[i].sigpend = true;
                return 0;
            }
        }
        errno = ESRCH;
        return -1;
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096)
    {
        errno = -r;
        return -1;
    }
    return r;
}

///////////////////////////////////////////////////////////////// -fsanitize=thread run time
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(sz)                           \
    void __tsan_read##sz(void *p)        \
    {                                    \
        acc(p);                          \
    }                                    \
    void __tsan_write##sz(void *p)       \
    {                                    \
        acc(p);                          \
    }                                    \
    void __tsan_volatile_read##sz(void *p)  \
    {                                    \
        acc(p);                          \
    }                                    \
    void __tsan_volatile_write##sz(void *p) \
    {                                    \
        acc(p);                          \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
#define URW(sz)                                    \
    void __tsan_unaligned_read##sz(void *p)        \
    {                                              \
        acc(p);                                    \
    }                                              \
    void __tsan_unaligned_write##sz(void *p)       \
    {                                              \
        acc(p);                                    \
    }                                              \
    void __tsan_unaligned_volatile_read##sz(void *p)  \
    {                                              \
        acc(p);                                    \
    }                                              \
    void __tsan_unaligned_volatile_write##sz(void *p) \
    {                                              \
        acc(p);                                    \
    }
URW(2)
URW(4)
URW(8)
URW(16)
void __tsan_read_range(void *p, unsigned long n)
{
    acc(p);
    if (n)
    {
        chk((char *)p + n - 1);
    }
}
void __tsan_write_range(void *p, unsigned long n)
{
    acc(p);
    if (n)
    {
        chk((char *)p + n - 1);
    }
}
void __tsan_vptr_update(void **p, void *)
{
    acc(p);
}
void __tsan_vptr_read(void **p)
{
    acc(p);
}
static inline void at(volatile void *p)
{
    chk((const void *)p);
    sync_point();
}
#define ATOMIC(bits, T)                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T *a, int)                                                       \
    {                                                                                                            \
        at((volatile void *)a);                                                                                  \
        return *a;                                                                                               \
    }                                                                                                            \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int)                                                    \
    {                                                                                                            \
        at(a);                                                                                                   \
        *a = v;                                                                                                  \
    }                                                                                                            \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                                                    \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = v;                                                                                                  \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int)                                                   \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = o + v;                                                                                              \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int)                                                   \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = o - v;                                                                                              \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int)                                                   \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = o & v;                                                                                              \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int)                                                    \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = o | v;                                                                                              \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int)                                                   \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = o ^ v;                                                                                              \
        return o;                                                                                                \
    }                                                                                                            \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int)                                                  \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        *a = ~(o & v);                                                                                           \
        return o;                                                                                                \
    }                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                        \
    {                                                                                                            \
        at(a);                                                                                                   \
        if (*a == *c)                                                                                            \
        {                                                                                                        \
            *a = v;                                                                                              \
            return 1;                                                                                            \
        }                                                                                                        \
        *c = *a;                                                                                                 \
        return 0;                                                                                                \
    }                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f)                      \
    {                                                                                                            \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f);                                     \
    }                                                                                                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int)                              \
    {                                                                                                            \
        at(a);                                                                                                   \
        T o = *a;                                                                                                \
        if (o == c)                                                                                              \
        {                                                                                                        \
            *a = v;                                                                                              \
        }                                                                                                        \
        return o;                                                                                                \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
