// Interpreter for generated programs: every public operation is logged as a call and a ret event.
// Reads runs from stdin, executes each of them in a forked child under the simulator, writes the traces to stdout.
#include "cocpp/cocpp.h"
#include "cocpp/event/co_event.h"
#include "drv_common.h"
#include "sim.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

using namespace cocpp;
using namespace std;
using namespace std::chrono;

namespace
{
struct op_t
{
    string name;
    vector<long> a;
};

struct co_spec
{
    int env = -1; // -1 pool, >=0 dedicated env, -2 the main thread, -3 a plain thread
    int prio = 99;
    int shared = 0;
    int stack = 0;
    int start = 1;
    vector<op_t> ops;
};

struct obj_t
{
    string kind;
    vector<long> a;
    co_mutex *m {};
    co_spinlock *sp {};
    co_recursive_mutex *rm {};
    co_timed_mutex *tm {};
    co_recursive_timed_mutex *rtm {};
    co_shared_mutex *sm {};
    co_shared_timed_mutex *stm {};
    co_condition_variable *cv {};
    co_counting_semaphore<1> *s1 {};
    co_counting_semaphore<2> *s2 {};
    co_counting_semaphore<3> *s3 {};
    co_binary_semaphore *sb {};
    co_latch *la {};
    co_barrier *ba {};
    co_wait_group *wg {};
    co_once_flag *once {};
    int once_runs = 0;
    co_chan<long> *ch {};
    co_event<int> *ev {};
    shared_ptr<co_timer> tmr;
    long fired = 0;
    long var = 0;
};

struct user_error
{
    long v;
};

vector<obj_t> O;
vector<co_spec> C;
vector<co_env *> E;
vector<co *> H;
vector<co_id> SELF; // what each coroutine takes itself for
co_event_handle TELL[256]; // handles of subscriptions, by tag
std::mutex DOOR;
std::condition_variable DOORS;
vector<map<int, co_arrival_token>> TOK;
vector<map<int, int>> HELD, READ; // how often each coroutine holds which lock
int n_env = 0;
int use_preempt = 0;
int base_threads = 0, max_threads = 0;
int all_exclusive = 0, own_threads = 0;

// destroyed with the last copy of a coroutine's entry
struct tracker
{
    int c;
    unsigned magic = 0x5eed5eed;
    explicit tracker(int c)
        : c(c)
    {
    }
    ~tracker()
    {
        ev("{\"e\":\"dead\",\"c\":%d,\"t\":%ld,\"r\":%d}", c, vt(), magic == 0x5eed5eed ? 1 : 0);
        magic = 0;
    }
};

// The function of timer i, version v
struct fired
{
    size_t i;
    long v;
    void operator()() const
    {
        ev("{\"e\":\"fire\",\"c\":%zu,\"r\":%ld,\"t\":%ld}", i, v, vt());
    }
};

void call_ev(int c, const op_t &o)
{
    char b[256];
    int n = 0;
    for (size_t i = 0; i < 4; ++i)
    {
        n += snprintf(b + n, sizeof b - n, "%s%ld", i ? "," : "", i < o.a.size() ? o.a[i] : 0);
    }
    ev("{\"e\":\"call\",\"c\":%d,\"op\":\"%s\",\"a\":[%s],\"t\":%ld,\"th\":%d}", c, o.name.c_str(), b, vt(), sim::tid());
}

void ret_ev(int c, long r)
{
    ev("{\"e\":\"ret\",\"c\":%d,\"r\":%ld,\"t\":%ld,\"th\":%d}", c, r, vt(), sim::tid());
}

long vt_of(steady_clock::time_point tp)
{
    return (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() / 1000 - 1000000000L);
}

template <class F>
decltype(auto) with_mutex(obj_t &o, F f)
{
    if (o.m)
        return f(*o.m);
    if (o.sp)
        return f(*o.sp);
    if (o.rm)
        return f(*o.rm);
    if (o.tm)
        return f(*o.tm);
    if (o.rtm)
        return f(*o.rtm);
    if (o.stm)
        return f(*o.stm);
    return f(*o.sm);
}

template <class F>
decltype(auto) with_timed(obj_t &o, F f)
{
    if (o.tm)
        return f(*o.tm);
    if (o.rtm)
        return f(*o.rtm);
    return f(*o.stm);
}

template <class F>
decltype(auto) with_sem(obj_t &o, F f)
{
    if (o.s1)
        return f(*o.s1);
    if (o.s2)
        return f(*o.s2);
    if (o.s3)
        return f(*o.s3);
    return f(*o.sb);
}

extern "C" void drv_yield_thunk()
{
    this_co::yield();
}

// Fills the callee saved registers with patterns, yields, and compares.  Returns 0 when all of them survived.
extern "C" long drv_reg_yield(long seed);
__asm(R"(
.globl drv_reg_yield
.type drv_reg_yield,@function
drv_reg_yield:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    pushq %rdi
    leaq 1(%rdi), %rbx
    leaq 2(%rdi), %rbp
    leaq 3(%rdi), %r12
    leaq 4(%rdi), %r13
    leaq 5(%rdi), %r14
    leaq 6(%rdi), %r15
    call drv_yield_thunk
    movq (%rsp), %rdi
    xorl %eax, %eax
    leaq 1(%rdi), %rcx
    cmpq %rcx, %rbx
    jne 1f
    leaq 2(%rdi), %rcx
    cmpq %rcx, %rbp
    jne 1f
    leaq 3(%rdi), %rcx
    cmpq %rcx, %r12
    jne 1f
    leaq 4(%rdi), %rcx
    cmpq %rcx, %r13
    jne 1f
    leaq 5(%rdi), %rcx
    cmpq %rcx, %r14
    jne 1f
    leaq 6(%rdi), %rcx
    cmpq %rcx, %r15
    jne 1f
    jmp 2f
1:  movl $1, %eax
2:  popq %rdi
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
)");

__attribute__((noinline)) long deep_yield(int c, int depth, int n)
{
    volatile long pat[32];
    for (int i = 0; i < 32; ++i)
    {
        pat[i] = c * 1000003L + depth * 101 + i;
    }
    long bad = 0;
    if (depth > 0)
    {
        bad = deep_yield(c, depth - 1, n);
    }
    else
    {
        for (int i = 0; i < n; ++i)
        {
            this_co::yield();
        }
    }
    for (int i = 0; i < 32; ++i)
    {
        bad |= pat[i] != c * 1000003L + depth * 101 + i;
    }
    return bad;
}

void spawn(int c);

struct retval
{
    bool has = false;
    long v = 0;
};

long exec(int c, const op_t &o, retval &rv)
{
    auto A = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
    const string &n = o.name;
    // locks
    if (n == "lock")
    {
        with_mutex(O[A(0)], [](auto &m) { m.lock(); });
        return 1;
    }
    if (n == "trylock")
    {
        return with_mutex(O[A(0)], [](auto &m) { return m.try_lock() ? 1L : 0L; });
    }
    if (n == "unlock")
    {
        with_mutex(O[A(0)], [](auto &m) { m.unlock(); });
        return 1;
    }
    if (n == "lockfor")
    {
        return with_timed(O[A(0)], [&](auto &m) { return m.try_lock_for(microseconds(A(1))) ? 1L : 0L; });
    }
    if (n == "lockuntil")
    {
        auto tp = steady_clock::time_point(nanoseconds((A(1) + 1000000000L) * 1000));
        return with_timed(O[A(0)], [&](auto &m) { return m.try_lock_until(tp) ? 1L : 0L; });
    }
    auto &ob = O.empty() ? *(obj_t *)nullptr : O[(size_t)A(0) < O.size() ? A(0) : 0];
    if (n == "rlock")
    {
        if (ob.sm)
            ob.sm->lock_shared();
        else
            ob.stm->lock_shared();
        return 1;
    }
    if (n == "runlock")
    {
        if (ob.sm)
            ob.sm->unlock_shared();
        else
            ob.stm->unlock_shared();
        return 1;
    }
    if (n == "tryrlock")
    {
        return ob.sm ? ob.sm->try_lock_shared() : ob.stm->try_lock_shared();
    }
    if (n == "rlockfor")
    {
        return ob.stm->try_lock_shared_for(microseconds(A(1)));
    }
    if (n == "rlockuntil")
    {
        return ob.stm->try_lock_shared_until(steady_clock::time_point(nanoseconds((A(1) + 1000000000L) * 1000)));
    }
    // condition variables: cv, mutex [, us] [, var]
    if (n == "wait")
    {
        with_mutex(O[A(1)], [&](auto &m) { ob.cv->wait(m); });
        return 1;
    }
    if (n == "waitp")
    {
        with_mutex(O[A(1)], [&](auto &m) { ob.cv->wait(m, [&] { return O[A(2)].var > 0; }); });
        return 1;
    }
    if (n == "waitfor")
    {
        return with_mutex(O[A(1)], [&](auto &m) { return ob.cv->wait_for(m, microseconds(A(2))) ? 1L : 0L; });
    }
    if (n == "waituntil")
    {
        return with_mutex(O[A(1)], [&](auto &m) {
            return ob.cv->wait_until(m, steady_clock::time_point(nanoseconds((A(2) + 1000000000L) * 1000))) ? 1L : 0L;
        });
    }
    if (n == "waitforp")
    {
        return with_mutex(O[A(1)], [&](auto &m) {
            return ob.cv->wait_for(m, microseconds(A(2)), [&] { return O[A(3)].var > 0; }) ? 1L : 0L;
        });
    }
    if (n == "waituntilp")
    {
        return with_mutex(O[A(1)], [&](auto &m) {
            return ob.cv->wait_until(m, steady_clock::time_point(nanoseconds((A(2) + 1000000000L) * 1000)), [&] { return O[A(3)].var > 0; }) ? 1L : 0L;
        });
    }
    if (n == "notify")
    {
        ob.cv->notify_one();
        return 1;
    }
    if (n == "notifyall")
    {
        ob.cv->notify_all();
        return 1;
    }
    if (n == "notifyexit")
    {
        notify_all_at_co_exit(*ob.cv);
        return 1;
    }
    if (n == "set")
    {
        ob.var = A(1);
        return 1;
    }
    if (n == "add")
    {
        ob.var += A(1);
        return ob.var;
    }
    // semaphores
    if (n == "acq")
    {
        with_sem(ob, [](auto &s) { s.acquire(); });
        return 1;
    }
    if (n == "rel")
    {
        with_sem(ob, [&](auto &s) { s.release(A(1)); });
        return 1;
    }
    if (n == "tryacq")
    {
        return with_sem(ob, [](auto &s) { return s.try_acquire() ? 1L : 0L; });
    }
    if (n == "acqfor")
    {
        return with_sem(ob, [&](auto &s) { return s.try_acquire_for(microseconds(A(1))) ? 1L : 0L; });
    }
    if (n == "acquntil")
    {
        return with_sem(ob, [&](auto &s) {
            return s.try_acquire_until(steady_clock::time_point(nanoseconds((A(1) + 1000000000L) * 1000))) ? 1L : 0L;
        });
    }
    // latch, wait group, barrier
    if (n == "cd")
    {
        ob.la->count_down(A(1));
        return 1;
    }
    if (n == "lwait")
    {
        ob.la->wait();
        return 1;
    }
    if (n == "ltry")
    {
        return ob.la->try_wait();
    }
    if (n == "law")
    {
        ob.la->arrive_and_wait(A(1));
        return 1;
    }
    if (n == "drop")
    {
        delete ob.m;
        delete ob.sp;
        delete ob.rm;
        delete ob.tm;
        delete ob.rtm;
        delete ob.sm;
        delete ob.stm;
        delete ob.cv;
        delete ob.s1;
        delete ob.s2;
        delete ob.s3;
        delete ob.sb;
        delete ob.la;
        delete ob.ba;
        delete ob.wg;
        return 1;
    }
    if (n == "done")
    {
        ob.wg->done();
        return 1;
    }
    if (n == "wgwait")
    {
        ob.wg->wait();
        return 1;
    }
    if (n == "arrive")
    {
        TOK[c].insert_or_assign((int)A(0), ob.ba->arrive(A(1)));
        return 1;
    }
    if (n == "bwait")
    {
        ob.ba->wait(std::move(TOK[c].at((int)A(0))));
        return 1;
    }
    if (n == "barw")
    {
        ob.ba->arrive_and_wait();
        return 1;
    }
    if (n == "bdrop")
    {
        ob.ba->arrive_and_drop();
        return 1;
    }
    // call_once: obj, mode (0 returns, 1 throws), yields in the body
    if (n == "once")
    {
        co_call_once(
            *ob.once, [&](long tag) {
                ev("{\"e\":\"body\",\"c\":%d,\"o\":%ld,\"r\":0,\"t\":%ld}", c, A(0), vt());
                for (long i = 0; i < A(2); ++i)
                {
                    this_co::yield();
                }
                ev("{\"e\":\"bodyend\",\"c\":%d,\"o\":%ld,\"r\":%ld,\"t\":%ld}", c, A(0), tag, vt());
                if (A(1))
                {
                    throw user_error {tag};
                }
            },
            A(1));
        return 1;
    }
    // channels
    if (n == "push")
    {
        return ob.ch->push(A(1));
    }
    if (n == "pushop")
    {
        return *ob.ch < A(1);
    }
    if (n == "pushsh")
    {
        *ob.ch << A(1);
        return 1;
    }
    if (n == "pop")
    {
        auto r = ob.ch->pop();
        return r ? *r : 0;
    }
    if (n == "popop")
    {
        long v = 0;
        auto same = *ob.ch; // a copy is the same channel
        return (same > v) ? v : 0;
    }
    if (n == "popsh") // throws at the end
    {
        long v = -1;
        try
        {
            *ob.ch >> v;
        }
        catch (const std::bad_optional_access &)
        {
            return 0;
        }
        return v;
    }
    if (n == "chmax")
    {
        return ob.ch->max_size();
    }
    if (n == "close")
    {
        ob.ch->close();
        return 1;
    }
    if (n == "closed")
    {
        return ob.ch->closed();
    }
    if (n == "empty")
    {
        return ob.ch->empty();
    }
    if (n == "range") // pops everything by range-for, each element logged as an own operation
    {
        for (auto v : *ob.ch)
        {
            ev("{\"e\":\"item\",\"c\":%d,\"r\":%ld,\"t\":%ld}", c, v, vt());
        }
        return 1;
    }
    // time
    if (n == "yield")
    {
        this_co::yield();
        return 1;
    }
    if (n == "sleep")
    {
        this_co::sleep_for(microseconds(A(0)));
        return 1;
    }
    if (n == "sleepu")
    {
        this_co::sleep_until(steady_clock::time_point(nanoseconds((A(0) + 1000000000L) * 1000)));
        return 1;
    }
    if (n == "burn")
    {
        auto dl = sim::now_ns() + A(0) * 1000;
        while (sim::now_ns() < dl)
        {
            sim::point();
            (void)steady_clock::now();
        }
        return 1;
    }
    if (n == "hold") // keeps the thread until the door is open
    {
        unique_lock lk(DOOR);
        DOORS.wait(lk, [&] { return ob.var != 0; });
        return 1;
    }
    if (n == "open")
    {
        scoped_lock lk(DOOR);
        ob.var = 1;
        DOORS.notify_all();
        return 1;
    }
    if (n == "tstart")
    {
        ob.tmr->start();
        return 1;
    }
    if (n == "tstop")
    {
        ob.tmr->stop();
        return 1;
    }
    if (n == "treset")
    {
        ob.tmr->reset();
        return 1;
    }
    if (n == "tcb")
    {
        size_t i = A(0);
        long v = A(1);
        auto old = ob.tmr->set_expire_callback(fired { i, v });
        return old.target<fired>() ? old.target<fired>()->v : -1;
    }
    if (n == "trun")
    {
        return ob.tmr->is_running();
    }
    // coroutines
    if (n == "spawn")
    {
        spawn(A(0));
        return 1;
    }
    if (n == "join")
    {
        H[A(0)]->join();
        return 1;
    }
    if (n == "cowait")
    {
        return H[A(0)]->wait<long>();
    }
    if (n == "cowaitv")
    {
        H[A(0)]->wait<void>();
        return 1;
    }
    if (n == "cowaitbad") // wrong type
    {
        (void)H[A(0)]->wait<string>();
        return 1;
    }
    if (n == "cowaitfor")
    {
        auto r = H[A(0)]->wait_for(microseconds(A(1)));
        return r ? (long)*r : 0;
    }
    if (n == "cowaituntil")
    {
        auto r = H[A(0)]->wait_until(steady_clock::time_point(nanoseconds((A(1) + 1000000000L) * 1000)));
        return r ? (long)*r : 0;
    }
    if (n == "detach")
    {
        H[A(0)]->detach();
        return 1;
    }
    if (n == "destroyco")
    {
        auto h = H[A(0)];
        H[A(0)] = nullptr;
        delete h;
        return 1;
    }
    if (n == "moveco") // the handle is moved into another object
    {
        auto old = H[A(0)];
        auto h = new co(std::move(*old));
        bool ok = old->id() == 0 && old->name().empty();
        delete old;
        H[A(0)] = h;
        return ok;
    }
    if (n == "assignco") // the first handle is overwritten with the second one (the same one: with an empty one)
    {
        if (A(0) == A(1))
        {
            co h(std::move(*H[A(0)]));
            h = std::move(*H[A(0)]);
            return h.id() == 0;
        }
        auto id = H[A(1)]->id();
        *H[A(0)] = std::move(*H[A(1)]);
        swap(H[A(0)], H[A(1)]);
        return H[A(0)]->id() == 0 && H[A(1)]->id() == id;
    }
    if (n == "coname")
    {
        auto s = H[A(0)]->name();
        return s.size() < 4 || s.substr(0, 3) != "co-" ? -1 : atol(s.c_str() + 3);
    }
    if (n == "coid") // 2: no coroutine, 1: the right one
    {
        auto id = H[A(0)]->id();
        return id == 0 ? 2 : SELF[A(0)] == 0 || SELF[A(0)] == id;
    }
    if (n == "cofin")
    {
        return H[A(0)]->ctx_state() == co_state::finished;
    }
    if (n == "selfname")
    {
        auto s = this_co::name();
        return s.size() < 4 || s.substr(0, 3) != "co-" ? -1 : atol(s.c_str() + 3);
    }
    if (n == "selfid")
    {
        return this_co::id() == SELF[c];
    }
    if (n == "setprio")
    {
        H[A(0)]->ctx_set_priority((int)A(1));
        return 1;
    }
    if (n == "onfin")
    {
        long of = A(0), tag = A(1);
        TELL[tag] = H[of]->ctx_finished().sub([=] { ev("{\"e\":\"fincb\",\"c\":%ld,\"r\":%ld,\"t\":%ld}", tag, of, vt()); });
        return 1;
    }
    if (n == "offfin")
    {
        H[A(0)]->ctx_finished().unsub(TELL[A(1)]);
        return 1;
    }
    if (n == "onprio")
    {
        long tag = A(1);
        TELL[tag] = H[A(0)]->ctx_priority_changed().sub([=](int from, int to) {
            ev("{\"e\":\"prcb\",\"c\":%ld,\"r\":%d,\"t\":%ld}", tag, 1000 * from + to, vt());
        });
        return 1;
    }
    if (n == "offprio")
    {
        H[A(0)]->ctx_priority_changed().unsub(TELL[A(1)]);
        return 1;
    }
    if (n == "setselfprio")
    {
        co::current_env()->current_ctx()->set_priority((int)A(0));
        return 1;
    }
    if (n == "getprio")
    {
        return H[A(0)]->ctx_priority();
    }
    if (n == "getselfprio")
    {
        return co::current_env()->current_ctx()->priority();
    }
    if (n == "throw")
    {
        throw user_error {A(0)};
    }
    if (n == "retv")
    {
        rv.has = true;
        rv.v = A(0);
        return 1;
    }
    if (n == "local") // local variable number, value: returns the previous value
    {
        long &x = A(0) == 0 ? CoLocal(lv0, long) : A(0) == 1 ? CoLocal(lv1, long) : CoLocal(lv2, long);
        long old = x;
        x = A(1);
        return old;
    }
    if (n == "regyield")
    {
        return drv_reg_yield(c * 7919L + 17);
    }
    if (n == "deep")
    {
        return deep_yield(c, A(0), A(1));
    }
    if (n == "exclusive")
    {
        E[A(0)]->set_exclusive();
        return 1;
    }
    // events
    if (n == "sub")
    {
        // The function may unsubscribe itself or another one, or subscribe another one instead of itself
        long tag = A(1), act = A(2), arg = A(3);
        auto e = ob.ev;
        auto own = make_shared<atomic<long> >(-1);
        auto log = [](long tag, int v) { ev("{\"e\":\"cb\",\"c\":%ld,\"r\":%d,\"t\":%ld}", tag, v, vt()); };
        auto h = e->sub([=](int v) {
            log(tag, v);
            if (act == 1 || act == 3)
            {
                // It may be called before sub has returned
                while (*own < 0)
                {
                    this_thread::sleep_for(microseconds(1));
                }
                e->unsub(*own);
            }
            else if (act == 2)
            {
                e->unsub(arg);
            }
            if (act == 3)
            {
                e->sub([=](int v) { log(arg, v); });
            }
        });
        *own = h;
        return (long)h;
    }
    if (n == "unsub")
    {
        ob.ev->unsub(A(1));
        return 1;
    }
    if (n == "pub")
    {
        ob.ev->pub((int)A(1));
        return 1;
    }
    fprintf(stderr, "unknown op %s\n", n.c_str());
    abort();
}

// Calls which are not allowed in the state the caller is in
bool misuse(int c, const op_t &o)
{
    const string &n = o.name;
    int i = o.a.empty() ? 0 : (int)o.a[0];
    if (n == "lock")
    {
        bool rec = O[i].kind == "rmutex" || O[i].kind == "rtmutex";
        return READ[c][i] > 0 || (!rec && HELD[c][i] > 0);
    }
    if (n == "unlock" && O[i].kind == "spin")
    {
        return HELD[c][i] == 0;
    }
    if (n == "trylock" || n == "lockfor" || n == "lockuntil")
    {
        return READ[c][i] > 0;
    }
    if (n == "rlock" || n == "tryrlock" || n == "rlockfor" || n == "rlockuntil")
    {
        return READ[c][i] > 0 || HELD[c][i] > 0;
    }
    if (n == "wait" || n == "waitp" || n == "waitfor" || n == "waituntil" || n == "waitforp" || n == "waituntilp")
    {
        return HELD[c][(int)o.a[1]] != 1;
    }
    return false;
}

void note(int c, const op_t &o, long r)
{
    const string &n = o.name;
    int i = o.a.empty() ? 0 : (int)o.a[0];
    if (r != 1)
    {
        return;
    }
    if (n == "lock" || n == "trylock" || n == "lockfor" || n == "lockuntil")
    {
        ++HELD[c][i];
    }
    else if (n == "rlock" || n == "tryrlock" || n == "rlockfor" || n == "rlockuntil")
    {
        ++READ[c][i];
    }
    else if (n == "unlock")
    {
        --HELD[c][i];
    }
    else if (n == "runlock")
    {
        --READ[c][i];
    }
}

long body(int c)
{
    volatile long canary[16];
    for (int i = 0; i < 16; ++i)
    {
        canary[i] = c * 31 + i;
    }
    retval rv;
    ev("{\"e\":\"begin\",\"c\":%d,\"t\":%ld,\"th\":%d}", c, vt(), sim::tid());
    for (auto &o : C[c].ops)
    {
        if (o.name == "gate" || o.name == "sgate")
        {
            sim::gate((int)o.a[0], o.name == "sgate");
            continue;
        }
        if (misuse(c, o))
        {
            continue;
        }
        op_t copy = o;
        if (o.name == "sleepu" || o.name == "lockuntil" || o.name == "rlockuntil" || o.name == "acquntil" || o.name == "waituntil" || o.name == "waituntilp" || o.name == "cowaituntil")
        {
            // the argument is relative in the program and absolute in the trace
            size_t k = o.name == "sleepu" ? 0 : o.name.starts_with("waituntil") ? 2 : 1;
            copy.a[k] = vt_of(steady_clock::now()) + o.a[k];
        }
        call_ev(c, copy);
        long r;
        if (o.name == "throw")
        {
            ret_ev(c, 1);
            ev("{\"e\":\"fin\",\"c\":%d,\"t\":%ld,\"th\":%d}", c, vt(), sim::tid());
            throw user_error {o.a[0]};
        }
        try
        {
            r = exec(c, copy, rv);
        }
        catch (user_error &e)
        {
            r = -1000 - e.v;
        }
        catch (logic_error &)
        {
            r = -1;
        }
        catch (bad_cast &)
        {
            r = -2;
        }
        catch (exception &)
        {
            r = -3;
        }
        note(c, copy, r);
        ret_ev(c, r);
        if (rv.has)
        {
            break;
        }
    }
    for (int i = 0; i < 16; ++i)
    {
        if (canary[i] != c * 31 + i)
        {
            ev("{\"e\":\"corrupt\",\"c\":%d,\"t\":%ld}", c, vt());
        }
    }
    ev("{\"e\":\"fin\",\"c\":%d,\"t\":%ld,\"th\":%d}", c, vt(), sim::tid());
    return rv.v;
}

void spawn(int c)
{
    auto &s = C[c];
    auto tr = make_shared<tracker>(c);
    auto env = s.env >= 0 ? E[s.env] : nullptr;
    size_t ss = s.stack ? s.stack : 256 * 1024;
    auto name = "co-" + to_string(c);
    auto run = [c](const shared_ptr<tracker> &tr) {
        SELF[c] = this_co::id();
        long r = body(c);
        if (tr->magic != 0x5eed5eed)
        {
            ev("{\"e\":\"corrupt\",\"c\":%d,\"t\":%ld}", c, vt());
        }
        return r;
    };
    auto start = [&](auto &&...x) {
        if (env)
        {
            H[c] = new co({with_bind_env(env), with_priority(s.prio), with_shared_stack(s.shared != 0), with_stack_size(ss), with_name(name)}, std::forward<decltype(x)>(x)...);
        }
        else
        {
            H[c] = new co({with_priority(s.prio), with_shared_stack(s.shared != 0), with_stack_size(ss), with_name(name)}, std::forward<decltype(x)>(x)...);
        }
    };
    if (c % 2 == 0) // what it needs is captured
    {
        auto fn = [run, tr]() -> long { return run(tr); };
        tr.reset();
        start(fn);
    }
    else // what it needs is passed: copies, which the changes made later do not reach
    {
        string t = "argument of the coroutine " + to_string(c);
        long v = 7 * c + 3;
        auto fn = [run, c](const shared_ptr<tracker> &tr, const string &t, long v, const string *own) -> long {
            auto intact = [&] { return v == 7 * c + 3 && &t != own && t == "argument of the coroutine " + to_string(c); };
            bool ok = intact();
            long r = run(tr);
            if (!ok || !intact())
            {
                ev("{\"e\":\"corrupt\",\"c\":%d,\"t\":%ld}", c, vt());
            }
            return r;
        };
        auto own = &t;
        if (c % 4 == 1)
        {
            start(fn, tr, t, v, own);
            t.assign("changed");
            v = 0;
        }
        else
        {
            start(std::move(fn), std::move(tr), string(t), long(v), own);
        }
    }
}

void run_program(const vector<string> &lines)
{
    for (auto &l : lines)
    {
        istringstream is(l);
        string k;
        is >> k;
        if (k == "E")
        {
            is >> n_env >> use_preempt >> base_threads >> max_threads >> all_exclusive >> own_threads;
        }
        else if (k == "O")
        {
            obj_t o;
            is >> o.kind;
            long v;
            while (is >> v)
            {
                o.a.push_back(v);
            }
            O.push_back(o);
        }
        else if (k == "C")
        {
            co_spec s;
            is >> s.env >> s.prio >> s.shared >> s.stack >> s.start;
            string t;
            while (is >> t)
            {
                op_t o;
                size_t p = t.find(':');
                o.name = t.substr(0, p);
                while (p != string::npos)
                {
                    size_t q = t.find(':', p + 1);
                    o.a.push_back(atol(t.substr(p + 1, q == string::npos ? string::npos : q - p - 1).c_str()));
                    p = q;
                }
                s.ops.push_back(o);
            }
            C.push_back(s);
        }
    }
    H.resize(C.size());
    SELF.resize(C.size());
    TOK.resize(C.size());
    HELD.resize(C.size());
    READ.resize(C.size());
    if (base_threads)
    {
        co::set_base_schedule_thread_count(base_threads);
    }
    else
    {
        co::set_base_schedule_thread_count(2);
    }
    co::set_max_schedule_thread_count(max_threads ? max_threads : 8);
    co::set_env_shared_stack_size(256 * 1024);
    sim::preempt_signals(use_preempt);
    for (size_t i = 0; i < O.size(); ++i)
    {
        auto &o = O[i];
        long a0 = o.a.empty() ? 0 : o.a[0];
        if (o.kind == "mutex")
            o.m = new co_mutex;
        else if (o.kind == "spin")
            o.sp = new co_spinlock;
        else if (o.kind == "rmutex")
            o.rm = new co_recursive_mutex;
        else if (o.kind == "tmutex")
            o.tm = new co_timed_mutex;
        else if (o.kind == "rtmutex")
            o.rtm = new co_recursive_timed_mutex;
        else if (o.kind == "smutex")
            o.sm = new co_shared_mutex;
        else if (o.kind == "stmutex")
            o.stm = new co_shared_timed_mutex;
        else if (o.kind == "cv")
            o.cv = new co_condition_variable;
        else if (o.kind == "sem1")
            o.s1 = new co_counting_semaphore<1>(a0);
        else if (o.kind == "sem2")
            o.s2 = new co_counting_semaphore<2>(a0);
        else if (o.kind == "sem3")
            o.s3 = new co_counting_semaphore<3>(a0);
        else if (o.kind == "bsem")
            o.sb = new co_binary_semaphore(a0);
        else if (o.kind == "latch")
            o.la = new co_latch(a0);
        else if (o.kind == "barrier")
            o.ba = new co_barrier(a0);
        else if (o.kind == "wg")
            o.wg = new co_wait_group(a0);
        else if (o.kind == "once")
            o.once = new co_once_flag;
        else if (o.kind == "chan")
            o.ch = new co_chan<long>((int)a0);
        else if (o.kind == "event")
            o.ev = new co_event<int>;
        else if (o.kind == "timer") // a0: 0 once 1 loop, a1: ms
            o.tmr = co_timer::create(fired { i, 0 },
                                     a0 ? co_expire_type::loop : co_expire_type::once, o.a[1]);
        else if (o.kind == "timerabs") // a0: us from the start of the run
            o.tmr = co_timer::create(fired { i, 0 },
                                     steady_clock::time_point(nanoseconds((a0 + 1000000000L) * 1000)));
        else if (o.kind == "var" || o.kind == "door")
            o.var = a0;
        else
        {
            fprintf(stderr, "unknown object %s\n", o.kind.c_str());
            abort();
        }
    }
    for (int i = 0; i < n_env; ++i)
    {
        if (i < own_threads)
        {
            // A thread which becomes a scheduler
            E.push_back(nullptr);
            auto env = &E.back();
            atomic<bool> known {false};
            thread([&, env] {
                *env = co::current_env();
                known = true;
                co::schedule_in_this_thread();
            }).detach();
            while (!known || E.back()->state() == co_env_state::created)
            {
                this_thread::yield();
            }
        }
        else
        {
            E.push_back(co::create_env(true));
        }
        if (all_exclusive)
        {
            E.back()->set_exclusive();
        }
    }
    // Ends the run when nothing happens any more
    thread last([] {
        sim::gate(1 << 30);
        sim::finish("end");
    });
    vector<thread *> T;
    int mainc = -1;
    for (size_t i = 0; i < C.size(); ++i)
    {
        if (!C[i].start)
        {
            continue;
        }
        if (C[i].env == -2)
        {
            mainc = i;
        }
        else if (C[i].env == -3)
        {
            T.push_back(new thread([i] { body(i); }));
        }
        else
        {
            spawn(i);
        }
    }
    if (mainc >= 0)
    {
        body(mainc);
    }
    last.join();
}
}

int main(int argc, char **argv)
{
    return drv_main(run_program, true);
}
