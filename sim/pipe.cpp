// Interpreter for generated pipelines: what their functions are called with, what comes out, what is left.
//   E base_threads max_threads yields
//   S kind n cap        the source: gen, col, list, iter, range; it has the values 1 .. n
//   X kind a b          a stage: map, fork, filter, group, reduce, take, skip
//   K kind n place      the consumer: all, to, some, leave; place -2 the main thread, -3 a thread, -1 a coroutine
#include "cocpp/cocpp.h"
#include "drv_common.h"
#include "sim.h"

#include <atomic>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

using namespace cocpp;
using namespace std;

namespace
{
struct stage
{
    string kind;
    long a = 0, b = 0;
};

string s_kind = "gen", k_kind = "all";
long s_n = 0, k_n = 0, made = 0;
int s_cap = -1, k_place = -1, base_threads = 1, max_threads = 1, yields = 0;
vector<stage> X;
atomic<int> alive[16];

// counts the function objects of a stage
struct mark
{
    int s;
    explicit mark(int s)
        : s(s)
    {
        ++alive[s];
    }
    mark(const mark &o)
        : s(o.s)
    {
        ++alive[s];
    }
    mark &operator=(const mark &) = default;
    ~mark()
    {
        --alive[s];
    }
};

void pause()
{
    if (yields && sim::rnd() % 2)
    {
        this_co::yield();
    }
}

void fn1(int s, long v)
{
    ev("{\"e\":\"fn\",\"c\":%d,\"a\":[%ld],\"t\":0}", s, v);
    pause();
}

struct map_fn
{
    mark m;
    long k;
    long operator()(long v) const
    {
        fn1(m.s, v);
        return v + k;
    }
};

struct filter_fn
{
    mark m;
    long a, b;
    bool operator()(long v) const
    {
        fn1(m.s, v);
        return v % a != b;
    }
};

struct reduce_fn
{
    mark m;
    long operator()(long x, long v) const
    {
        ev("{\"e\":\"fn\",\"c\":%d,\"a\":[%ld,%ld],\"t\":0}", m.s, x, v);
        pause();
        return x + v;
    }
};

struct group_fn
{
    mark m;
    long operator()(const vector<long> &d) const
    {
        string t;
        long sum = 0;
        for (auto v : d)
        {
            t += (t.empty() ? "" : ",") + to_string(v);
            sum += v;
        }
        ev("{\"e\":\"fn\",\"c\":%d,\"a\":[%s],\"t\":0}", m.s, t.c_str());
        pause();
        return sum;
    }
};

struct gen_fn
{
    mark m;
    optional<long> operator()() const
    {
        long v = made < s_n ? ++made : 0;
        ev("{\"e\":\"gen\",\"c\":0,\"r\":%ld,\"t\":0}", v);
        pause();
        return v ? optional<long>(v) : nullopt;
    }
};

struct count_iter
{
    long i;
    long operator*() const
    {
        return i;
    }
    count_iter &operator++()
    {
        ++i;
        return *this;
    }
    bool operator!=(const count_iter &o) const
    {
        return i != o.i;
    }
};

bool use_to = false;

void finish(co_pipeline<long> &p, function<void(co_chan<long>)> out)
{
    if (use_to)
    {
        ev("{\"e\":\"to\",\"c\":0,\"t\":0}");
        auto v = p | pipeline::to<vector<long>>();
        string t;
        for (auto x : v)
        {
            t += (t.empty() ? "" : ",") + to_string(x);
        }
        ev("{\"e\":\"list\",\"c\":0,\"a\":[%s],\"t\":0}", t.c_str());
        return;
    }
    out(p | pipeline::chan());
}

void grow(co_pipeline<long> &p, size_t i, function<void(co_chan<long>)> out)
{
    if (i == X.size())
    {
        finish(p, out);
        return;
    }
    auto &x = X[i];
    int s = (int)i + 1;
    auto more = [&](auto &&q) { grow(q, i + 1, out); };
    if (x.kind == "map")
        more(p | map_fn {mark(s), x.a});
    else if (x.kind == "fork")
        more(p | pipeline::fork(x.a, map_fn {mark(s), x.b}));
    else if (x.kind == "filter")
        more(p | pipeline::filter(filter_fn {mark(s), x.a, x.b}));
    else if (x.kind == "group")
        more(p | pipeline::group(x.a, group_fn {mark(s)}));
    else if (x.kind == "reduce")
        more(p | pipeline::reduce(reduce_fn {mark(s)}, x.a));
    else if (x.kind == "take")
        more(p | pipeline::take(x.a));
    else if (x.kind == "skip")
        more(p | pipeline::skip(x.a));
    else
        abort();
}

void consume(co_chan<long> ch)
{
    ev("{\"e\":\"ready\",\"c\":0,\"t\":0}");
    for (long i = 0; k_kind == "all" || (k_kind == "some" && i < k_n); ++i)
    {
        pause();
        ev("{\"e\":\"pop\",\"c\":0,\"t\":0}");
        auto r = ch.pop();
        ev("{\"e\":\"got\",\"c\":0,\"r\":%ld,\"t\":0}", r ? *r : 0);
        if (!r)
        {
            break;
        }
    }
    if (k_kind == "some")
    {
        ev("{\"e\":\"close\",\"c\":0,\"t\":0}");
        ch.close();
        ev("{\"e\":\"closed\",\"c\":0,\"t\":0}");
    }
}

void everything()
{
    if (s_kind == "gen")
    {
        co_pipeline<long> p(gen_fn {mark(0)}, s_cap);
        grow(p, 0, consume);
    }
    else if (s_kind == "range")
    {
        co_pipeline<long> p(1L, s_n + 1, 1L, s_cap);
        grow(p, 0, consume);
    }
    else if (s_kind == "iter")
    {
        co_pipeline<long> p(count_iter {1}, count_iter {s_n + 1}, s_cap);
        grow(p, 0, consume);
    }
    else if (s_kind == "list")
    {
        if (s_n == 1)
        {
            co_pipeline<long> p(initializer_list<long> {1}, s_cap);
            grow(p, 0, consume);
        }
        else if (s_n == 2)
        {
            co_pipeline<long> p(initializer_list<long> {1, 2}, s_cap);
            grow(p, 0, consume);
        }
        else
        {
            co_pipeline<long> p(initializer_list<long> {1, 2, 3, 4}, s_cap);
            grow(p, 0, consume);
        }
    }
    else if (s_kind == "stream")
    {
        vector<long> l;
        for (long i = 1; i <= s_n; ++i)
        {
            l.push_back(i);
        }
        auto p = l | pipeline::stream();
        l.assign(l.size(), 77);
        grow(p, 0, consume);
    }
    else
    {
        vector<long> l;
        for (long i = 1; i <= s_n; ++i)
        {
            l.push_back(i);
        }
        co_pipeline<long> p(l, s_cap);
        l.assign(l.size(), 77);
        grow(p, 0, consume);
    }
}

void run_program(const vector<string> &lines)
{
    for (auto &l : lines)
    {
        istringstream is(l);
        string k;
        is >> k;
        if (k == "E")
        {
            is >> base_threads >> max_threads >> yields;
        }
        else if (k == "S")
        {
            is >> s_kind >> s_n >> s_cap;
        }
        else if (k == "X")
        {
            stage x;
            is >> x.kind >> x.a >> x.b;
            X.push_back(x);
        }
        else if (k == "K")
        {
            is >> k_kind >> k_n >> k_place;
        }
    }
    use_to = k_kind == "to";
    co::set_base_schedule_thread_count(base_threads);
    co::set_max_schedule_thread_count(max_threads);
    thread last([] {
        sim::gate(1 << 29);
        if (max_threads == 1)
        {
            // finished coroutines are cleared away when their env goes on
            for (int i = 0; i < 3; ++i)
            {
                co c([] { this_co::yield(); });
                c.join();
            }
            string t;
            for (size_t i = 0; i <= X.size(); ++i)
            {
                t += (t.empty() ? "" : ",") + to_string(alive[i].load());
            }
            ev("{\"e\":\"alive\",\"c\":0,\"a\":[%s],\"t\":0}", t.c_str());
        }
        sim::gate(1 << 30);
        sim::finish("end");
    });
    thread *t = nullptr;
    if (k_place == -2)
    {
        everything();
    }
    else if (k_place == -3)
    {
        t = new thread(everything);
    }
    else
    {
        auto c = new co([] { everything(); });
        c->detach();
    }
    last.join();
}
}

int main(int argc, char **argv)
{
    return drv_main(run_program);
}
