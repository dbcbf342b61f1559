// Interpreter for generated programs which transfer data.
//   E n_env inject          inject: how often (percent) a system call is made to say would block / interrupted /
//                           transfer less than it could; every 4th program line "H c k errno" makes the k-th transfer of
//                           coroutine c fail for good
//   P s t                   slots s and t are the two ends of a connection
//   L n                     number of listening sockets
//   F n                     number of files
//   C env ops               a coroutine
// The sockets are real ones; the system calls of the library are seen here before the kernel sees them.
#include "cocpp/cocpp.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_file.h"
#include "cocpp/io/co_io.h"
#include "cocpp/io/co_net.h"
#include "drv_common.h"
#include "sim.h"

#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <poll.h>
#include <sstream>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <thread>
#include <vector>

using namespace cocpp;
using namespace std;

namespace
{
struct op_t
{
    string name;
    vector<long> a;
};

struct co_spec
{
    int env;
    vector<op_t> ops;
    co_ctx *ctx = nullptr;
    long transfers = 0; // system calls which transfer data
    long fault_at = 0;
    int fault_errno = 0;
    bool faulted = false;
    long counter = 0;
};

struct client : co_client
{
    explicit client(co_net n)
    {
        endpoint__ = n;
    }
    tuple<size_t, co_error> read(co_buffer &b) override
    {
        return co_client::read(b);
    }
    co_error read_n(co_buffer &b) override
    {
        return co_client::read_n(b);
    }
    tuple<size_t, co_error> write(const co_buffer &b) override
    {
        return co_client::write(b);
    }
    co_error write_n(const co_buffer &b) override
    {
        return co_client::write_n(b);
    }
    co_error close() override
    {
        return co_client::close();
    }
    co_net get_endpoint() override
    {
        return co_client::get_endpoint();
    }
};

vector<co_spec> C;
vector<co_env *> E;
co_net S[32];
co_file FS[32];
bool mine[1024], whole[1024], connecting[1024];
struct sockaddr_un late[1024];
socklen_t late_len[1024];
co_net LS[4];
int n_env = 1, inject = 0, n_listen = 0, n_file = 0;
vector<int> files;

template <class F>
F real(const char *n)
{
    return (F)dlsym(RTLD_NEXT, n);
}

int self()
{
    auto env = co::current_env();
    auto ctx = env ? env->current_ctx() : nullptr;
    for (size_t i = 0; i < C.size(); ++i)
    {
        if (C[i].ctx && C[i].ctx == ctx)
        {
            return (int)i;
        }
    }
    return -1;
}

// 0: go on, -1: errno is set
int before(int fd, size_t &n, bool transfer)
{
    sim::point();
    if (inject && (int)(sim::rnd() % 100) < inject)
    {
        errno = sim::rnd() % 2 ? EAGAIN : EINTR;
        return -1;
    }
    if (transfer)
    {
        int c = self();
        if (c >= 0 && C[c].fault_at && ++C[c].transfers == C[c].fault_at)
        {
            ev("{\"e\":\"fault\",\"c\":%d,\"r\":%d,\"t\":0}", c, C[c].fault_errno);
            errno = C[c].fault_errno;
            return -1;
        }
    }
    if (inject && n > 1 && !whole[fd] && (int)(sim::rnd() % 100) < inject)
    {
        n = 1 + sim::rnd() % (n - 1);
    }
    return 0;
}

bool ours(int fd)
{
    return sim::started() && fd >= 0 && fd < 1024 && mine[fd];
}

// A call which would block in the kernel blocks only its thread here
void until(int fd, short what)
{
    if (real<int (*)(int, int, ...)>("fcntl")(fd, F_GETFL) & O_NONBLOCK)
    {
        return;
    }
    struct pollfd p {fd, what, 0};
    while (real<int (*)(struct pollfd *, nfds_t, int)>("poll")(&p, 1, 0) == 0)
    {
        sim::point();
        sched_yield();
    }
}
}

extern "C"
{
ssize_t read(int fd, void *b, size_t n)
{
    auto f = real<ssize_t (*)(int, void *, size_t)>("read");
    if (!ours(fd))
        return f(fd, b, n);
    if (before(fd, n, true))
        return -1;
    until(fd, POLLIN);
    return f(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n)
{
    auto f = real<ssize_t (*)(int, const void *, size_t)>("write");
    if (!ours(fd))
        return f(fd, b, n);
    if (before(fd, n, true))
        return -1;
    until(fd, POLLOUT);
    return f(fd, b, n);
}

ssize_t send(int fd, const void *b, size_t n, int fl)
{
    auto f = real<ssize_t (*)(int, const void *, size_t, int)>("send");
    if (ours(fd))
    {
        if (before(fd, n, true))
            return -1;
        until(fd, POLLOUT);
    }
    return f(fd, b, n, fl);
}

ssize_t recv(int fd, void *b, size_t n, int fl)
{
    auto f = real<ssize_t (*)(int, void *, size_t, int)>("recv");
    if (ours(fd))
    {
        if (before(fd, n, true))
            return -1;
        until(fd, POLLIN);
    }
    return f(fd, b, n, fl);
}

ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
    auto f = real<ssize_t (*)(int, const void *, size_t, int, const struct sockaddr *, socklen_t)>("sendto");
    if (ours(fd))
    {
        if (before(fd, n, true))
            return -1;
        until(fd, POLLOUT);
    }
    return f(fd, b, n, fl, a, l);
}

ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    auto f = real<ssize_t (*)(int, void *, size_t, int, struct sockaddr *, socklen_t *)>("recvfrom");
    if (ours(fd))
    {
        if (before(fd, n, true))
            return -1;
        until(fd, POLLIN);
    }
    return f(fd, b, n, fl, a, l);
}

ssize_t sendmsg(int fd, const struct msghdr *m, int fl)
{
    auto f = real<ssize_t (*)(int, const struct msghdr *, int)>("sendmsg");
    if (ours(fd))
    {
        size_t n = 1;
        if (before(fd, n, true))
            return -1;
        until(fd, POLLOUT);
    }
    return f(fd, m, fl);
}

ssize_t recvmsg(int fd, struct msghdr *m, int fl)
{
    auto f = real<ssize_t (*)(int, struct msghdr *, int)>("recvmsg");
    if (ours(fd))
    {
        size_t n = 1;
        if (before(fd, n, true))
            return -1;
        until(fd, POLLIN);
    }
    return f(fd, m, fl);
}

int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    auto f = real<int (*)(int, struct sockaddr *, socklen_t *)>("accept");
    if (!ours(fd))
        return f(fd, a, l);
    size_t n = 1;
    if (before(fd, n, true))
        return -1;
    until(fd, POLLIN);
    int r = f(fd, a, l);
    if (r >= 0 && r < 1024)
        mine[r] = true;
    return r;
}

int open(const char *path, int fl, ...)
{
    va_list a;
    va_start(a, fl);
    int mode = va_arg(a, int);
    va_end(a);
    int r = real<int (*)(const char *, int, ...)>("open")(path, fl, mode);
    if (sim::started() && r >= 0 && r < 1024 && !strncmp(path, "/proc/self/fd/", 14))
        mine[r] = true;
    return r;
}

int socket(int d, int t, int p)
{
    int r = real<int (*)(int, int, int)>("socket")(d, t, p);
    if (sim::started() && r >= 0 && r < 1024)
    {
        mine[r] = true;
        connecting[r] = false;
    }
    return r;
}

// A connection is often not established at once: it is made when somebody looks whether it has been
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    auto f = real<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
    if (!ours(fd))
        return f(fd, a, l);
    sim::point();
    if (connecting[fd])
    {
        errno = EALREADY;
        return -1;
    }
    if (inject && sim::rnd() % 3)
    {
        memcpy(&late[fd], a, l);
        late_len[fd] = l;
        connecting[fd] = true;
        // interrupted: the connection is established all the same
        errno = sim::rnd() % 4 ? EINPROGRESS : EINTR;
        return -1;
    }
    return f(fd, a, l);
}

static int so_error[1024];

static bool connected(int fd)
{
    if (!connecting[fd])
    {
        return true;
    }
    if (sim::rnd() % 2)
    {
        return false;
    }
    int r = real<int (*)(int, const struct sockaddr *, socklen_t)>("connect")(fd, (struct sockaddr *)&late[fd], late_len[fd]);
    so_error[fd] = r ? errno : 0;
    connecting[fd] = false;
    return true;
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    auto f = real<int (*)(int, fd_set *, fd_set *, fd_set *, struct timeval *)>("select");
    if (!sim::started())
        return f(n, r, w, e, t);
    sim::point();
    if (inject && (int)(sim::rnd() % 100) < inject)
    {
        errno = EINTR;
        return -1;
    }
    for (int i = 0; w && i < n && i < 1024; ++i)
    {
        if (FD_ISSET(i, w) && ours(i) && !connected(i))
        {
            FD_CLR(i, w);
        }
    }
    struct timeval z {0, 0};
    return f(n, r, w, e, &z);
}

int poll(struct pollfd *p, nfds_t n, int t)
{
    auto f = real<int (*)(struct pollfd *, nfds_t, int)>("poll");
    if (!sim::started())
        return f(p, n, t);
    sim::point();
    if (inject && (int)(sim::rnd() % 100) < inject)
    {
        errno = EINTR;
        return -1;
    }
    bool wait = false;
    for (nfds_t i = 0; i < n; ++i)
    {
        wait = wait || (p[i].fd >= 0 && ours(p[i].fd) && !connected(p[i].fd));
    }
    if (wait)
    {
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0;
        }
        return 0;
    }
    return f(p, n, 0);
}

int getsockopt(int fd, int level, int opt, void *v, socklen_t *l)
{
    auto f = real<int (*)(int, int, int, void *, socklen_t *)>("getsockopt");
    if (ours(fd) && level == SOL_SOCKET && opt == SO_ERROR && so_error[fd])
    {
        *(int *)v = so_error[fd];
        so_error[fd] = 0;
        return 0;
    }
    return f(fd, level, opt, v, l);
}
}

namespace
{
void name_of(int k, struct sockaddr_un &a, socklen_t &l)
{
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    int n = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "cocpp-verif-%d-%d", (int)::getpid(), k);
    l = offsetof(struct sockaddr_un, sun_path) + 1 + n;
}

string bytes(const unsigned char *b, long n)
{
    string t;
    for (long i = 0; i < n; ++i)
    {
        t += (i ? "," : "") + to_string(b[i]);
    }
    return t;
}

void call_ev(int c, const string &op, const vector<long> &a, const string &d)
{
    string s;
    for (size_t i = 0; i < 3; ++i)
    {
        s += (i ? "," : "") + to_string(i < a.size() ? a[i] : 0);
    }
    ev("{\"e\":\"call\",\"c\":%d,\"op\":\"%s\",\"a\":[%s],\"d\":[%s],\"t\":0}", c, op.c_str(), s.c_str(), d.c_str());
}

void ret_ev(int c, long r, int err, const string &d)
{
    ev("{\"e\":\"ret\",\"c\":%d,\"r\":%ld,\"x\":%d,\"d\":[%s],\"t\":0}", c, r, err, d.c_str());
}

void body(int c)
{
    auto &me = C[c];
    me.ctx = co::current_env()->current_ctx();
    ev("{\"e\":\"begin\",\"c\":%d,\"t\":0}", c);
    for (auto &o : me.ops)
    {
        auto A = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        const string &n = o.name;
        bool again = true;
        while (again)
        {
            again = false;
            unsigned char b[64];
            bool gput = n == "gto" || n == "gmsgto", gget = n == "gfrom" || n == "grecv" || n == "gmsg" || n == "grd";
            bool put = gput || n == "wr" || n == "send" || n == "sendto" || n == "sendmsg" || n == "wrn" || n == "cwr" || n == "fwr";
            bool get = gget || n == "peek" || n == "gpeek" || n == "rd" || n == "recv" || n == "recvfrom" || n == "recvmsg" || n == "rdn" || n == "crd" || n == "frd" || n == "drain";
            long len = A(1);
            memset(b, 0, sizeof b);
            string kind = n == "wrn" || n == "rdn" || n == "fwr" || n == "frd" || n == "peek" || n == "gpeek" ? n : gput ? "gput" : gget ? "gget" : put ? "put" : get ? "get" : n;
            if (put)
            {
                for (long i = 0; i < len; ++i)
                {
                    b[i] = (unsigned char)(c * 40 + 1 + me.counter++ % 40);
                }
            }
            if (n == "yield")
            {
                this_co::yield();
                continue;
            }
            call_ev(c, kind, o.a, put ? bytes(b, len) : "");
            long r = 0;
            auto &s = S[A(0)];
            int from = -1;
            errno = 0;
            if (n == "wr")
                r = s.write(b, len);
            else if (gput || gget)
            {
                struct sockaddr_un a;
                socklen_t l = sizeof a;
                if (gput)
                {
                    name_of(100 + A(2), a, l);
                }
                else
                {
                    memset(&a, 0, sizeof a);
                }
                struct iovec v[2] = {{b, (size_t)(len / 2)}, {b + len / 2, (size_t)(len - len / 2)}};
                struct msghdr m;
                memset(&m, 0, sizeof m);
                m.msg_iov = v;
                m.msg_iovlen = 2;
                m.msg_name = &a;
                m.msg_namelen = l;
                if (n == "gto")
                    r = s.sendto(b, len, MSG_NOSIGNAL, (struct sockaddr *)&a, l);
                else if (n == "gmsgto")
                    r = s.sendmsg(&m, MSG_NOSIGNAL);
                else if (n == "gfrom")
                    r = s.recvfrom(b, len, 0, (struct sockaddr *)&a, &l);
                else if (n == "gmsg")
                    r = s.recvmsg(&m, 0);
                else if (n == "grd")
                    r = s.read(b, len);
                else
                    r = s.recv(b, len, 0);
                int pid, k;
                if (r >= 0 && (n == "gfrom" || n == "gmsg"))
                {
                    from = sscanf(a.sun_path + 1, "cocpp-verif-%d-%d", &pid, &k) == 2 ? k - 100 : -2;
                }
            }
            else if (n == "peek" || n == "gpeek")
                r = s.recv(b, len, MSG_PEEK);
            else if (n == "rd" || n == "drain")
                r = s.read(b, len);
            else if (n == "send")
                r = s.send(b, len, MSG_NOSIGNAL);
            else if (n == "recv")
                r = s.recv(b, len, 0);
            else if (n == "sendto")
                r = s.sendto(b, len, MSG_NOSIGNAL, nullptr, 0);
            else if (n == "recvfrom")
                r = s.recvfrom(b, len, 0, nullptr, nullptr);
            else if (n == "sendmsg" || n == "recvmsg")
            {
                struct iovec v[2] = {{b, (size_t)(len / 2)}, {b + len / 2, (size_t)(len - len / 2)}};
                struct msghdr m;
                memset(&m, 0, sizeof m);
                m.msg_iov = v;
                m.msg_iovlen = 2;
                r = n == "sendmsg" ? s.sendmsg(&m, MSG_NOSIGNAL) : s.recvmsg(&m, 0);
            }
            else if (n == "crd" || n == "cwr")
            {
                client k(s);
                co_buffer buf(len);
                if (n == "cwr")
                {
                    copy(b, b + len, buf.begin());
                    r = (long)(int)std::get<0>(k.write(buf));
                }
                else
                {
                    r = (long)(int)std::get<0>(k.read(buf));
                    copy(buf.begin(), buf.end(), b);
                }
            }
            else if (n == "rdn")
            {
                client k(s);
                co_buffer buf(len);
                auto e = k.read_n(buf);
                r = e ? -1 : len;
                copy(buf.begin(), buf.end(), b);
            }
            else if (n == "wrn")
            {
                client k(s);
                co_buffer buf(b, b + len);
                auto e = k.write_n(buf);
                r = e ? -1 : len;
            }
            else if (n == "shut")
                r = s.shutdown(SHUT_WR);
            else if (n == "cl")
                r = s.close();
            else if (n == "accept")
            {
                auto x = LS[A(0)].accept(nullptr, nullptr);
                r = x ? 0 : -1;
                if (x)
                {
                    S[A(1)] = *x;
                }
            }
            else if (n == "connect")
            {
                auto x = co_net::socket(AF_UNIX, SOCK_STREAM, 0);
                S[A(1)] = *x;
                struct sockaddr_un a;
                socklen_t l;
                name_of(A(0), a, l);
                r = S[A(1)].connect((struct sockaddr *)&a, l);
            }
            else if (n == "fopen")
            {
                auto x = co_file::open(("/proc/self/fd/" + to_string(files[A(0)])).c_str(), O_RDWR | O_CREAT, 0600);
                r = x ? 0 : -1;
                if (x)
                {
                    FS[A(1)] = *x;
                }
            }
            else if (n == "frd")
                r = FS[A(0)].read(b, len);
            else if (n == "fwr")
                r = FS[A(0)].write(b, len);
            else if (n == "seek")
                r = FS[A(0)].lseek(A(1), (int)A(2));
            else if (n == "trunc")
                r = FS[A(0)].ftruncate(A(1));
            else if (n == "fsize")
            {
                struct stat st;
                r = FS[A(0)].fstat(&st);
                r = r ? r : (long)st.st_size;
            }
            else if (n == "fcl")
                r = FS[A(0)].close();
            else
            {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                abort();
            }
            int err = r < 0 ? errno : gget || n == "gpeek" ? from : 0;
            ret_ev(c, r, err, get ? bytes(b, r > 0 ? r : 0) : "");
            again = n == "drain" && r > 0;
        }
    }
    ev("{\"e\":\"fin\",\"c\":%d,\"t\":0}", c);
}

void run_program(const vector<string> &lines)
{
    signal(SIGPIPE, SIG_IGN);
    for (auto &l : lines)
    {
        istringstream is(l);
        string k;
        is >> k;
        if (k == "E")
        {
            is >> n_env >> inject;
        }
        else if (k == "P")
        {
            int s, t, fd[2];
            is >> s >> t;
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd))
            {
                abort();
            }
            mine[fd[0]] = mine[fd[1]] = true;
            S[s].init_fd(fd[0]);
            S[t].init_fd(fd[1]);
        }
        else if (k == "D")
        {
            int s, fd = socket(AF_UNIX, SOCK_DGRAM, 0);
            struct sockaddr_un a;
            socklen_t l;
            is >> s;
            name_of(100 + s, a, l);
            if (fd < 0 || ::bind(fd, (struct sockaddr *)&a, l))
            {
                abort();
            }
            mine[fd] = whole[fd] = true;
            S[s].init_fd(fd);
        }
        else if (k == "L")
        {
            is >> n_listen;
        }
        else if (k == "F")
        {
            is >> n_file;
        }
        else if (k == "H")
        {
            int c, e;
            long at;
            is >> c >> at >> e;
            C[c].fault_at = at;
            C[c].fault_errno = e;
        }
        else if (k == "C")
        {
            co_spec s;
            is >> s.env;
            string t;
            while (is >> t)
            {
                op_t o;
                size_t p = t.find(':');
                o.name = t.substr(0, p);
                while (p != string::npos)
                {
                    size_t q = t.find(':', p + 1);
                    o.a.push_back(atol(t.substr(p + 1, q == string::npos ? string::npos : q - p - 1).c_str()));
                    p = q;
                }
                s.ops.push_back(o);
            }
            C.push_back(s);
        }
    }
    for (int i = 0; i < n_file; ++i)
    {
        files.push_back(memfd_create("f", 0));
    }
    for (int i = 0; i < n_listen; ++i)
    {
        auto x = co_net::socket(AF_UNIX, SOCK_STREAM, 0);
        struct sockaddr_un a;
        socklen_t l;
        name_of(i, a, l);
        if (!x || x->bind((struct sockaddr *)&a, l) || x->listen(8))
        {
            abort();
        }
        LS[i] = *x;
    }
    co::set_base_schedule_thread_count(1);
    co::set_max_schedule_thread_count(4);
    for (int i = 0; i < n_env; ++i)
    {
        E.push_back(co::create_env(true));
    }
    thread last([] {
        sim::gate(1 << 30);
        sim::finish("end");
    });
    vector<co *> H;
    for (size_t i = 0; i < C.size(); ++i)
    {
        if (C[i].env >= 0)
        {
            H.push_back(new co({with_bind_env(E[C[i].env])}, [i] { body((int)i); }));
        }
        else
        {
            H.push_back(new co([i] { body((int)i); }));
        }
    }
    last.join();
}
}

int main(int argc, char **argv)
{
    return drv_main(run_program);
}
