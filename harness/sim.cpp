#include "sim.h"
#include <arpa/inet.h>
#include <cstdarg>
#include <cstdlib>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
World *W;
std::string last_log_error;

static std::map<SSL *, int> *ssl_fd;
static std::map<SSL *, int> *ssl_err;
// a record that OpenSSL has built but could not write yet: the retry has to
// come with the same buffer, and what is sent is the record, not the buffer
struct Pend {
    const void *buf;
    std::string data;
};
static std::map<SSL *, Pend> *ssl_pend;
static std::map<SSL *, int> *ssl_att;

void reset()
{
    delete W;
    W = new World;
    W->now_us = 1700000000ull * 1000000ull;
    if (!ssl_fd) {
        ssl_fd = new std::map<SSL *, int>;
        ssl_err = new std::map<SSL *, int>;
        ssl_pend = new std::map<SSL *, Pend>;
        ssl_att = new std::map<SSL *, int>;
    }
    ssl_fd->clear();
    ssl_err->clear();
    ssl_pend->clear();
    ssl_att->clear();
    last_log_error.clear();
}
uint64_t now_ms() { return W->now_us / 1000; }
void advance(uint64_t ms) { W->now_us += ms * 1000; }
Sock *sock(int fd)
{
    auto i = W->socks.find(fd);
    return i == W->socks.end() ? nullptr : &i->second;
}
Sock *last_sock()
{
    if (W->connect_fds.empty())
        return nullptr;
    return sock(W->connect_fds.back());
}
void deliver(Sock &s, const std::string &d)
{
    if (!d.empty())
        s.in.push_back(d);
}
bool has_input(Sock &s)
{
    if (s.rt && (!s.rt->s2c.empty() || s.rt->cut == (long)s.rt->arrived))
        return true;
    return !s.in.empty() || s.eof || s.rst;
}

std::string Sock::out_since(Layer l, size_t from) const
{
    std::string r;
    for (auto &x : out)
        if (x.layer == l)
            r += x.data;
    return from < r.size() ? r.substr(from) : "";
}

// ---------------------------------------------------------------- allocator
int Alloc::depth;
static void *a_alloc(size_t n, void *ud)
{
    Own own;
    Alloc *a = (Alloc *)ud;
    a->inside = true;
    void *p = malloc(n ? n : 1);
    memset(p, a->fill, n);
    a->live[p] = {n, ++a->count};
    a->bytes += n;
    a->inside = false;
    return p;
}
static void a_bad(Alloc *a, void *p, const char *op)
{
    if (!a->bad_free++)
        a->first_bad = mc::fmt("%s of a block that is not live (%p)", op, p);
    mc::fail("alloc:bad-free", "%s of a block the allocator did not hand out or "
                               "that was already returned",
             op);
}
static void a_free(void *p, void *ud)
{
    Own own;
    Alloc *a = (Alloc *)ud;
    if (!p)
        return;
    a->inside = true;
    auto i = a->live.find(p);
    if (i == a->live.end()) {
        a_bad(a, p, "free");
    } else {
        a->live.erase(i);
        free(p);
    }
    a->inside = false;
}
static void *a_realloc(void *p, size_t n, void *ud)
{
    Own own;
    Alloc *a = (Alloc *)ud;
    if (!p)
        return a_alloc(n, ud);
    a->inside = true;
    auto i = a->live.find(p);
    if (i == a->live.end()) {
        a_bad(a, p, "realloc");
        a->inside = false;
        return nullptr;
    }
    size_t old = i->second.size;
    void *q = malloc(n ? n : 1);
    memset(q, a->fill, n);
    memcpy(q, p, old < n ? old : n);
    a->live.erase(i);
    free(p);
    a->live[q] = {n, ++a->count};
    a->inside = false;
    return q;
}
Alloc::Alloc()
{
    live.reserve(256);
    mem.alloc = a_alloc;
    mem.free = a_free;
    mem.realloc = a_realloc;
    mem.userdata = this;
}
Alloc::~Alloc()
{
    for (auto &i : live)
        free(i.first);
}
void Alloc::report_leaks(const char *key)
{
    if (live.empty())
        return;
    std::string d;
    int n = 0;
    std::map<uint64_t, std::pair<void *, size_t>> o;
    for (auto &i : live)
        o[i.second.serial] = {i.first, i.second.size};
    for (auto &i : o) {
        if (n++ > 5)
            break;
        d += mc::fmt(" #%llu(%zu bytes: %s)",
                     (unsigned long long)i.first, i.second.second,
                     mc::printable(std::string((char *)i.second.first,
                                               std::min<size_t>(i.second.second, 40)))
                         .c_str());
    }
    mc::fail(key, "%zu blocks not returned to the allocator:%s", live.size(),
             d.c_str());
}

static void lh(void *, xmpp_log_level_t lvl, const char *area, const char *msg)
{
    if (mc::tracing())
        mc::trace("      [%s %d] %s", area, (int)lvl,
                  mc::printable(msg, 200).c_str());
    if (lvl == XMPP_LEVEL_ERROR)
        last_log_error = msg;
}
const xmpp_log_t quiet_log = {lh, nullptr};

} // namespace sim

using namespace sim;

static bool is_sim(int fd) { return W && W->socks.count(fd); }

// bytes the next read may return
static ssize_t sock_take(Sock &s, void *buf, size_t len, Layer l, bool &closed)
{
    closed = false;
    if (s.in.empty()) {
        if (s.rst) {
            errno = s.rst;
            return -1;
        }
        if (s.eof) {
            closed = true;
            return 0;
        }
        errno = EAGAIN;
        return -1;
    }
    if (W->on_read) {
        int r = W->on_read(s, len, l);
        if (r < 0) {
            errno = -r;
            return -1;
        }
        if (r > 0 && (size_t)r < len)
            len = r;
    }
    std::string &c = s.in.front();
    size_t n = std::min(len, c.size());
    memcpy(buf, c.data(), n);
    c.erase(0, n);
    if (c.empty())
        s.in.erase(s.in.begin());
    return n;
}

// The server's half of a real session takes what the client sent and produces
// its records.
static void rt_pump(Sock &k)
{
    RealTls *t = k.rt.get();
    if (!t || !t->ssl)
        return;
    Own own;
    ERR_set_mark();
    if (!t->accepted && !t->failed) {
        int r = SSL_accept(t->ssl);
        int e = SSL_get_error(t->ssl, r);
        if (r == 1) {
            t->accepted = k.tls = true;
            mc::trace("  server: TLS handshake complete");
        } else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
            t->failed = k.tls_failed = true;
            if (t->eof_on_fail)
                k.eof = true;
            mc::trace("  server: TLS handshake failed");
        }
    }
    if (t->accepted && !t->failed) {
        char b[4096];
        int r;
        while ((r = SSL_read(t->ssl, b, sizeof b)) > 0) {
            t->app.append(b, r);
            mc::trace("  server: decrypted %d: %s", r,
                      mc::printable(std::string(b, r)).c_str());
            if (!k.out.empty() && k.out.back().layer == TLS &&
                k.out.back().t_ms == now_ms())
                k.out.back().data.append(b, r);
            else
                k.out.push_back({TLS, std::string(b, r), now_ms()});
            k.out_total += r;
        }
        r = SSL_get_error(t->ssl, r);
        if (r == SSL_ERROR_ZERO_RETURN)
            k.tls_close_notify = true;
        else if (r == SSL_ERROR_SSL || r == SSL_ERROR_SYSCALL)
            t->failed = true;
        while (!t->failed && !k.in.empty()) {
            SSL_write(t->ssl, k.in.front().data(), k.in.front().size());
            k.in.erase(k.in.begin());
        }
    }
    char b[4096];
    int r;
    while ((r = BIO_read(SSL_get_wbio(t->ssl), b, sizeof b)) > 0) {
        for (int i = 0; i < r; i++)
            if (t->flip == (long)(t->made + i))
                b[i] ^= t->mask;
        t->made += r;
        t->s2c.append(b, r);
    }
    ERR_pop_to_mark();
}
// the client's transport
static int rb_read(BIO *b, char *buf, int len)
{
    Sock *k = (Sock *)BIO_get_data(b);
    RealTls *t = k->rt.get();
    BIO_clear_retry_flags(b);
    if (!k->open || k->st != Sock::ESTAB) {
        errno = EBADF;
        return -1;
    }
    size_t n = len;
    if (t->frag && t->token <= 0)
        n = 0;
    else if (t->frag)
        n = std::min(n, t->frag);
    if (t->cut >= 0)
        n = std::min(n, (size_t)t->cut - t->arrived);
    n = std::min(n, t->s2c.size());
    if (n) {
        memcpy(buf, t->s2c.data(), n);
        t->s2c.erase(0, n);
        t->arrived += n;
        t->token--;
        return n;
    }
    if (t->cut == (long)t->arrived || (t->s2c.empty() && k->eof)) {
        errno = 0;
        return 0;
    }
    BIO_set_retry_read(b);
    errno = EAGAIN;
    return -1;
}
static int rb_write(BIO *b, const char *buf, int len)
{
    Sock *k = (Sock *)BIO_get_data(b);
    BIO_clear_retry_flags(b);
    if (!k->open || k->st != Sock::ESTAB) {
        errno = EBADF;
        return -1;
    }
    k->rt->from_client += len;
    return BIO_write(SSL_get_rbio(k->rt->ssl), buf, len);
}
static long rb_ctrl(BIO *, int cmd, long, void *)
{
    return cmd == BIO_CTRL_FLUSH || cmd == BIO_CTRL_DUP;
}
static BIO_METHOD *rb_method()
{
    static BIO_METHOD *m;
    if (!m) {
        m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "sim");
        BIO_meth_set_read(m, rb_read);
        BIO_meth_set_write(m, rb_write);
        BIO_meth_set_ctrl(m, rb_ctrl);
        BIO_meth_set_create(m, [](BIO *b) {
            BIO_set_init(b, 1);
            return 1;
        });
    }
    return m;
}
RealTls::~RealTls() { SSL_free(ssl); }

static ssize_t sock_put(Sock &s, const void *buf, size_t len, Layer l)
{
    if (!s.open || s.st != Sock::ESTAB) {
        errno = s.open ? ENOTCONN : EBADF;
        return -1;
    }
    if (s.rst && s.in.empty()) {
        errno = s.rst == ECONNRESET ? EPIPE : s.rst;
        return -1;
    }
    int n = len;
    if (len && W->on_write) {
        n = W->on_write(s, (const char *)buf, len, l);
        if (n < 0) {
            errno = -n;
            return -1;
        }
        if ((size_t)n > len)
            n = len;
        if (n == 0) {
            errno = EAGAIN;
            return -1;
        }
    }
    if (n > 0) {
        if (!s.out.empty() && s.out.back().layer == l &&
            s.out.back().t_ms == now_ms())
            s.out.back().data.append((const char *)buf, n);
        else
            s.out.push_back({l, std::string((const char *)buf, n), now_ms()});
        s.out_total += n;
    }
    return n;
}

extern "C" {
// The library's objects have these calls renamed to __wrap_* (objcopy
// --redefine-sym); the harness itself keeps the real ones.
} // (back to C++ for the real sessions)
static Sock *rt_sock(const SSL *s)
{
    if (!W || !W->real_tls)
        return nullptr;
    auto i = ssl_fd->find((SSL *)s);
    return i == ssl_fd->end() ? nullptr : sock(i->second);
}
// a call into a session that has a real peer
template <class F> static int rt_call(SSL *s, Sock *k, const char *what, F f)
{
    if (!k->rt) {
        Own own;
        k->rt = W->real_tls(*k);
        k->clear_at_tls = k->out_total;
    }
    rt_pump(*k);
    k->rt->token = 1;
    int r = f();
    mc::trace("  %s -> %d", what, r);
    int e = errno;
    rt_pump(*k);
    // both sides wait for the other: the server gives up
    RealTls *t = k->rt.get();
    size_t now = t->arrived + t->from_client;
    t->stalled = r == -1 && now == t->progress ? t->stalled + 1 : 0;
    t->progress = now;
    if (t->stalled > 50 && !k->eof) {
        k->eof = true;
        mc::trace("  server: no progress, the transport is closed");
    }
    errno = e;
    return r;
}
extern "C" {
#define __real_close close
#define __real_fcntl fcntl
#define __real_recv recv
#define __real_send send
#define __real_select select
#define __real_SSL_connect SSL_connect
#define __real_SSL_read SSL_read
#define __real_SSL_write SSL_write
#define __real_SSL_shutdown SSL_shutdown
#define __real_SSL_pending SSL_pending
#define __real_SSL_get_error SSL_get_error
#define __real_SSL_get_verify_result SSL_get_verify_result
#define __real_SSL_set_fd SSL_set_fd
#define __real_SSL_free SSL_free
#define __real_SSL_version SSL_version
#define __real_SSL_export_keying_material SSL_export_keying_material
#define __real_SSL_session_reused SSL_session_reused
#define __real_SSL_get_finished SSL_get_finished
#define __real_SSL_get_peer_finished SSL_get_peer_finished
#define __real_SSL_CTX_set_default_verify_paths SSL_CTX_set_default_verify_paths

void __wrap_abort(void)
{
    fprintf(stderr, "\nMC-ABORT: abort() called by the library\n");
    if (mc::tracing())
        printf("FAIL key=abort :: abort() called by the library\n");
    fflush(stdout);
    _exit(98);
}
void __wrap___assert_fail(const char *e, const char *f, unsigned, const char *fn)
{
    const char *b = strrchr(f, '/');
    fprintf(stderr, "\nMC-ABORT: assert %s in %s (%s)\n", e, fn,
            b ? b + 1 : f);
    if (mc::tracing())
        printf("FAIL key=abort:assert %s in %s :: assertion\n", e, fn);
    fflush(stdout);
    _exit(98);
}
int __wrap_gettimeofday(struct timeval *tv, void *)
{
    mc::tick();
    tv->tv_sec = W->now_us / 1000000;
    tv->tv_usec = W->now_us % 1000000;
    return 0;
}
int __wrap_clock_gettime(clockid_t, struct timespec *ts)
{
    mc::tick();
    ts->tv_sec = W->now_us / 1000000;
    ts->tv_nsec = (W->now_us % 1000000) * 1000;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    time_t r = W->now_us / 1000000;
    if (t)
        *t = r;
    return r;
}
int __wrap_usleep(useconds_t us)
{
    mc::tick();
    W->now_us += us;
    return 0;
}
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned)
{
    W->rnd_calls++;
    unsigned char *p = (unsigned char *)buf;
    for (size_t i = 0; i < n; i++) {
        W->rnd ^= W->rnd << 13;
        W->rnd ^= W->rnd >> 7;
        W->rnd ^= W->rnd << 17;
        p[i] = W->rnd >> 33;
    }
    return n;
}
int __wrap_socket(int family, int, int)
{
    int fd = W->next_fd++;
    Sock s;
    s.fd = fd;
    s.id = W->nsock++;
    (void)family;
    W->socks[fd] = s;
    return fd;
}
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_getsockopt(int fd, int level, int name, void *v, socklen_t *l)
{
    Sock *s = sock(fd);
    if (s && level == SOL_SOCKET && name == SO_ERROR && *l >= sizeof(int)) {
        *(int *)v = s->st == Sock::FAILED ? s->err : 0;
        return 0;
    }
    errno = EBADF;
    return -1;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    Sock *s = sock(fd);
    if (s) {
        if (cmd == F_GETFL)
            return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
        if (cmd == F_SETFL)
            s->nonblock = (a & O_NONBLOCK) != 0;
        return 0;
    }
    return __real_fcntl(fd, cmd, a);
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t)
{
    mc::tick();
    Sock *s = sock(fd);
    if (!s || !s->open) {
        errno = EBADF;
        return -1;
    }
    char b[64] = "";
    if (sa->sa_family == AF_INET) {
        inet_ntop(AF_INET, &((struct sockaddr_in *)sa)->sin_addr, b, sizeof b);
        s->port = ntohs(((struct sockaddr_in *)sa)->sin_port);
    } else if (sa->sa_family == AF_INET6) {
        inet_ntop(AF_INET6, &((struct sockaddr_in6 *)sa)->sin6_addr, b,
                  sizeof b);
        s->port = ntohs(((struct sockaddr_in6 *)sa)->sin6_port);
    }
    s->addr = b;
    W->connects.push_back({s->addr, s->port});
    W->connect_fds.push_back(fd);
    if (!s->nonblock)
        mc::fail("socket:blocking", "connect() on a blocking socket");
    ConnResult r = W->on_connect ? W->on_connect(s->addr, s->port) : C_OK;
    s->plan = r;
    mc::trace("  connect %s port %d -> plan %d", b, s->port, (int)r);
    if (r == C_REFUSED_SYNC) {
        s->st = Sock::FAILED;
        s->err = errno = W->refused;
        return -1;
    }
    if (r == C_OK_SYNC) {
        s->st = Sock::ESTAB;
        return 0;
    }
    s->st = Sock::CONNECTING;
    s->ready_at =
        now_ms() + (W->connect_delay ? W->connect_delay(s->addr, s->port) : 0);
    errno = EINPROGRESS;
    return -1;
}
int __wrap_fcntl64(int fd, int cmd, long a)
{
    return __wrap_fcntl(fd, cmd, a);
}
int __wrap_close(int fd)
{
    mc::tick();
    Sock *s = sock(fd);
    if (!s) {
        if (fd < 0 || (W && W->virtual_fds_only && fd >= 40)) {
            if (W)
                W->foreign_close++;
            errno = EBADF;
            return -1;
        }
        return __real_close(fd);
    }
    if (!s->open) {
        W->double_close++;
        mc::fail("socket:double-close",
                 "file descriptor of socket #%d closed twice", s->id);
        errno = EBADF;
        return -1;
    }
    mc::trace("  close socket #%d", s->id);
    s->open = false;
    return 0;
}
static void settle(Sock &s)
{
    if (s.rt)
        rt_pump(s);
    if (s.st == Sock::CONNECTING && now_ms() >= s.ready_at) {
        if (s.plan == C_OK)
            s.st = Sock::ESTAB;
        else if (s.plan == C_REFUSED) {
            s.st = Sock::FAILED;
            s.err = W->refused;
        }
    }
}
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
    Sock *s = sock(fd);
    if (!s || !s->open) {
        errno = EBADF;
        return -1;
    }
    settle(*s);
    if (s->st != Sock::ESTAB) {
        errno = ENOTCONN;
        return -1;
    }
    memset(sa, 0, *len < 16 ? *len : 16);
    sa->sa_family = AF_INET;
    return 0;
}
ssize_t __wrap_recv(int fd, void *buf, size_t len, int flags)
{
    mc::tick();
    Sock *s = sock(fd);
    if (!s)
        return __real_recv(fd, buf, len, flags);
    if (!s->open) {
        mc::fail("socket:use-after-close", "recv() on a closed socket");
        errno = EBADF;
        return -1;
    }
    if (s->st != Sock::ESTAB) {
        errno = s->st == Sock::FAILED ? s->err : ENOTCONN;
        return -1;
    }
    bool closed;
    if (s->rt && !s->rt->s2c.empty()) {
        s->in.insert(s->in.begin(), s->rt->s2c);
        s->rt->s2c.clear();
    }
    ssize_t r = sock_take(*s, buf, len, CLEAR, closed);
    if (r > 0)
        mc::trace("  recv %zd: %s", r,
                  mc::printable(std::string((char *)buf, r)).c_str());
    else
        mc::trace("  recv -> %zd errno %d", r, errno);
    return r;
}
ssize_t __wrap_send(int fd, const void *buf, size_t len, int flags)
{
    mc::tick();
    Sock *s = sock(fd);
    if (!s)
        return __real_send(fd, buf, len, flags);
    if (!s->open) {
        mc::fail("socket:use-after-close", "send() on a closed socket");
        errno = EBADF;
        return -1;
    }
    ssize_t r = sock_put(*s, buf, len, CLEAR);
    int e = errno;
    if (r >= 0)
        mc::trace("  send %zd of %zu: %s", r, len,
                  mc::printable(std::string((char *)buf, r)).c_str());
    else
        mc::trace("  send %zu -> errno %d", len, e);
    errno = e;
    return r;
}
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    mc::tick();
    W->selects++;
    if (W->select_result) {
        int x = W->select_result();
        if (x < 0) {
            errno = -x;
            return -1;
        }
    }
    fd_set ro, wo;
    int n = 0;
    uint64_t end = tv ? W->now_us + tv->tv_sec * 1000000ull + tv->tv_usec : 0;
    for (;;) {
        n = 0;
        if (W->on_select)
            W->on_select();
        FD_ZERO(&ro);
        FD_ZERO(&wo);
        uint64_t wake = W->next_event ? W->next_event() * 1000 : 0;
        for (int fd = 0; fd < nfds; fd++) {
            bool wr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w);
            if (!wr && !ww)
                continue;
            Sock *s = sock(fd);
            if (!s || !s->open) {
                mc::fail("select:bad-fd", "select() watches a descriptor that "
                                          "is not an open socket");
                errno = EBADF;
                return -1;
            }
            settle(*s);
            if (s->st == Sock::CONNECTING && s->plan != C_SILENT &&
                (!wake || s->ready_at * 1000 < wake))
                wake = s->ready_at * 1000;
            bool rd = s->st == Sock::ESTAB && has_input(*s);
            bool wt = s->st == Sock::ESTAB || s->st == Sock::FAILED;
            if (s->st == Sock::FAILED)
                rd = true;
            if (wr && rd) {
                FD_SET(fd, &ro);
                n++;
            }
            if (ww && wt) {
                FD_SET(fd, &wo);
                n++;
            }
        }
        // nothing yet: sleep until the next event or the timeout
        if (n || !tv)
            break;
        if (wake > W->now_us && wake <= end) {
            W->now_us = wake;
            mc::tick();
            continue;
        }
        W->now_us = end;
        break;
    }
    if (r)
        *r = ro;
    if (w)
        *w = wo;
    if (e)
        FD_ZERO(e);
    return n;
}
// ------------------------------------------------------------------ DNS
int __wrap_res_query(const char *name, int, int, unsigned char *ans, int anslen)
{
    W->res_queries.push_back(name);
    mc::trace("  res_query %s", name);
    if (!W->on_srv)
        return -1;
    DnsAnswer a = W->on_srv(name);
    if (a.fail)
        return -1;
    int n = a.packet.size();
    memcpy(ans, a.packet.data(), n < anslen ? n : anslen);
    return n;
}
int __wrap___res_query(const char *name, int c, int t, unsigned char *ans,
                       int anslen)
{
    return __wrap_res_query(name, c, t, ans, anslen);
}
int __wrap_getaddrinfo(const char *host, const char *service,
                       const struct addrinfo *, struct addrinfo **res)
{
    int port = service ? atoi(service) : 0;
    W->gai_queries.push_back(mc::fmt("%s:%s", host, service ? service : ""));
    std::vector<std::string> v;
    if (W->on_gai)
        v = W->on_gai(host, port);
    else
        v.push_back("192.0.2.1");
    Own own;
    mc::trace("  getaddrinfo %s %s -> %zu addresses", host, service, v.size());
    *res = nullptr;
    if (v.empty())
        return EAI_NONAME;
    struct addrinfo **tail = res;
    for (auto &a : v) {
        struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai);
        struct sockaddr_storage *ss =
            (struct sockaddr_storage *)calloc(1, sizeof *ss);
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        ai->ai_addr = (struct sockaddr *)ss;
        if (a.find(':') != std::string::npos) {
            struct sockaddr_in6 *s6 = (struct sockaddr_in6 *)ss;
            s6->sin6_family = AF_INET6;
            s6->sin6_port = htons(port);
            inet_pton(AF_INET6, a.c_str(), &s6->sin6_addr);
            ai->ai_family = AF_INET6;
            ai->ai_addrlen = sizeof *s6;
        } else {
            struct sockaddr_in *s4 = (struct sockaddr_in *)ss;
            s4->sin_family = AF_INET;
            s4->sin_port = htons(port);
            inet_pton(AF_INET, a.c_str(), &s4->sin_addr);
            ai->ai_family = AF_INET;
            ai->ai_addrlen = sizeof *s4;
        }
        *tail = ai;
        tail = &ai->ai_next;
    }
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *ai)
{
    while (ai) {
        struct addrinfo *n = ai->ai_next;
        free(ai->ai_addr);
        free(ai);
        ai = n;
    }
}
// ------------------------------------------------------------------ TLS
static Sock *sslsock(const SSL *s)
{
    auto i = ssl_fd->find((SSL *)s);
    if (i == ssl_fd->end())
        return nullptr;
    return sock(i->second);
}
int __wrap_SSL_set_fd(SSL *s, int fd)
{
    if (is_sim(fd))
        (*ssl_fd)[s] = fd;
    int r = __real_SSL_set_fd(s, fd);
    if (r == 1 && rt_sock(s)) {
        Own own;
        BIO *b = BIO_new(rb_method());
        BIO_set_data(b, rt_sock(s));
        SSL_set_bio(s, b, b);
    }
    return r;
}
void __wrap_SSL_free(SSL *s)
{
    if (ssl_fd)
        ssl_fd->erase(s);
    if (ssl_err)
        ssl_err->erase(s);
    if (ssl_pend)
        ssl_pend->erase(s);
    if (ssl_att)
        ssl_att->erase(s);
    __real_SSL_free(s);
}
int __wrap_SSL_connect(SSL *s)
{
    mc::tick();
    Sock *k = sslsock(s);
    if (!k)
        return __real_SSL_connect(s);
    if (rt_sock(s))
        return rt_call(s, k, "SSL_connect", [&] { return SSL_connect(s); });
    int att = (*ssl_att)[s]++;
    int r = W->on_handshake ? W->on_handshake(*k, att) : 1;
    mc::trace("  TLS handshake on socket #%d -> %d", k->id, r);
    if (!k->open)
        r = 0;
    if (r == 1) {
        k->tls = true;
        (*ssl_err)[s] = SSL_ERROR_NONE;
        return 1;
    }
    if (r < 0) {
        (*ssl_err)[s] = SSL_ERROR_WANT_READ;
        return -1;
    }
    k->tls_failed = true;
    (*ssl_err)[s] = SSL_ERROR_SSL;
    return -1;
}
int __wrap_SSL_do_handshake(SSL *s) { return __wrap_SSL_connect(s); }
int __wrap_SSL_read(SSL *s, void *buf, int len)
{
    mc::tick();
    Sock *k = sslsock(s);
    if (!k)
        return __real_SSL_read(s, buf, len);
    if (rt_sock(s))
        return rt_call(s, k, "SSL_read",
                       [&] { return SSL_read(s, buf, len); });
    if (!k->open || !k->tls) {
        (*ssl_err)[s] = SSL_ERROR_SYSCALL;
        errno = EBADF;
        return -1;
    }
    if (k->tls_plain.empty() && !k->in.empty()) {
        // a whole record is taken from the network and decrypted
        if (W->on_read) {
            int r = W->on_read(*k, len, TLS);
            if (r < 0) {
                (*ssl_err)[s] =
                    -r == EAGAIN || -r == EINTR ? SSL_ERROR_WANT_READ : SSL_ERROR_SYSCALL;
                errno = -r;
                return -1;
            }
        }
        k->tls_plain = k->in.front();
        k->in.erase(k->in.begin());
    }
    if (!k->tls_plain.empty()) {
        int n = std::min<size_t>(len, k->tls_plain.size());
        memcpy(buf, k->tls_plain.data(), n);
        k->tls_plain.erase(0, n);
        (*ssl_err)[s] = SSL_ERROR_NONE;
        mc::trace("  tls recv %d: %s", n,
                  mc::printable(std::string((char *)buf, n)).c_str());
        return n;
    }
    if (k->rst) {
        errno = k->rst;
        (*ssl_err)[s] = SSL_ERROR_SYSCALL;
        return -1;
    }
    if (k->eof) {
        errno = 0;
        (*ssl_err)[s] =
            k->peer_close_notify ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SSL;
        mc::trace("  tls recv: closed");
        return 0;
    }
    (*ssl_err)[s] = SSL_ERROR_WANT_READ;
    errno = EAGAIN;
    return -1;
}
int __wrap_SSL_write(SSL *s, const void *buf, int len)
{
    mc::tick();
    Sock *k = sslsock(s);
    if (!k)
        return __real_SSL_write(s, buf, len);
    if (rt_sock(s))
        return rt_call(s, k, "SSL_write",
                       [&] { return SSL_write(s, buf, len); });
    if (!k->open || !k->tls) {
        (*ssl_err)[s] = SSL_ERROR_SYSCALL;
        errno = EBADF;
        return -1;
    }
    auto pi = ssl_pend->find(s);
    std::string pending;
    if (pi != ssl_pend->end()) {
        if ((size_t)len < pi->second.data.size() ||
            (buf != pi->second.buf &&
             !(SSL_get_mode(s) & SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER))) {
            mc::trace("  tls send %d: bad write retry", len);
            (*ssl_err)[s] = SSL_ERROR_SSL;
            errno = 0;
            return -1;
        }
        pending = pi->second.data;
    }
    int r = pending.empty()
                ? sock_put(*k, (const char *)buf, len, TLS)
                : sock_put(*k, pending.data(), pending.size(), TLS);
    if (r >= 0)
        ssl_pend->erase(s);
    else if ((errno == EAGAIN || errno == EINTR) && pending.empty())
        (*ssl_pend)[s] = {buf, std::string((const char *)buf, len)};
    if (r < 0) {
        (*ssl_err)[s] =
            errno == EAGAIN || errno == EINTR ? SSL_ERROR_WANT_WRITE : SSL_ERROR_SYSCALL;
        mc::trace("  tls send %d -> errno %d", len, errno);
        return -1;
    }
    (*ssl_err)[s] = SSL_ERROR_NONE;
    mc::trace("  tls send %d of %d: %s", r, len,
              mc::printable(std::string((char *)buf, r)).c_str());
    return r;
}
int __wrap_SSL_read_ex(SSL *s, void *buf, size_t len, size_t *n)
{
    int r = __wrap_SSL_read(s, buf, len);
    *n = r > 0 ? r : 0;
    return r > 0;
}
int __wrap_SSL_write_ex(SSL *s, const void *buf, size_t len, size_t *n)
{
    int r = __wrap_SSL_write(s, buf, len);
    *n = r > 0 ? r : 0;
    return r > 0;
}
int __wrap_SSL_pending(const SSL *s)
{
    Sock *k = sslsock(s);
    if (!k || rt_sock(s))
        return __real_SSL_pending(s);
    return k->tls_plain.size();
}
int __wrap_SSL_has_pending(const SSL *s) { return __wrap_SSL_pending(s) > 0; }
int __wrap_SSL_get_error(const SSL *s, int ret)
{
    Sock *k = sslsock(s);
    if (!k || rt_sock(s))
        return __real_SSL_get_error(s, ret);
    if (ret > 0)
        return SSL_ERROR_NONE;
    return (*ssl_err)[(SSL *)s];
}
int __wrap_SSL_shutdown(SSL *s)
{
    mc::tick();
    Sock *k = sslsock(s);
    if (!k)
        return __real_SSL_shutdown(s);
    if (rt_sock(s))
        return rt_call(s, k, "SSL_shutdown", [&] { return SSL_shutdown(s); });
    k->tls_close_notify = true;
    (*ssl_err)[s] = SSL_ERROR_NONE;
    return 1;
}
long __wrap_SSL_get_verify_result(const SSL *s)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_get_verify_result(s);
    return X509_V_OK;
}
int __wrap_SSL_version(const SSL *s)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_version(s);
    return W->tls_version;
}
int __wrap_SSL_session_reused(const SSL *s)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_session_reused(s);
    return W->tls_reused;
}
static void cbfill(unsigned char *o, size_t n, int base)
{
    for (size_t i = 0; i < n; i++)
        o[i] = base + i;
}
int __wrap_SSL_export_keying_material(SSL *s, unsigned char *o, size_t n,
                                      const char *l, size_t ll,
                                      const unsigned char *c, size_t cl, int u)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_export_keying_material(s, o, n, l, ll, c, cl, u);
    cbfill(o, n, 0x80 + (ll ? l[0] : 0));
    return 1;
}
size_t __wrap_SSL_get_finished(const SSL *s, void *b, size_t n)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_get_finished(s, b, n);
    if (n > 12)
        n = 12;
    cbfill((unsigned char *)b, n, 0x20);
    return n;
}
size_t __wrap_SSL_get_peer_finished(const SSL *s, void *b, size_t n)
{
    if (!sslsock(s) || rt_sock(s))
        return __real_SSL_get_peer_finished(s, b, n);
    if (n > 12)
        n = 12;
    cbfill((unsigned char *)b, n, 0x60);
    return n;
}
int __wrap_SSL_CTX_set_default_verify_paths(SSL_CTX *c)
{
    if (W && !W->sys_ca.empty()) {
        SSL_CTX_load_verify_locations(c, W->sys_ca.c_str(), nullptr);
        return 1;
    }
    if (W && W->virtual_fds_only)
        return 1;
    return __real_SSL_CTX_set_default_verify_paths(c);
}
}
