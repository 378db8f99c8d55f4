/* A scripted XMPP server on the loopback interface for demonstrations. */
#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <strophe.h>

#define HDR                                                                     \
    "<?xml version='1.0'?><stream:stream xmlns='jabber:client' "               \
    "xmlns:stream='http://etherx.jabber.org/streams' from='example.org' "      \
    "id='s1' version='1.0'>"
#define FEAT(x) "<stream:features>" x "</stream:features>"
#define MECH(x)                                                                 \
    "<mechanisms xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><mechanism>" x        \
    "</mechanism></mechanisms>"
#define MECH2(x, y)                                                             \
    "<mechanisms xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><mechanism>" x        \
    "</mechanism><mechanism>" y "</mechanism></mechanisms>"
#define STARTTLS "<starttls xmlns='urn:ietf:params:xml:ns:xmpp-tls'/>"
#define PROCEED "<proceed xmlns='urn:ietf:params:xml:ns:xmpp-tls'/>"
#define SUCCESS "<success xmlns='urn:ietf:params:xml:ns:xmpp-sasl'/>"
#define SASLFAIL                                                                \
    "<failure xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><not-authorized/>"       \
    "</failure>"
#define BIND "<bind xmlns='urn:ietf:params:xml:ns:xmpp-bind'/>"
#define SESSION "<session xmlns='urn:ietf:params:xml:ns:xmpp-session'/>"
#define SM "<sm xmlns='urn:xmpp:sm:3'/>"
#define ZLIB                                                                    \
    "<compression xmlns='http://jabber.org/features/compress'><method>zlib"     \
    "</method></compression>"
#define BOUND                                                                   \
    "<iq type='result' id='_xmpp_bind1'><bind "                                 \
    "xmlns='urn:ietf:params:xml:ns:xmpp-bind'><jid>user@example.org/r</jid>"    \
    "</bind></iq>"
#define ENABLED "<enabled xmlns='urn:xmpp:sm:3' id='sm1' resume='true'/>"

/* Wait until the client sent `expect` (after what was matched before), then
 * send `reply`. Special replies: close, starttls (handshake as server),
 * accept (close and wait for the next connection); wait: milliseconds before
 * the reply. */
struct step {
    const char *expect;
    const char *reply;
    int wait;
    const char *special;
};
struct peer {
    struct step *s;
    int n, port, lfd, fd;
    pthread_t t;
    pthread_mutex_t m;
    char *rx; /* everything received, decrypted */
    size_t rxlen, seen;
    int pos, tls_at; /* rx offset where TLS began, -1 */
    SSL_CTX *ctx;
    SSL *ssl;
    const char *cert, *key;
    volatile int stop, conns;
};
static long long now_ms(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
}
static void peer_send(struct peer *p, const char *b, size_t n)
{
    if (p->ssl)
        SSL_write(p->ssl, b, n);
    else
        while (n) {
            ssize_t r = send(p->fd, b, n, MSG_NOSIGNAL);
            if (r <= 0)
                break;
            b += r;
            n -= r;
        }
}
static int peer_recv(struct peer *p)
{
    char b[4096];
    int r;
    struct pollfd f = {p->fd, POLLIN, 0};
    if (!(p->ssl && SSL_pending(p->ssl)) && poll(&f, 1, 20) <= 0)
        return 0;
    r = p->ssl ? SSL_read(p->ssl, b, sizeof b) : recv(p->fd, b, sizeof b, 0);
    if (r <= 0)
        return -1;
    pthread_mutex_lock(&p->m);
    p->rx = realloc(p->rx, p->rxlen + r + 1);
    memcpy(p->rx + p->rxlen, b, r);
    p->rxlen += r;
    p->rx[p->rxlen] = 0;
    pthread_mutex_unlock(&p->m);
    return r;
}
static void peer_drop(struct peer *p)
{
    if (p->ssl) {
        SSL_free(p->ssl);
        p->ssl = NULL;
    }
    if (p->fd >= 0)
        close(p->fd);
    p->fd = -1;
}
static void *peer_main(void *arg)
{
    struct peer *p = arg;
    while (!p->stop) {
        if (p->fd < 0) {
            struct pollfd f = {p->lfd, POLLIN, 0};
            if (poll(&f, 1, 20) <= 0)
                continue;
            p->fd = accept(p->lfd, NULL, NULL);
            p->conns++;
            p->seen = p->rxlen;
            continue;
        }
        if (p->pos < p->n) {
            struct step *s = &p->s[p->pos];
            char *h = p->rx ? strstr(p->rx + p->seen, s->expect) : NULL;
            if (!*s->expect || h) {
                if (h)
                    p->seen = h - p->rx + strlen(s->expect);
                if (s->wait)
                    usleep(s->wait * 1000);
                if (s->reply)
                    peer_send(p, s->reply, strlen(s->reply));
                p->pos++;
                if (s->special && !strcmp(s->special, "close"))
                    peer_drop(p);
                if (s->special && !strcmp(s->special, "starttls")) {
                    p->ssl = SSL_new(p->ctx);
                    SSL_set_fd(p->ssl, p->fd);
                    p->tls_at = p->rxlen;
                    p->seen = p->rxlen;
                    if (SSL_accept(p->ssl) != 1)
                        peer_drop(p);
                }
                continue;
            }
        }
        if (peer_recv(p) < 0)
            peer_drop(p);
    }
    peer_drop(p);
    return NULL;
}
static void peer_start(struct peer *p, struct step *s, int n)
{
    struct sockaddr_in a;
    socklen_t l = sizeof a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    p->s = s;
    p->n = n;
    p->fd = -1;
    p->tls_at = -1;
    p->lfd = socket(AF_INET, SOCK_STREAM, 0);
    bind(p->lfd, (struct sockaddr *)&a, sizeof a);
    listen(p->lfd, 5);
    getsockname(p->lfd, (struct sockaddr *)&a, &l);
    p->port = ntohs(a.sin_port);
    if (p->cert) {
        p->ctx = SSL_CTX_new(TLS_server_method());
        SSL_CTX_use_certificate_chain_file(p->ctx, p->cert);
        SSL_CTX_use_PrivateKey_file(p->ctx, p->key, SSL_FILETYPE_PEM);
    }
    pthread_mutex_init(&p->m, NULL);
    pthread_create(&p->t, NULL, peer_main, p);
}
static void peer_stop(struct peer *p)
{
    p->stop = 1;
    pthread_join(p->t, NULL);
    close(p->lfd);
}
/* what the client sent so far contains s */
static int peer_got(struct peer *p, const char *s)
{
    int r;
    pthread_mutex_lock(&p->m);
    r = p->rx && strstr(p->rx, s) != NULL;
    pthread_mutex_unlock(&p->m);
    return r;
}
static int peer_count(struct peer *p, const char *s)
{
    int r = 0;
    char *h;
    pthread_mutex_lock(&p->m);
    for (h = p->rx; h && (h = strstr(h, s)); h++)
        r++;
    pthread_mutex_unlock(&p->m);
    return r;
}
/* --- client side bookkeeping */
static int n_connect, n_disconnect, last_error, se_type = -1;
static void on_conn(xmpp_conn_t *c, xmpp_conn_event_t e, int error,
                    xmpp_stream_error_t *se, void *ud)
{
    (void)c;
    (void)ud;
    if (e == XMPP_CONN_CONNECT || e == XMPP_CONN_RAW_CONNECT)
        n_connect++;
    if (e == XMPP_CONN_DISCONNECT) {
        n_disconnect++;
        last_error = error;
        se_type = se ? (int)se->type : -1;
    }
}
static void run_ms(xmpp_ctx_t *ctx, int ms)
{
    long long end = now_ms() + ms;
    while (now_ms() < end)
        xmpp_run_once(ctx, 10);
}
#define RUN_UNTIL(ctx, cond, ms)                                                \
    do {                                                                        \
        long long end_ = now_ms() + (ms);                                       \
        while (!(cond) && now_ms() < end_)                                      \
            xmpp_run_once(ctx, 10);                                             \
    } while (0)
#define CHECK(c)                                                                \
    do {                                                                        \
        if (!(c)) {                                                             \
            printf("FAILED line %d: %s\n", __LINE__, #c);                       \
            exit(1);                                                            \
        }                                                                       \
    } while (0)
