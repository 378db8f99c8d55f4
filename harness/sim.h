// Simulated environment: sockets, clock, DNS, randomness, TLS record layer and
// the application's allocator. All of it is per execution (sim::reset()).
#pragma once
#include "mc.h"
#include "strophe.h"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <openssl/types.h>
#include <set>
#include <cerrno>
#include <string>
#include <unordered_map>
#include <sys/socket.h>
#include <vector>

namespace sim {

enum Layer { CLEAR = 0, TLS = 1 };
struct Seg {
    Layer layer;
    std::string data;
    uint64_t t_ms;
};
// a real TLS peer: an OpenSSL server inside the process, see World::real_tls
struct RealTls {
    SSL *ssl = nullptr; // the server's session
    std::string s2c;    // its records on their way to the client
    size_t frag = 0;    // bytes the client gets per call, 0: all
    long cut = -1;      // so many bytes arrive, then the transport closes
    long flip = -1;     // the byte that is changed on the way
    int mask = 1;
    size_t arrived = 0, made = 0, from_client = 0;
    int token = 0;
    int stalled = 0;     // calls without progress
    size_t progress = 0; // at the last call
    bool eof_on_fail = true;
    bool accepted = false, failed = false;
    std::string app; // application data the server decrypted
    ~RealTls();
};
enum ConnResult { C_OK, C_OK_SYNC, C_REFUSED_SYNC, C_REFUSED, C_SILENT };

struct Sock {
    int fd = -1;
    int id = 0; // ordinal of the socket
    bool open = true;
    enum St { NEW, CONNECTING, ESTAB, FAILED } st = NEW;
    ConnResult plan = C_OK;
    uint64_t ready_at = 0; // ms when the outcome becomes visible
    int err = 0;
    std::string addr;
    int port = 0;
    bool nonblock = false;
    // peer -> client: list of network chunks; one recv returns at most one
    std::vector<std::string> in;
    bool eof = false;
    int rst = 0; // errno returned by recv/send after pending input
    // client -> peer
    std::vector<Seg> out;
    size_t out_total = 0;
    // tls
    bool tls = false;       // session up
    bool tls_failed = false;
    std::string tls_plain;  // decrypted, not yet handed out
    bool tls_close_notify = false;
    bool peer_close_notify = false;
    std::shared_ptr<RealTls> rt;
    size_t clear_at_tls = 0; // cleartext bytes sent before the handshake
    std::string out_since(Layer l, size_t from = 0) const;
};

struct DnsAnswer {
    bool fail = true;
    std::string packet;
};

struct World {
    uint64_t now_us = 0;
    int next_fd = 40;
    int nsock = 0;
    std::map<int, Sock> socks;
    std::vector<std::pair<std::string, int>> connects; // (addr,port) log
    std::vector<int> connect_fds;
    uint64_t rnd = 0x9e3779b97f4a7c15ull;
    uint64_t rnd_calls = 0;
    int double_close = 0, foreign_close = 0;
    std::vector<std::string> res_queries, gai_queries;
    uint64_t selects = 0;
    // policies (all optional)
    std::function<ConnResult(const std::string &addr, int port)> on_connect;
    // how many of n bytes the transport takes: >0 bytes, or -errno
    std::function<int(Sock &, const char *, size_t, Layer)> on_write;
    // largest number of bytes returned by this read, or -errno
    std::function<int(Sock &, size_t, Layer)> on_read;
    std::function<void()> on_select; // peer's turn
    // ms after which the outcome of connect() becomes visible
    std::function<uint64_t(const std::string &addr, int port)> connect_delay;
    int refused = ECONNREFUSED; // errno of refused connects
    // time (ms) of the peer's next scheduled action, 0: none
    std::function<uint64_t()> next_event;
    std::function<int()> select_result; // 0: normal, -errno
    std::function<DnsAnswer(const std::string &)> on_srv;
    // addresses (numeric strings) for a host
    std::function<std::vector<std::string>(const std::string &host, int port)>
        on_gai;
    // TLS handshake result: 1 ok, 0 fatal error, -1 want read (not yet)
    std::function<int(Sock &, int attempt)> on_handshake;
    int tls_version = 0x0304;
    bool tls_reused = false;
    // when set, the library talks to real sessions made by this function
    std::function<std::shared_ptr<RealTls>(Sock &)> real_tls;
    std::string sys_ca; // file standing in for the system's trust store
    bool virtual_fds_only = true;
    std::vector<std::string> notes;
};
extern World *W;

void reset();
uint64_t now_ms();
void advance(uint64_t ms);
Sock *sock(int fd);
Sock *last_sock(); // the most recently connected socket
void deliver(Sock &s, const std::string &data); // one network chunk
bool has_input(Sock &s);

// --- allocator -----------------------------------------------------------
struct Alloc {
    xmpp_mem_t mem;
    struct Block {
        size_t size;
        uint64_t serial;
    };
    std::unordered_map<void *, Block> live;
    uint64_t count = 0;
    int fill = 0xA5;
    int bad_free = 0;
    std::string first_bad;
    static int depth; // calls in progress
    bool inside = false;
    size_t bytes = 0;
    Alloc();
    ~Alloc();
    void report_leaks(const char *key);
};

// the harness is at work: what it allocates is its own business
struct Own {
    Own() { Alloc::depth++; }
    ~Own() { Alloc::depth--; }
};

// log handler that forces formatting of every message
extern const xmpp_log_t quiet_log;
extern std::string last_log_error;
} // namespace sim
