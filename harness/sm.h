// Reference model of XEP-0198 for one logical client, bound to the wire, and
// the reader of persisted state blobs (C04, C05, C16).
#pragma once
#include "world.h"
#include <deque>

namespace smx {
using namespace world;

struct BlobEl {
    uint32_t h = 0;
    std::string text;
};
struct Blob {
    bool ok = false;
    uint32_t sent = 0, handled = 0;
    std::string id;
    std::vector<BlobEl> unsent, unacked;
};
Blob parse_blob(const std::string &b);
std::string build_blob(const Blob &b);

// One client application that survives reconnects, with its model.
struct Sm {
    Client *c = nullptr;
    Server srv;
    // --- outbound model
    std::deque<std::string> L; // retained: written in the session, unacked
    uint32_t base = 0;         // number of L[0]
    size_t nw = 0;             // how many of L were written on this stream
    std::vector<std::string> U; // queued by the user, not written
    bool active = false;       // numbering is on (server's view)
    bool fuzzy_ack = false;    // an acknowledgement beyond W may or may not count
    std::string bound_id;      // session the model belongs to
    // --- inbound model
    uint32_t in = 0; // stanzas delivered to the client on this session
    std::deque<uint32_t> r_exp; // h due for each unanswered <r/>
    // --- what the server answers
    std::function<void(Sm &, Msg &)> on_resume, on_enable;
    // --- bytes the transport still accepts (-1: no limit)
    long budget = -1;
    int serial = 0;
    std::string last_blob;
    bool have_blob = false;
    bool check_blobs = true;
    bool ended = false; // disconnect notified
    uint64_t connects = 0;
    std::vector<std::string> tolerate; // stanzas not under SM
    bool sm_off = false; // stream runs without SM
    bool acct_in = true; // check h in <a/>
    uint32_t resume_h = 0;
    int n_resume = 0, n_enable = 0;
    std::string jid = "user@example.org/res";

    Sm();
    ~Sm();
    void setup();       // options of a fresh connection object
    void connect();     // and settle
    void send(int kind = 0); // one user stanza
    void step();
    void settle(int n = 4) { while (n--) step(); }
    bool up() { return c->connected(); }
    uint32_t W() const { return base + (uint32_t)nw; }
    void ack(uint32_t h);             // server sends <a/>
    void ack_raw(const std::string &h); // any text, nothing released
    void release_to(uint32_t h);
    void recv(const std::string &xml, bool counted); // server -> client
    void request();                    // server sends <r/>
    void drop(xmpp_queue_element_t w);
    void lose(int kind);
    static const int NLOSE = 7;
    enum { RECONNECT, MOVE_STATE, RESTORE };
    void again(int how); // new attempt (connect() follows)
    void resumed(uint32_t h);
    void failed(const std::string &inner, const std::string &h);
    void enabled(const std::string &attrs);
    void check(const char *when);
    void on_blob(const unsigned char *b, size_t n);
    std::function<void(const std::string &)> blob_hook;
    void drain(const char *when);
    std::string el(int n) { return "<message id='" + std::to_string(n) + "'/>"; }
};
} // namespace smx
