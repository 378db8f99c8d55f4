// Client wrapper and scripted XMPP server shared by the connection checks.
#pragma once
#include "sasl_ref.h"
#include "sim.h"
#include "xml.h"
#include <zlib.h>

namespace world {
using sim::Sock;

std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));

#define NS_TLS_ "urn:ietf:params:xml:ns:xmpp-tls"
#define NS_SASL_ "urn:ietf:params:xml:ns:xmpp-sasl"
#define NS_BIND_ "urn:ietf:params:xml:ns:xmpp-bind"
#define NS_SESSION_ "urn:ietf:params:xml:ns:xmpp-session"
#define NS_STREAM_ "http://etherx.jabber.org/streams"
#define NS_SM_ "urn:xmpp:sm:3"
#define NS_COMPF_ "http://jabber.org/features/compress"
#define NS_COMP_ "http://jabber.org/protocol/compress"
#define NS_STANZAS_ "urn:ietf:params:xml:ns:xmpp-stanzas"
#define NS_STREAMERR_ "urn:ietf:params:xml:ns:xmpp-streams"

// ------------------------------------------------------------------ client
struct Note {
    int event = 0, error = 0;
    bool se = false;
    int se_type = 0;
    bool se_has_text = false;
    std::string se_text, se_stanza;
    uint64_t t = 0;
    bool secured = false;
    int conn_no = 0;
    const char *name() const;
};

Node node_of(xmpp_stanza_t *s);             // through the public accessors
xmpp_stanza_t *stanza_of(xmpp_ctx_t *, const Node &n, const char *parent_ns);

struct Client {
    sim::Alloc *al = nullptr; // when the tracking allocator is in use
    xmpp_ctx_t *ctx = nullptr;
    xmpp_conn_t *conn = nullptr;
    std::vector<Note> notes;
    std::function<void(const Note &)> on_note;
    std::vector<std::pair<Node, uint64_t>> stanzas; // catch-all handler's log
    bool lifecycle = true; // check the notification automaton
    int attempts = 0;      // accepted connection attempts
    bool open = false;     // an attempt is running
    bool up = false;       // connected was reported in this attempt
    bool raw = false;
    uint64_t iterations = 0;

    static bool track_all; // every client uses the tracking allocator
    explicit Client(bool track_alloc = false, bool make_conn = true);
    ~Client();
    // wire events only
    int connect(const char *altdomain = nullptr, unsigned short port = 0);
    int connect_component(const char *server, unsigned short port = 0);
    int connect_raw(const char *altdomain = nullptr, unsigned short port = 0);
    void step(unsigned long timeout = 0);
    void steps(int n, unsigned long timeout = 0);
    // run until nothing more happens (or max iterations)
    void settle(int max = 60);
    // virtual time passes: iterations with the given timeout until t ms later
    void run_for(uint64_t ms, unsigned long slice = 1000);
    void observe(const char *where); // state predicates vs notifications
    void catch_all();
    void release(); // connection and context
    void release_conn();
    void send_xml(const std::string &xml); // xmpp_send of a parsed stanza
    bool connected() { return conn && xmpp_conn_is_connected(conn); }
    bool disconnected() { return !conn || xmpp_conn_is_disconnected(conn); }
    int count(int ev, int conn_no = -1) const;
    const Note *last() const { return notes.empty() ? nullptr : &notes.back(); }
    int queue_len() { return xmpp_conn_send_queue_len(conn); }
    static void handler(xmpp_conn_t *, xmpp_conn_event_t, int,
                        xmpp_stream_error_t *, void *);
};

// ------------------------------------------------------------------ server
enum Step {
    S_OPEN,
    S_STARTTLS,
    S_AUTH,
    S_RESPONSE,
    S_COMPRESS,
    S_BIND,
    S_SESSION,
    S_LEGACY,
    S_HANDSHAKE,
    S_SM_ENABLE,
    S_SM_RESUME,
    S_R,
    S_A,
    S_STANZA,
    S_CLOSE,
    S_OTHER,
    S_ERR,
    S_NSTEPS
};
const char *step_name(Step);

struct Msg {
    Step step;
    Node node;
    std::string raw;
    int layer = 0;  // CLEAR/TLS
    int stream = 0; // number of the stream on this connection (from 1)
    uint64_t t = 0;
    bool compressed = false;
    int conn_no = 0; // socket ordinal
    size_t at = 0;   // position in the global log
};

struct Cfg {
    bool starttls = false;
    std::vector<std::string> mechs{"PLAIN"};
    bool mechs_tls_differ = false;
    std::vector<std::string> mechs_tls;
    bool features = true; // version 1.0 server
    bool bind = true, session = false, session_optional = false;
    bool sm = false, sm_resume = true, compress = false;
    bool component = false;
    std::string domain = "example.org";
    std::string sid = "s1";
    std::string pass = "secret";
    int iter = 2;
    std::string salt = "salt";
    bool sync_close = true; // answer </stream:stream>
    bool auto_ack = true;   // answer <r/>
    bool coalesce = false;  // stream header and features in one chunk
    bool pi = true;         // XML declaration before the stream header
};

struct SmSession {
    uint32_t h = 0;          // client stanzas handled
    std::vector<std::string> seen; // their text, in order
    uint32_t sent = 0;       // stanzas sent to the client
    uint32_t acked = 0;
    bool alive = true;
    std::string jid;
};

struct Server {
    Cfg cfg;
    std::vector<Msg> log;
    // returns true if it dealt with the message
    std::function<bool(Server &, Msg &)> intercept;
    std::function<std::vector<std::string>(const std::string &)> chunker;
    std::function<void(Server &)> on_turn; // after the pump, each select
    std::function<std::string(Server &, const std::string &def)> features_hook;
    std::function<void(const std::string &)> on_send; // XML about to be sent
    std::function<std::string(const std::string &)> mangle; // what is sent instead
    bool muted = false; // no default replies
    // --- per connection
    int fd = -1;
    int conn_no = -1;
    size_t segi = 0, segoff = 0;
    int layer = 0;
    StreamReader rd;
    int streams = 0;
    bool authed = false, bound = false, closed_sent = false, saw_close = false;
    bool comp = false; // compression active
    bool comp_next = false;
    z_stream def{}, inf{};
    bool zinit = false;
    std::string comp_plain; // everything inflated
    std::string comp_raw;
    std::string mech, scram_cfb, scram_sf, scram_gs2;
    std::string plain_all; // all decoded stream bytes of this connection
    // --- stream management
    bool sm_active = false;
    std::string sm_id;
    std::map<std::string, SmSession> sessions;
    int sm_serial = 0;
    int deflate_flush = Z_SYNC_FLUSH;
    std::vector<std::string> bad; // protocol errors seen by the server

    Server();
    ~Server();
    void install(); // as the world's peer
    void turn();
    void attach(Sock &s);
    void pump(Sock &s);
    void feed(const std::string &b, int layer, uint64_t t);
    void on_msg(Msg &m);
    void defreply(Msg &m);
    Sock *sk() { return sim::sock(fd); }
    void send(const std::string &xml); // through compression and chunker
    void send_chunks(const std::vector<std::string> &v);
    void send_raw(const std::string &bytes); // straight to the transport
    void send_stanza(const std::string &xml); // counted by SM
    void close(); // transport EOF
    void open_stream();
    std::string header() const;
    std::string features();
    std::string default_features();
    SmSession *session()
    {
        auto i = sessions.find(sm_id);
        return sm_active && i != sessions.end() ? &i->second : nullptr;
    }
    void zreset();
    std::string zdeflate(const std::string &s, int flush);
    int count(Step s, int conn_no = -1) const;
    const Msg *find(Step s, int conn_no = -1) const;
    Step classify(const Node &n) const;
};

std::vector<std::string> one_chunk(const std::string &s);
std::vector<std::string> bytes_of(const std::string &s, size_t n = 1);
} // namespace world
