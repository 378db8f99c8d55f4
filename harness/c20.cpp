// C20: with XEP-0138 the compressed stream carries exactly the plain one.
// Every program is run twice: without compression over a transport that takes
// everything (the reference), and with compression under an enumerated schedule.
#include "world.h"
#include <errno.h>
using namespace world;

namespace
{
// text that deflate cannot shrink below its entropy (hex digits carry 4 bits)
std::string noise(size_t n, unsigned seed)
{
    std::string s;
    uint64_t x = 88172645463325252ull ^ ((uint64_t)seed << 32);
    static const char al[] =
        "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    while (s.size() < n) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s += al[(x >> 20) & 63];
    }
    return s;
}
std::string msg(const std::string &id, const std::string &body)
{
    return "<message id='" + id + "'><body>" + body + "</body></message>";
}
struct Prog {
    bool tls = false, sm = false, dont_reset = false;
    std::vector<std::vector<std::string>> steps; // sent per loop iteration
    bool raw = false;                            // through xmpp_send_raw
    int idle = 0;                                // iterations between the steps
};
struct Out {
    std::string plain;               // from the last stream header on
    std::vector<size_t> at;          // its length after each step
    std::vector<int> queue;
    bool up = false;
};

struct Side {
    Client c;
    Server srv;
    bool comp;
    explicit Side(const Prog &p, bool compress) : comp(compress)
    {
        srv.install();
        srv.cfg.compress = true;
        srv.cfg.starttls = p.tls;
        srv.cfg.sm = p.sm;
        srv.cfg.auto_ack = false; // when to ask again depends on the answers
        xmpp_conn_set_jid(c.conn, "user@example.org/res");
        xmpp_conn_set_pass(c.conn, "secret");
        xmpp_conn_set_client_cert(c.conn, nullptr, nullptr);
        long f = 0;
        if (compress)
            f |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
        if (p.dont_reset)
            f |= XMPP_CONN_FLAG_COMPRESSION_DONT_RESET;
        if (xmpp_conn_set_flags(c.conn, f) != XMPP_EOK)
            mc::fail("harness:flags", "flags refused");
    }
    // until nothing more happens, what waits inside the library does not show
    void rest(bool until_up = false)
    {
        int quiet = 0;
        for (int i = 0; i < 400000 && quiet < 70 && !mc::failed(); i++) {
            if (until_up && c.up)
                return;
            auto total = [&]() {
                size_t n = c.notes.size() + c.stanzas.size() * 1000003;
                if (Sock *k = sim::last_sock()) {
                    n += k->out_total * 7 + k->tls_plain.size() + k->in.size();
                    if (!k->in.empty())
                        n += k->in[0].size();
                }
                return n;
            };
            size_t before = total();
            c.step(0);
            quiet = before == total() ? quiet + 1 : 0;
        }
    }
    void up()
    {
        if (c.connect("h", 5222) != XMPP_EOK)
            mc::fail("harness:connect", "connect refused");
        rest(true);
        c.settle(20000);
    }
    std::string plain()
    {
        size_t p = srv.plain_all.rfind("<?xml");
        return p == std::string::npos ? "" : srv.plain_all.substr(p);
    }
};

Out play(Side &s, const Prog &p, bool settle)
{
    Out o;
    s.up();
    o.up = s.c.up;
    if (!o.up)
        return o;
    int n = 0;
    for (auto &st : p.steps) {
        for (auto &x : st) {
            if (p.raw)
                xmpp_send_raw(s.c.conn, x.data(), x.size());
            else
                s.c.send_xml(x);
        }
        s.c.step(100);
        for (int i = 0; i < p.idle; i++)
            s.c.step(100);
        o.at.push_back(s.plain().size());
        o.queue.push_back(s.c.queue_len());
        n++;
    }
    if (settle) {
        s.rest();
        s.c.run_for(3000, 1000);
    }
    o.plain = s.plain();
    return o;
}
Out reference(const Prog &p)
{
    sim::reset();
    mc::trace("--- reference without compression");
    Side s(p, false);
    Out o = play(s, p, true);
    if (!o.up)
        mc::fail("harness:reference", "the reference does not come up");
    s.srv.close();
    s.c.settle(20);
    s.c.release();
    sim::reset();
    mc::trace("--- with compression");
    return o;
}
std::string where(const std::string &a, const std::string &b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return strf("%zu of %zu bytes, equal up to %zu: ...", b.size(), a.size(), i) +
           mc::printable(b.substr(i > 20 ? i - 20 : 0, 60));
}
// everything arrived
void compare(const Out &ref, Side &s, const Out &o)
{
    if (mc::failed())
        return;
    if (s.srv.rd.broken)
        return mc::fail("out:garbled", "the server cannot read the stream: %s",
                        s.srv.rd.err.c_str());
    if (!o.up)
        return mc::fail("out:not-up", "the connection does not come up with "
                                      "compression");
    if (o.plain != ref.plain)
        return mc::fail(o.plain.size() < ref.plain.size() &&
                                ref.plain.compare(0, o.plain.size(), o.plain) == 0
                            ? "out:missing"
                            : "out:differs",
                        "inflated stream differs from the plain one: %s",
                        where(ref.plain, o.plain).c_str());
}
void finish(Side &s)
{
    if (mc::failed())
        return;
    sim::W->on_write = nullptr;
    sim::W->on_read = nullptr;
    mc::state(mc::fnv(s.srv.comp_raw));
    // the end of the stream goes through the compression as well
    if (!s.c.disconnected()) {
        xmpp_disconnect(s.c.conn);
        s.c.step(10);
        if (!s.srv.saw_close)
            mc::fail("out:no-close", "the end of the stream did not reach the server");
        s.c.run_for(2600, 1000);
    }
    s.c.release();
}
Prog base_prog(bool few)
{
    Prog p;
    int k = mc::choose(few ? 4 : 8, "configuration");
    static const int v[] = {0, 7, 2, 1, 4, 3, 5, 6};
    p.tls = v[k] & 1;
    p.sm = v[k] & 2;
    p.dont_reset = v[k] & 4;
    return p;
}

// ------------------------------------------------- outbound, nothing blocked
// every size around the point where the staging buffer is exactly full
void sizes()
{
    Prog p = base_prog(!mc::thorough());
    int what = mc::choose(3, "kind");
    int lo = mc::choose(mc::thorough() ? 40 : 12, "size/50") * 50;
    int hi = mc::choose(50, "size%50");
    size_t n = (mc::thorough() ? 4200 : what == 2 ? 5100 : 5200) + lo + hi;
    p.raw = what == 2;
    if (what == 0)
        p.steps = {{msg("1", noise(n, 1))}, {msg("2", "x")}, {}, {msg("3", "y")}};
    else if (what == 1)
        p.steps = {{msg("1", "a"), msg("2", noise(n, 2)), msg("3", noise(n, 3))},
                   {msg("4", "b"), msg("5", "c")}};
    else
        p.steps = {{"<a>" + noise(n, 4) + "</a>"}, {"<a/>"},
                   {"<a>" + noise(n, 5) + "</a>", "<b/>"}};
    Out ref = reference(p);
    Side s(p, true);
    Out o = play(s, p, false);
    for (size_t i = 0; i < o.at.size() && i < ref.at.size() && !mc::failed(); i++)
        if (o.queue[i] == 0 && o.at[i] != ref.at[i])
            mc::fail("out:late", "after iteration %zu %zu of %zu bytes can be "
                                 "inflated",
                     i, o.at[i], ref.at[i]);
    s.rest();
    o.plain = s.plain();
    compare(ref, s, o);
    finish(s);
}
// everything sent within one iteration, all mixtures of sizes
void mixtures()
{
    Prog p = base_prog(!mc::thorough());
    int n = mc::choose(mc::thorough() ? 4 : 3, "stanzas") + 1;
    std::vector<std::string> cur;
    for (int i = 0; i < n; i++) {
        std::string id = strf("%d", i), x;
        switch (mc::choose(6, "stanza")) {
        case 0: x = msg(id, "x"); break;
        case 1: x = msg(id, noise(3000, i)); break;
        case 2: x = msg(id, noise(5461, i)); break;
        case 3: x = msg(id, noise(16500, i)); break;
        case 4: x = msg(id, std::string(70000, 'z')); break;
        case 5: x = msg(id, noise(60000, i) + std::string(9000, 'q')); break;
        }
        cur.push_back(x);
        if (i + 1 < n && mc::choose(2, "next iteration")) {
            p.steps.push_back(cur);
            cur.clear();
        }
    }
    p.steps.push_back(cur);
    p.steps.push_back({});
    Out ref = reference(p);
    Side s(p, true);
    Out o = play(s, p, false);
    for (size_t i = 0; i < o.at.size() && i < ref.at.size() && !mc::failed(); i++)
        if (o.queue[i] == 0 && o.at[i] != ref.at[i])
            mc::fail("out:late", "after iteration %zu %zu of %zu bytes can be "
                                 "inflated",
                     i, o.at[i], ref.at[i]);
    s.rest();
    o.plain = s.plain();
    compare(ref, s, o);
    finish(s);
}
std::vector<std::vector<std::string>> small_steps(int k)
{
    switch (k) {
    case 0: return {{msg("1", "hello")}, {msg("2", "world"), msg("3", "x")}, {}};
    case 1: return {{msg("1", noise(9000, 1)), msg("2", "x")}, {msg("3", "y")}};
    case 2: return {{msg("1", noise(5461, 1))}, {msg("2", noise(5461, 2))}, {msg("3", "z")}};
    case 3: return {{msg("1", std::string(200000, 'z')), msg("2", "x")}, {}, {msg("3", "y")}};
    default: return {{msg("1", noise(30000, 1)), msg("2", noise(30000, 2))}, {msg("3", "y")}};
    }
}
// ------------------------------------------------------ outbound, constrained
// a transport that takes a fixed amount per call and refuses every nth call
void caps()
{
    static const int cap[] = {1, 2, 3, 5, 11, 100, 1000, 2048, 4095, 4096, 4097, 100000};
    Prog p = base_prog(!mc::thorough());
    p.steps = small_steps(mc::choose(5, "stanzas"));
    p.idle = mc::choose(2, "idle iterations");
    int c = cap[mc::choose(sizeof cap / sizeof *cap, "bytes per call")];
    int every = mc::choose(6, "refused");
    int when = mc::choose(2, "from the start");
    Out ref = reference(p);
    Side s(p, true);
    uint64_t calls = 0;
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        if (!when && !s.c.up)
            return n;
        calls++;
        if (every == 1 && calls % 2 == 0)
            return -EAGAIN;
        if (every == 2 && calls % 3 != 0)
            return -EAGAIN;
        if (every == 3 && calls % 40 > 10)
            return -EAGAIN;
        if (every == 4 && calls == 2)
            return -EINTR;
        if (every == 5 && calls > 3 && calls < 60)
            return -EAGAIN;
        return std::min((size_t)c, n);
    };
    Out o = play(s, p, true);
    compare(ref, s, o);
    finish(s);
}
// every single write of the session may be short or refused
void partial()
{
    Prog p;
    if (mc::thorough())
        p = base_prog(false);
    else
        p.tls = p.sm = p.dont_reset = mc::choose(2, "configuration");
    p.steps = small_steps(mc::choose(3, "stanzas"));
    p.idle = mc::choose(2, "idle iterations");
    int late = mc::choose(2, "extra stanza while blocked");
    Out ref;
    Out o;
    if (late)
        p.steps.insert(p.steps.begin() + 1, {msg("l", "late")});
    ref = reference(p);
    Side s(p, true);
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        switch (mc::deviate(6, "write")) {
        case 1: return -EAGAIN;
        case 2: return 1;
        case 3: return n > 1 ? n - 1 : 1;
        case 4: return n / 2 ? n / 2 : 1;
        case 5: return -EINTR;
        }
        return n;
    };
    o = play(s, p, true);
    compare(ref, s, o);
    finish(s);
}
// the transport blocks for a while and takes any amounts afterwards: all
// compositions of a small number of writes
void schedules()
{
    Prog p = base_prog(true);
    p.steps = small_steps(mc::choose(2, "stanzas"));
    Out ref = reference(p);
    Side s(p, true);
    int left = mc::thorough() ? 8 : 6;
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        if (!s.c.up || left-- <= 0)
            return n;
        switch (mc::choose(4, "write")) {
        case 1: return -EAGAIN;
        case 2: return std::min<size_t>(n, 9);
        case 3: return n > 1 ? n - 1 : 1;
        }
        return n;
    };
    Out o = play(s, p, true);
    compare(ref, s, o);
    finish(s);
}

// ------------------------------------------------------------------- inbound
struct In {
    std::vector<std::string> texts; // sent
};
void check_in(Side &s, const std::vector<std::string> &sent, size_t need,
              const char *what)
{
    if (mc::failed())
        return;
    if (!s.c.connected())
        return mc::fail("in:lost", "the connection ended %s", what);
    size_t k = 0;
    for (auto &st : s.c.stanzas) {
        const Node &n = st.first;
        if (n.name != "message")
            continue;
        std::string t;
        for (auto &kid : n.kids)
            for (auto &x : kid.kids)
                t += x.data;
        if (k >= sent.size())
            return mc::fail("in:extra", "a stanza nobody sent %s", what);
        if (t != sent[k])
            return mc::fail("in:differs", "stanza %zu arrived as %s %s", k,
                            mc::printable(t, 60).c_str(), what);
        k++;
    }
    if (k < need)
        mc::fail("in:missing", "%zu of %zu stanzas arrived %s", k, need, what);
}
std::string in_text(int k, unsigned seed)
{
    switch (k) {
    case 0: return "hi";
    case 1: return noise(300, seed);
    case 2: return noise(9000, seed);
    case 3: return std::string(100000, 'a');
    case 4: return std::string(4096 * 3 - 40, 'b');
    default: return std::string(4060 + seed, 'c');
    }
}
void inbound()
{
    bool thr = mc::thorough();
    Prog p = base_prog(true);
    sim::reset();
    mc::allow_secs(20);
    Side s(p, true);
    s.c.catch_all();
    static const int sz[] = {0, 1, 4096, 2, 5, 1000, 4095, 4097};
    int chunk = sz[mc::choose(thr ? 8 : 3, "chunks")];
    int lv = chunk != 4096 || thr ? mc::choose(3, "level") : 0;
    int rd = chunk == 0 || thr ? mc::choose(3, "reads") : 0;
    s.up();
    if (!s.c.up)
        return mc::fail("in:not-up", "not connected");
    if (lv)
        deflateParams(&s.srv.def, lv == 1 ? 0 : 9, lv == 1 ? Z_DEFAULT_STRATEGY : Z_HUFFMAN_ONLY);
    if (chunk)
        s.srv.chunker = [chunk](const std::string &x) {
            return bytes_of(x, chunk < 100 && x.size() > 2000 ? (x.size() > 20000 ? 331 : 13) : chunk);
        };
    uint64_t reads = 0;
    bool big = false;
    sim::W->on_read = [&](Sock &, size_t n, sim::Layer) -> int {
        reads++;
        if (rd == 1 && reads % 3 == 0)
            return -EAGAIN;
        if (rd == 2)
            return std::min<size_t>(n, big ? 333 : 3);
        return n;
    };
    std::vector<std::string> sent;
    int cnt = mc::thorough() ? 3 : 2;
    for (int i = 0; i < cnt; i++) {
        sent.push_back(in_text(mc::choose(5, "stanza"), i));
        static const int fl[] = {Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK,
                                 Z_NO_FLUSH};
        int f = fl[mc::choose(thr || !i ? 5 : 2, "flush")];
        s.srv.deflate_flush = f;
        big = sent.back().size() > 2000;
        s.srv.send_stanza(msg(strf("%d", i), sent.back()));
        s.rest();
        check_in(s, sent, f == Z_NO_FLUSH || f == Z_BLOCK ? 0 : sent.size(),
                 "after its flush");
    }
    s.srv.deflate_flush = Z_SYNC_FLUSH;
    sent.push_back("end");
    s.srv.send_stanza(msg("e", "end"));
    s.rest();
    check_in(s, sent, sent.size(), "at the end");
    finish(s);
}
// the inflated size around multiples of the library's read buffer
void inbound_sizes()
{
    Prog p = base_prog(!mc::thorough());
    sim::reset();
    Side s(p, true);
    s.c.catch_all();
    s.up();
    if (!s.c.up)
        return mc::fail("in:not-up", "not connected");
    int k = mc::choose(200, "size");
    int m = mc::choose(3, "buffers");
    bool two = mc::choose(2, "with a second one");
    if (mc::choose(2, "flush"))
        s.srv.deflate_flush = Z_PARTIAL_FLUSH; // ends in the middle of a byte
    std::vector<std::string> sent{std::string(4096 * (m + 1) - 190 + k, 'c')};
    std::string x = msg("1", sent[0]);
    if (two) {
        sent.push_back("second");
        x += msg("2", "second");
    }
    s.srv.send(x);
    s.rest();
    check_in(s, sent, sent.size(), "without further input");
    s.srv.send("<message id='3'><body>3</body></message>");
    sent.push_back("3");
    s.rest();
    check_in(s, sent, sent.size(), "later");
    finish(s);
}
// every split into two (thorough: three) reads, from the confirmation on
void splits()
{
    Prog p = base_prog(false);
    sim::reset();
    Side s(p, true);
    s.c.catch_all();
    int which = mc::choose(6, "element");
    int seen = 0;
    bool hit = false;
    s.srv.chunker = [&](const std::string &x) -> std::vector<std::string> {
        if (!s.srv.comp || seen++ != which)
            return {x};
        hit = true;
        size_t n = x.size();
        auto pick = [](size_t n, const char *w) {
            size_t a = mc::choose((n + 199) / 200, w);
            return std::min(n - 1, a * 200 + mc::choose(200, w));
        };
        size_t a = pick(n + 1, "byte");
        std::vector<std::string> v{x.substr(0, a), x.substr(a)};
        if (mc::thorough() && v[1].size() < 120) {
            size_t b = pick(v[1].size() + 1, "second byte");
            std::string t = v[1];
            v[1] = t.substr(0, b);
            v.push_back(t.substr(b));
        }
        return v;
    };
    s.up();
    if (!s.c.up && !mc::failed())
        return mc::fail("in:not-up", "not connected");
    s.srv.send_stanza(msg("1", "first"));
    s.srv.send_stanza(msg("2", noise(90, 2)));
    s.rest();
    check_in(s, {"first", noise(90, 2)}, 2, "after a split");
    (void)hit;
    finish(s);
}
// reads that return any amount or nothing
void reads()
{
    Prog p = base_prog(true);
    sim::reset();
    Side s(p, true);
    s.c.catch_all();
    s.up();
    if (!s.c.up)
        return mc::fail("in:not-up", "not connected");
    int big = mc::choose(3, "stanza");
    int left = mc::thorough() ? 8 : 6;
    sim::W->on_read = [&](Sock &, size_t n, sim::Layer) -> int {
        if (left-- <= 0)
            return n;
        switch (mc::choose(5, "read")) {
        case 1: return -EAGAIN;
        case 2: return 1;
        case 3: return std::min<size_t>(n, 6);
        case 4: return -EINTR;
        }
        return n;
    };
    std::vector<std::string> sent{big == 0   ? "x"
                                  : big == 1 ? std::string(30000, 'x')
                                             : noise(7000, 1),
                                  "two"};
    s.srv.send_stanza(msg("1", sent[0]));
    s.srv.send_stanza(msg("2", sent[1]));
    s.rest();
    check_in(s, sent, 2, "after short reads");
    finish(s);
}
// both directions at once
void duplex()
{
    Prog p = base_prog(!mc::thorough());
    p.steps = small_steps(mc::choose(5, "stanzas"));
    int in = mc::choose(5, "inbound stanza");
    int chunk = mc::choose(3, "chunks");
    int cap = mc::choose(3, "bytes per call");
    Out ref = reference(p);
    Side s(p, true);
    s.c.catch_all();
    std::vector<std::string> sent;
    static const int cs[] = {0, 1, 700};
    if (chunk)
        s.srv.chunker = [&](const std::string &x) {
            return bytes_of(x, x.size() > 3000 ? 700 : cs[chunk]);
        };
    uint64_t calls = 0;
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        calls++;
        return cap == 0 ? (int)n : cap == 1 ? std::min<int>(n, 50)
                                            : (calls % 2 ? std::min<int>(n, 1000) : -EAGAIN);
    };
    int turn = 0;
    s.srv.on_turn = [&](Server &sv) {
        if (s.c.up && sent.size() < 4 && turn++ % 2 == 0) {
            sent.push_back(in_text(in, sent.size()));
            sv.send_stanza(msg(strf("%zu", sent.size()), sent.back()));
        }
    };
    Out o = play(s, p, true);
    compare(ref, s, o);
    check_in(s, sent, sent.size(), "in both directions");
    s.srv.on_turn = nullptr;
    finish(s);
}

// -------------------------------------------------- when compression starts
void start()
{
    sim::reset();
    Prog p;
    p.tls = mc::choose(2, "STARTTLS");
    p.sm = mc::choose(2, "SM");
    bool allowed = mc::choose(2, "allowed by the user");
    int offer = mc::choose(7, "offer");
    int reply = mc::choose(9, "reply");
    Side s(p, allowed);
    static const char *of[] = {
        "<method>zlib</method>", "<method>lzw</method><method>zlib</method>",
        "<method>lzw</method>", "", "<method/>", "<method>zlib2</method>", nullptr};
    bool offered = offer < 2;
    s.srv.features_hook = [&](Server &sv, const std::string &def) -> std::string {
        if (!sv.authed || sv.comp)
            return def;
        std::string d = def;
        size_t a = d.find("<compression"), e = d.find("</compression>");
        if (a != std::string::npos && e != std::string::npos)
            d.erase(a, e + 14 - a);
        if (of[offer]) {
            size_t g = d.find("<bind");
            d.insert(g, std::string("<compression xmlns='" NS_COMPF_ "'>") + of[offer] +
                            "</compression>");
        }
        return d;
    };
    bool refused = false;
    s.srv.intercept = [&](Server &sv, Msg &m) {
        if (m.step != S_COMPRESS)
            return false;
        if (!allowed || !offered)
            mc::fail("start:unasked", "compression requested, %s",
                     !allowed ? "but the user did not allow it" : "but zlib is not offered");
        if (m.node.attrs.size() || m.node.kids.size() != 1 ||
            m.node.kids[0].name != "method" || m.node.kids[0].kids.size() != 1 ||
            m.node.kids[0].kids[0].data != "zlib")
            mc::fail("start:request", "malformed request %s", m.raw.c_str());
        static const char *rp[] = {
            nullptr,
            "<failure xmlns='" NS_COMP_ "'><setup-failed/></failure>",
            "<failure xmlns='" NS_COMP_ "'/>",
            "<message><body>x</body></message>",
            "<compressed xmlns='urn:other'/>",
            "<compressed/>",
            "<iq type='result' id='x'/>",
            "<error xmlns='" NS_COMP_ "'/>",
            ""};
        if (!reply)
            return false;
        refused = true;
        sv.send(rp[reply]);
        return true;
    };
    s.up();
    s.c.run_for(3000, 1000);
    // without the confirmation everything that follows is plain: the server
    // reports what it cannot read
    if (s.srv.rd.broken && !mc::failed())
        mc::fail("start:too-early", "bytes the server cannot read: %s",
                 s.srv.rd.err.c_str());
    bool want = allowed && offered;
    if (!mc::failed()) {
        int streams = s.srv.streams, exp = 2 + p.tls;
        if (want && !refused)
            exp++;
        if (want && !s.srv.count(S_COMPRESS))
            mc::fail("start:not-asked", "compression not requested");
        else if (streams != exp)
            mc::fail("start:restart", "%d streams instead of %d", streams, exp);
        else if (!refused && !s.c.up)
            mc::fail("start:not-up", "the connection does not come up");
        else if (want && !refused && !s.srv.comp)
            mc::fail("start:inactive", "not compressed");
    }
    if (refused && !mc::failed()) {
        // still usable as a plain stream
        if (!s.c.disconnected())
            xmpp_disconnect(s.c.conn);
        s.c.run_for(3000, 1000);
        if (s.srv.rd.broken)
            mc::fail("start:too-early", "bytes the server cannot read: %s",
                     s.srv.rd.err.c_str());
        s.c.release();
        return;
    }
    finish(s);
}
// later connections start in the clear and with an empty compression state
void again()
{
    Prog p = base_prog(false);
    p.steps = small_steps(mc::choose(4, "stanzas"));
    int end = mc::choose(4, "how the first one ends");
    bool second_offers = mc::choose(2, "offered again");
    int blocked = mc::choose(3, "blocked at the end");
    Out ref = reference(p);
    Side s(p, true);
    s.up();
    if (!s.c.up)
        return mc::fail("again:not-up", "not connected");
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        return blocked == 0 ? (int)n : blocked == 1 ? -EAGAIN : std::min<int>(n, 7);
    };
    s.c.send_xml(msg("0", noise(6000, 9)));
    s.c.send_xml(msg("00", "x"));
    s.c.steps(2);
    switch (end) {
    case 0:
        s.srv.close();
        break;
    case 1:
        s.srv.send(msg("i", std::string(50000, 'i')));
        s.c.step(0);
        s.srv.close();
        break;
    case 2:
        xmpp_disconnect(s.c.conn);
        s.c.run_for(2600, 1000);
        break;
    case 3:
        s.srv.send_raw("garbage that is not deflated at all");
        break;
    }
    s.c.settle(20000);
    s.c.run_for(3000, 1000);
    if (!s.c.disconnected())
        return mc::fail("again:still-up", "the first connection is not over");
    sim::W->on_write = nullptr;
    mc::trace("--- second connection");
    bool sm = p.sm;
    s.srv.cfg.compress = second_offers;
    s.srv.cfg.sm_resume = false;
    s.c.stanzas.clear();
    s.srv.sessions.clear();
    Out o = play(s, p, true);
    if (s.srv.rd.broken && !mc::failed())
        mc::fail("again:garbled", "the server cannot read the stream: %s",
                 s.srv.rd.err.c_str());
    if (!o.up && !mc::failed())
        mc::fail("again:not-up", "the second connection does not come up");
    if (!sm)
        compare(ref, s, o); // with SM elements of the first session are repeated
    if (second_offers != s.srv.comp && !mc::failed())
        mc::fail("again:compression", "compression %s", s.srv.comp ? "active" : "not active");
    finish(s);
}
} // namespace
void register_scenarios()
{
    mc::add("start", start, 0, 0);
    mc::add("sizes", sizes, 0, 0);
    mc::add("mixtures", mixtures, 0, 0);
    mc::add("caps", caps, 0, 0);
    mc::add("partial", partial, 2, 2);
    mc::add("schedules", schedules, 0, 0);
    mc::add("inbound", inbound, 0, 0);
    mc::add("inbound-sizes", inbound_sizes, 0, 0);
    mc::add("splits", splits, 0, 0);
    mc::add("reads", reads, 0, 0);
    mc::add("duplex", duplex, 0, 0);
    mc::add("again", again, 0, 0);
}
