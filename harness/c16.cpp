// C16: a persisted stream-management state restores faithfully or is refused.
#include "sm.h"
using namespace smx;

// a connection object without a network
struct Obj {
    xmpp_ctx_t *ctx;
    xmpp_conn_t *conn;
    std::string blob;
    int calls = 0;
    Obj()
    {
        ctx = xmpp_ctx_new(nullptr, nullptr);
        conn = xmpp_conn_new(ctx);
        xmpp_conn_set_sm_callback(
            conn,
            [](xmpp_conn_t *, void *u, const unsigned char *b, size_t n) {
                Obj *o = (Obj *)u;
                o->calls++;
                o->blob.assign((const char *)b, b ? n : 0);
            },
            this);
    }
    ~Obj()
    {
        if (conn)
            xmpp_conn_release(conn);
        xmpp_ctx_free(ctx);
    }
};
// exactly the given bytes; AddressSanitizer guards both ends
static int restore(xmpp_conn_t *c, const std::string &b)
{
    unsigned char *m = (unsigned char *)malloc(b.size() ? b.size() : 1);
    memcpy(m, b.data(), b.size());
    int r = xmpp_conn_restore_sm_state(c, m, b.size());
    // the connection must not keep pointers into the buffer
    memset(m, 0xdb, b.size());
    free(m);
    return r;
}
static std::string hex(const std::string &s)
{
    std::string o;
    for (unsigned char c : s.substr(0, 120))
        o += strf("%02x", c);
    return o + (s.size() > 120 ? "..." : "");
}
// take an element; NULL-terminated text only
static bool drop(xmpp_conn_t *c, xmpp_ctx_t *ctx, xmpp_queue_element_t w,
                 std::string &t)
{
    char *r = xmpp_conn_send_queue_drop_element(c, w);
    if (!r)
        return false;
    t = r;
    xmpp_free(ctx, r);
    return true;
}
static std::string cstr(const std::string &s) { return s.c_str(); }

// b is a state: everything in it must come back
static void faithful(const std::string &bytes, const char *when)
{
    Blob b = parse_blob(bytes);
    mc::state(mc::fnv(bytes));
    // (1) with one more element that is taken back: the same state again
    for (int front = 0; front < 2; front++) {
        Blob x = b;
        BlobEl e;
        e.text = "<extra/>";
        x.unsent.insert(front ? x.unsent.begin() : x.unsent.end(), e);
        Obj o;
        int r = restore(o.conn, build_blob(x));
        if (r != XMPP_EOK) {
            mc::fail("restore:refused", "%s: restore of a state returned %d: %s",
                     when, r, hex(build_blob(x)).c_str());
            return;
        }
        if (xmpp_conn_send_queue_len(o.conn) != (int)x.unsent.size())
            mc::fail("restore:len", "%s: %d elements queued, want %zu", when,
                     xmpp_conn_send_queue_len(o.conn), x.unsent.size());
        std::string t;
        if (!drop(o.conn, o.ctx, front ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST,
                  t) ||
            t != "<extra/>")
            mc::fail("restore:drop", "%s: dropped \"%s\"", when,
                     mc::printable(t, 60).c_str());
        else if (o.blob != bytes)
            mc::fail("restore:differs", "%s: restored %s, now the state is %s", when,
                     hex(bytes).c_str(), hex(o.blob).c_str());
    }
    // (2) the queue in both directions
    for (int dir = 0; dir < 3; dir++) {
        Obj o;
        if (restore(o.conn, bytes) != XMPP_EOK) {
            mc::fail("restore:refused", "%s: restore of a state failed: %s", when,
                     hex(bytes).c_str());
            return;
        }
        Blob x = b;
        std::string t;
        for (int i = 0;; i++) {
            if (xmpp_conn_send_queue_len(o.conn) != (int)x.unsent.size())
                mc::fail("restore:len", "%s: %d elements queued, want %zu", when,
                         xmpp_conn_send_queue_len(o.conn), x.unsent.size());
            bool young = dir == 1 || (dir == 2 && i % 2);
            bool got = drop(o.conn, o.ctx,
                            young ? XMPP_QUEUE_YOUNGEST : XMPP_QUEUE_OLDEST, t);
            if (got != !x.unsent.empty()) {
                mc::fail("restore:drop", "%s: %s dropped", when,
                         got ? "an unknown element was" : "nothing was");
                return;
            }
            if (!got)
                break;
            std::string w = cstr(young ? x.unsent.back().text
                                       : x.unsent.front().text);
            if (t != w)
                mc::fail("restore:drop", "%s: dropped \"%s\", want \"%s\"", when,
                         mc::printable(t, 60).c_str(), mc::printable(w, 60).c_str());
            if (young)
                x.unsent.pop_back();
            else
                x.unsent.erase(x.unsent.begin());
            if (o.blob != build_blob(x))
                mc::fail("restore:differs", "%s: after a drop the state is %s, "
                                            "want %s",
                         when, hex(o.blob).c_str(), hex(build_blob(x)).c_str());
        }
    }
    mc::evaluated(5);
}
// bytes is no state: refused, and nothing is left of it
static void refused(const std::string &bytes, const std::string &good, int after)
{
    Obj o;
    int r = restore(o.conn, bytes);
    if (r >= 0) {
        mc::fail("restore:accepted", "restore returned %d for %zu bytes that are no "
                                     "state: %s",
                 r, bytes.size(), hex(bytes).c_str());
        return;
    }
    std::string t;
    if (xmpp_conn_send_queue_len(o.conn) != 0 ||
        drop(o.conn, o.ctx, XMPP_QUEUE_OLDEST, t) ||
        drop(o.conn, o.ctx, XMPP_QUEUE_YOUNGEST, t))
        mc::fail("refused:left-over", "a refused state left elements in the queue: "
                                      "%s",
                 hex(bytes).c_str());
    if (after == 1) {
        r = restore(o.conn, good);
        Blob b = parse_blob(good);
        if (r != XMPP_EOK)
            mc::fail("refused:stuck", "after a refused state a good one is refused: "
                                      "%d",
                     r);
        else if (xmpp_conn_send_queue_len(o.conn) != (int)b.unsent.size())
            mc::fail("refused:left-over", "after a refused state and a good one "
                                          "there are %d elements, want %zu",
                     xmpp_conn_send_queue_len(o.conn), b.unsent.size());
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(o.conn);
        if (!s)
            mc::fail("refused:stuck", "no state after a good restore");
        else
            xmpp_free_sm_state(s);
    } else if (after == 2) {
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(o.conn);
        if (s)
            xmpp_free_sm_state(s);
    }
    mc::evaluated(1);
}
static bool is_state(const std::string &s)
{
    Blob b = parse_blob(s);
    return b.ok && b.id.find('\0') == std::string::npos;
}
static BlobEl el(const std::string &t, uint32_t h = 0)
{
    BlobEl e;
    e.text = t;
    e.h = h;
    return e;
}
// some states of different shape
static const int NBASE = 7;
static Blob base(int k)
{
    Blob b;
    b.id = "sm1";
    switch (k) {
    case 0:
        b.id = "";
        break;
    case 1:
        b.sent = 3;
        b.handled = 7;
        break;
    case 2:
        b.unsent = {el("<a/>"), el("<r xmlns='urn:xmpp:sm:3'/>")};
        break;
    case 3:
        b.sent = 2;
        b.unacked = {el("<a/>", 0), el("<bb/>", 1)};
        break;
    case 4:
        b.sent = 1;
        b.handled = 0x01020304;
        b.id = "an-id";
        b.unsent = {el("<u/>"), el(""), el("z")};
        b.unacked = {el("<a/>", 0xffffffff), el("", 0)};
        break;
    case 5: // texts that look like the format
        b.id = std::string("\x1a\x7a", 2);
        b.sent = 1;
        b.unsent = {el(std::string("\x7a\0\0\0\0", 5)),
                    el(std::string("\xba\0\0\0\0", 5))};
        b.unacked = {el(std::string("\x1a\0\0\0\0\x7a\0\0\0\0", 10), 0)};
        break;
    case 6:
        b.sent = 4;
        b.id = "s";
        b.unsent = {el("a"), el("b"), el("c"), el("d"), el("e")};
        b.unacked = {el("w", 0), el("x", 1), el("y", 2), el("z", 3)};
        break;
    }
    return b;
}
// positions of the 32-bit fields
static std::vector<size_t> fields(const Blob &b)
{
    std::vector<size_t> f;
    size_t p = 0;
    auto f5 = [&]() {
        f.push_back(p + 1);
        p += 5;
    };
    f5(), f5(), f5(), f5();
    p += b.id.size();
    f5();
    for (auto &e : b.unsent)
        f5(), p += e.text.size();
    f5();
    for (auto &e : b.unacked)
        f5(), f5(), p += e.text.size();
    return f;
}
static uint32_t get32(const std::string &s, size_t p)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; i++)
        v = v << 8 | (uint8_t)s[p + i];
    return v;
}
static void set32(std::string &s, size_t p, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        s[p + i] = (char)(v >> (24 - 8 * i));
}
// any bytes
static void judge(const std::string &s, const std::string &good, int after)
{
    if (is_state(s)) {
        // another state, or numbers no session has: either way, but whole
        bool ok;
        {
            Obj o;
            ok = restore(o.conn, s) == XMPP_EOK;
        }
        if (ok)
            faithful(s, "changed");
        else
            refused(s, good, after);
    } else if (!parse_blob(s).ok)
        refused(s, good, after);
    else {
        // a NUL inside the id: no session has such an id; either way
        Obj o;
        restore(o.conn, s);
    }
}
static void change_byte()
{
    int k = mc::choose(NBASE, "state");
    std::string g = build_blob(base(k));
    size_t at = mc::choose(g.size(), "position");
    int after = mc::choose(2, "after") + 1;
    for (int v = 0; v < 256 && !mc::failed(); v++) {
        std::string s = g;
        s[at] = (char)v;
        if (s != g)
            judge(s, g, after);
    }
}
static void cut_extend()
{
    int k = mc::choose(NBASE, "state");
    std::string g = build_blob(base(k));
    int after = mc::choose(2, "after") + 1;
    switch (mc::choose(4, "change")) {
    case 0: // cut at the end
        for (size_t n = 0; n < g.size() && !mc::failed(); n++)
            judge(g.substr(0, n), g, after);
        break;
    case 1: // cut out or doubled in the middle
        for (size_t i = 0; i < g.size(); i++)
            for (size_t n = 1; n <= 12 && i + n <= g.size() && !mc::failed(); n++) {
                std::string s = g;
                judge(s.erase(i, n), g, after);
                s = g;
                judge(s.insert(i, g.substr(i, n)), g, after);
            }
        break;
    case 2: // more at the end
        for (int n = 1; n <= 12; n++)
            for (int fill : {0, 0x1a, 0x7a, 0x9a, 0xba, 0xff})
                if (!mc::failed())
                    judge(g + std::string(n, (char)fill), g, after);
        for (int j = 0; j < NBASE; j++)
            if (!mc::failed())
                judge(g + build_blob(base(j)), g, after);
        break;
    case 3: // bytes in front and inside
        for (size_t i = 0; i <= g.size(); i++)
            for (int fill : {0, 1, 0x1a, 0x7a, 0x9a, 0xba, 0xff})
                for (int n : {1, 4, 5})
                    if (!mc::failed())
                        judge(std::string(g).insert(i, std::string(n, (char)fill)),
                              g, after);
        break;
    }
}
static std::vector<uint32_t> values(const std::string &g, size_t p)
{
    uint32_t v = get32(g, p), rest = g.size() - p - 4;
    std::vector<uint32_t> r{0, 1, 2, v - 2, v - 1, v + 1, v + 2, v + 5, v + 10,
                            rest - 1, rest, rest + 1, rest - 5, rest - 10, rest + 4,
                            0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe,
                            0xfffffffb, 0xfffffffa, 0x100, 0x10000, 0x1000000,
                            0xffff, (uint32_t)-(int32_t)(p + 4),
                            (uint32_t)-(int32_t)p, (uint32_t)g.size()};
    return r;
}
static void change_fields()
{
    int k = mc::choose(NBASE, "state");
    Blob b = base(k);
    std::string g = build_blob(b);
    auto f = fields(b);
    size_t i = mc::choose(f.size(), "field");
    size_t j = mc::choose(f.size(), "second field");
    if (j < i)
        return;
    for (uint32_t v : values(g, f[i]))
        for (uint32_t w : values(g, f[j])) {
            std::string s = g;
            set32(s, f[i], v);
            if (j != i)
                set32(s, f[j], w);
            if (s != g && !mc::failed())
                judge(s, g, 1);
            if (i == j)
                break;
        }
}
static void change_types()
{
    // every combination of type bytes
    int k = mc::choose(NBASE, "state");
    Blob b = base(k);
    std::string g = build_blob(b);
    auto f = fields(b);
    static const int T[] = {0x1a, 0x7a, 0x9a, 0xba, 0x00, 0x1b, 0x60, 0x80};
    size_t i = mc::choose(f.size(), "field");
    size_t j = mc::choose(f.size(), "second field");
    if (j < i)
        return;
    for (int v : T)
        for (int w : T) {
            std::string s = g;
            s[f[i] - 1] = (char)v;
            if (j != i)
                s[f[j] - 1] = (char)w;
            if (s != g && !mc::failed())
                judge(s, g, 1);
        }
}
// all short strings over the bytes that matter, behind a correct beginning
static void grammar(int n)
{
    static const uint8_t A[] = {0x1a, 0x7a, 0x9a, 0xba, 0, 1, 2};
    Blob b;
    b.id = "";
    std::string g = build_blob(b); // 30 bytes
    int keep = mc::choose(7, "keep") * 5;
    std::string pre = g.substr(0, keep);
    // tokens of one field each
    std::vector<std::string> tok;
    for (uint8_t t : {0x1a, 0x7a, 0x9a, 0xba})
        for (uint32_t v : {0u, 1u, 2u, 0xffffffffu}) {
            std::string s(5, (char)t);
            set32(s, 1, v);
            tok.push_back(s);
        }
    tok.push_back("x");
    std::string s = pre;
    for (int i = 0; i < n; i++) {
        int k = mc::choose(tok.size() + 1, "token");
        if (k == (int)tok.size())
            break;
        s += tok[k];
    }
    judge(s, g, 1);
    for (uint8_t a : A)
        if (!mc::failed())
            judge(s + (char)a, g, 1);
}

// every shape of state
static const uint32_t CNT[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
static std::string text(int k)
{
    switch (k) {
    case 0:
        return "<a/>";
    case 1:
        return "";
    case 2:
        return std::string("a\0b", 3);
    default:
        return std::string(70000, 'x');
    }
}
static void shapes(int maxn)
{
    Blob b;
    b.sent = CNT[mc::choose(6, "sent")];
    b.handled = CNT[mc::choose(6, "handled")];
    static const char *ids[] = {"sm1", "", "\xc3\xa4<&'\" \n", "z"};
    int i = mc::choose(4, "id");
    b.id = i == 3 ? std::string(1000, 'i') : ids[i];
    int u = mc::choose(maxn + 1, "unsent");
    for (int n = 0; n < u; n++)
        b.unsent.push_back(el(text(mc::choose(4, "text"))));
    int a = mc::choose(maxn + 1, "unacknowledged");
    int more = mc::deviate(2, "numbered in advance");
    for (int n = 0; n < a; n++)
        b.unacked.push_back(
            el(text(mc::choose(4, "text")), b.sent - a + n + more));
    faithful(build_blob(b), "shape");
}
static void large()
{
    Blob b;
    static const int N[] = {10, 1000, 20000};
    int n = N[mc::choose(3, "elements")];
    int q = mc::choose(3, "queue");
    for (int i = 0; i < n; i++) {
        if (q != 1)
            b.unsent.push_back(el(strf("<u id='%d'/>", i)));
        if (q != 0)
            b.unacked.push_back(el(strf("<m id='%d'/>", i), 0xffffff00u + i));
    }
    b.sent = 0xffffff00u + n;
    std::string s = build_blob(b);
    Obj o, p;
    if (restore(o.conn, s) != XMPP_EOK) {
        mc::fail("restore:refused", "%d elements: refused", n);
        return;
    }
    if (xmpp_conn_send_queue_len(o.conn) != (int)b.unsent.size())
        mc::fail("restore:len", "%d elements queued, want %zu",
                 xmpp_conn_send_queue_len(o.conn), b.unsent.size());
    std::string t;
    if (!b.unsent.empty()) {
        if (!drop(o.conn, o.ctx, XMPP_QUEUE_YOUNGEST, t) ||
            t != b.unsent.back().text)
            mc::fail("restore:drop", "dropped %s", t.c_str());
        b.unsent.pop_back();
        if (o.blob != build_blob(b))
            mc::fail("restore:differs", "%d elements: the state differs", n);
    }
    s = build_blob(b);
    if (restore(p.conn, s.substr(0, s.size() - 1)) >= 0)
        mc::fail("restore:accepted", "%d elements: a cut state was accepted", n);
    if (xmpp_conn_send_queue_len(p.conn) != 0)
        mc::fail("refused:left-over", "%d elements: a refused state left elements",
                 n);
    if (restore(p.conn, s) != XMPP_EOK)
        mc::fail("refused:stuck", "%d elements: refused", n);
}

// what a restored connection does on the wire is what the model of the
// original would do
static void plan_h(Sm &m)
{
    uint32_t lo = m.base, w = m.W();
    int k = mc::choose(w - lo + 2, "resumption");
    uint32_t h = lo + k;
    m.on_resume = nullptr;
    if (h == w + 1)
        m.on_resume = [](Sm &x, Msg &) {
            x.failed("<item-not-found xmlns='" NS_STANZAS_ "'/>", "");
        };
    else
        m.on_resume = [h](Sm &x, Msg &) { x.resumed(h); };
}
static bool give(Sm &m, const Blob &b)
{
    std::string s = build_blob(b);
    m.bound_id = b.id;
    m.in = b.handled;
    m.base = b.sent - b.unacked.size();
    m.nw = b.unacked.size();
    m.L.clear();
    m.U.clear();
    for (auto &e : b.unacked)
        m.L.push_back(e.text);
    for (auto &e : b.unsent)
        m.U.push_back(e.text);
    int r = restore(m.c->conn, s);
    if (r != XMPP_EOK) {
        mc::fail("restore:refused", "a state was refused: %d", r);
        return false;
    }
    m.last_blob = s;
    m.have_blob = true;
    return true;
}
static Blob wire_state()
{
    Blob b;
    b.id = mc::choose(2, "id") ? "sm1" : "x&amp;y";
    if (b.id != "sm1")
        b.id = "o'e-\xc3\xa4"; // is sent as an attribute
    b.sent = CNT[mc::thorough() ? mc::choose(6, "sent")
                                : mc::choose(3, "sent") * 2];
    b.handled = mc::choose(2, "handled") ? 0xffffffff : 1;
    int u = mc::choose(4, "unsent"), a = mc::choose(4, "unacknowledged");
    for (int i = 0; i < u; i++)
        b.unsent.push_back(el(strf("<message id='u%d'/>", i)));
    for (int i = 0; i < a; i++)
        b.unacked.push_back(el(i == 1 ? "<message id='a1'><body>" +
                                            std::string(5000, 'x') +
                                            "</body></message>"
                                      : strf("<message id='a%d'/>", i),
                               b.sent - a + i));
    return b;
}
static void wire()
{
    Sm m;
    Blob b = wire_state();
    if (mc::choose(2, "after a refused one")) {
        std::string s = build_blob(b);
        if (restore(m.c->conn, s.substr(0, s.size() - 1)) >= 0)
            mc::fail("restore:accepted", "a cut state was accepted");
    }
    if (!give(m, b))
        return;
    int d = mc::choose(3, "drop");
    if (d)
        m.drop(d == 1 ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
    if (mc::choose(2, "move")) {
        m.again(Sm::MOVE_STATE);
        m.U.clear();
    }
    plan_h(m);
    m.connect();
    if (m.n_resume != 1)
        mc::fail("restore:no-resume", "the restored session was not resumed");
    m.drain("after resuming");
    if (!m.up() || mc::failed())
        return;
    m.send();
    m.recv("<message><body>x</body></message>", true);
    m.request();
    m.settle();
    m.check("after more");
    m.ack(m.W() - mc::choose(2, "acknowledged"));
    m.settle();
    m.drain("in the end");
    m.lose(0);
    plan_h(m);
    m.again(mc::choose(3, "then"));
    m.connect();
    m.drain("after another connection");
}
// a refused state does not get in the way of a connection
static void refused_connect()
{
    Sm m;
    Blob b = base(mc::choose(NBASE, "state"));
    std::string s = build_blob(b);
    size_t n = mc::choose(s.size(), "cut");
    if (mc::choose(2, "kind")) {
        s[n] ^= 0x40;
        if (is_state(s))
            return;
    } else
        s.resize(n);
    int r = restore(m.c->conn, s);
    if (r >= 0) {
        mc::fail("restore:accepted", "restore returned %d: %s", r, hex(s).c_str());
        return;
    }
    m.connect();
    if (m.n_resume || !m.up())
        mc::fail("refused:stuck", "after a refused state: %s",
                 m.up() ? "something is resumed" : "not connected");
    if (!m.up())
        return;
    m.send();
    m.settle();
    m.drain("after a refused state");
    // not while connected
    Blob g = base(4);
    std::string was = m.last_blob;
    if (restore(m.c->conn, build_blob(g)) >= 0)
        mc::fail("restore:online", "a state was restored while connected");
    m.send();
    m.settle();
    m.drain("after a restore while connected");
    m.lose(0);
    // nor when there is one
    if (restore(m.c->conn, build_blob(g)) >= 0)
        mc::fail("restore:twice", "a state was restored over another");
    m.connect();
    if (m.n_resume != 1)
        mc::fail("refused:stuck", "the session was not resumed");
    m.drain("after the reconnect");
}
// the queue of a connection whose state was taken away
static void taken()
{
    Obj o;
    Blob b = base(mc::choose(NBASE, "state"));
    std::string s = build_blob(b), t;
    if (restore(o.conn, s) != XMPP_EOK)
        return;
    xmpp_sm_state_t *st = xmpp_conn_get_sm_state(o.conn);
    for (int i = 0; i < 6; i++) {
        int k = mc::choose(4, "call");
        if (k < 2) {
            bool got = drop(o.conn, o.ctx, k ? XMPP_QUEUE_YOUNGEST : XMPP_QUEUE_OLDEST,
                            t);
            if (got == b.unsent.empty() ||
                (got && t != cstr((k ? b.unsent.back() : b.unsent.front()).text)))
                mc::fail("restore:drop", "dropped %s", got ? t.c_str() : "nothing");
            if (!b.unsent.empty())
                b.unsent.erase(k ? b.unsent.end() - 1 : b.unsent.begin());
        } else if (k == 2) {
            if (st) {
                if (xmpp_conn_set_sm_state(o.conn, st) != XMPP_EOK)
                    mc::fail("restore:set-state", "the state cannot be put back");
                st = nullptr;
            } else {
                st = xmpp_conn_get_sm_state(o.conn);
                if (!st)
                    mc::fail("restore:set-state", "there is no state");
            }
        } else if (restore(o.conn, s) >= 0) {
            if (!st) {
                mc::fail("restore:twice", "a state was restored over another");
                break;
            }
            Blob x = parse_blob(s);
            b.unsent.insert(b.unsent.end(), x.unsent.begin(), x.unsent.end());
            xmpp_free_sm_state(st);
            st = nullptr;
        }
    }
    if (st)
        xmpp_free_sm_state(st);
}
// every state a session hands out
static void native(int depth)
{
    Sm m;
    int n = 0;
    std::string prev;
    m.blob_hook = [&](const std::string &b) {
        n++;
        if (b == prev || mc::failed())
            return;
        prev = b;
        faithful(b, "handed out");
    };
    m.connect();
    m.budget = 0;
    for (int i = 0; i < depth && m.up() && !mc::failed(); i++) {
        switch (mc::choose(8, "event")) {
        case 0:
            m.send(i % 3);
            break;
        case 1:
            m.budget = 10;
            m.step();
            m.budget = 0;
            break;
        case 2:
            m.budget = -1;
            m.step();
            m.budget = 0;
            break;
        case 3:
            m.ack(m.W());
            m.step();
            break;
        case 4:
            m.drop(XMPP_QUEUE_OLDEST);
            break;
        case 5:
            m.drop(XMPP_QUEUE_YOUNGEST);
            break;
        case 6:
            m.recv("<iq type='get' id='q'/>", true);
            m.request();
            m.step();
            break;
        case 7:
            m.lose(0);
            plan_h(m);
            m.connect();
            m.budget = 0;
            break;
        }
    }
    if (!m.up() || mc::failed())
        return;
    m.lose(0);
    m.on_resume = nullptr;
    m.again(Sm::RESTORE);
    m.connect();
    m.drain("after a restore");
    if (n == 0)
        mc::fail("native:silent", "no state was handed out");
}
void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("change-byte", []() { change_byte(); }, 0);
    mc::add("cut-extend", []() { cut_extend(); }, 0);
    mc::add("change-fields", []() { change_fields(); }, 0);
    mc::add("change-types", []() { change_types(); }, 0);
    mc::add("grammar", [T]() { grammar(T ? 5 : 4); }, 0);
    mc::add("shapes", [T]() { shapes(T ? 3 : 2); }, 1);
    mc::add("large", []() { large(); }, 0);
    mc::add("wire", []() { wire(); }, 0);
    mc::add("refused-connect", []() { refused_connect(); }, 0);
    mc::add("taken", []() { taken(); }, 0);
    mc::add("native", [T]() { native(T ? 6 : 5); }, 0);
}
