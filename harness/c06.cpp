// C06: the send queue is a byte-exact FIFO under any transport back-pressure.
#include "world.h"
#include <errno.h>
using namespace world;

static const std::string R1 = "<r xmlns='urn:xmpp:sm:3'/>";
static const std::string R2 = "<r xmlns=\"urn:xmpp:sm:3\"/>";

struct El {
    std::string text;
    bool user;
    std::string alt; // another legal serialisation
};
// where the wire stands relative to the queue model
struct Pos {
    bool ok = true;
    size_t complete = 0; // elements completely written
    size_t partial = 0;  // bytes of the next element
    bool maybe_r = false; // they may as well be the start of an <r/>
    std::string why;
};
static Pos match(const std::string &wire, const std::vector<El> &q, bool sm)
{
    Pos p;
    size_t w = 0;
    for (;;) {
        if (w == wire.size())
            return p;
        if (p.complete < q.size()) {
            bool full = false;
            for (auto *tp : {&q[p.complete].text, &q[p.complete].alt}) {
                const std::string &t = *tp;
                size_t n = std::min(t.size(), wire.size() - w);
                if (n && wire.compare(w, n, t, 0, n) == 0) {
                    w += n;
                    if (n == t.size()) {
                        p.complete++;
                        full = true;
                        break;
                    }
                    p.partial = n;
                    p.maybe_r = sm && (R1.compare(0, n, t, 0, n) == 0 ||
                                       R2.compare(0, n, t, 0, n) == 0);
                    return p;
                }
            }
            if (full)
                continue;
        }
        if (sm) {
            bool hit = false;
            for (auto &r : {R1, R2}) {
                size_t n = std::min(r.size(), wire.size() - w);
                if (wire.compare(w, n, r, 0, n) == 0) {
                    w += n;
                    hit = true;
                    break;
                }
            }
            if (hit)
                continue;
        }
        p.ok = false;
        p.why = mc::fmt("at byte %zu the wire has \"%s\" where \"%s\" was due", w,
                        mc::printable(wire.substr(w), 60).c_str(),
                        p.complete < q.size()
                            ? mc::printable(q[p.complete].text, 60).c_str()
                            : "(nothing)");
        return p;
    }
}

struct Run {
    Client c;
    Server srv;
    bool tls, sm;
    std::vector<El> q;   // queued and not dropped
    std::vector<std::string> dropped;
    size_t base = 0;     // plain bytes before the exercise
    int serial = 0;
    bool pressure = false;
    bool attempted = false; // a write of the head was refused without progress
    bool may_error = false;
    int alphabet = 0;
    Sock *s = nullptr;

    Run(bool t, bool m) : tls(t), sm(m) {}
    std::string wire()
    {
        std::string r;
        for (auto &g : s->out)
            r += g.data;
        return r.substr(base);
    }
    void policy()
    {
        sim::W->on_write = [this](Sock &, const char *, size_t n,
                                  sim::Layer) -> int {
            if (!pressure)
                return n;
            // alternatives to taking everything
            std::vector<int> alt{(int)n};
            alt.push_back(-EAGAIN);
            if (n > 1) {
                alt.push_back(1);
                if (n > 2)
                    alt.push_back(n - 1);
                if (n > 3)
                    alt.push_back(n / 2);
            }
            if (!tls)
                alt.push_back(-EINTR);
            int r = alt[mc::deviate(alt.size(), "transport takes")];
            if (r < 0)
                attempted = true;
            return r;
        };
    }
    // compare the wire and the queue length with the model
    void check(const char *when)
    {
        std::string w = wire();
        Pos p = match(w, q, sm);
        if (!p.ok) {
            mc::fail("wire:not-fifo", "%s: %s", when, p.why.c_str());
            return;
        }
        int got = c.queue_len();
        bool ok = false;
        int want = 0;
        for (size_t first : firsts(p)) {
            want = 0;
            for (size_t i = first; i < q.size(); i++)
                want += q[i].user;
            ok |= got == want;
        }
        if (!ok)
            mc::fail("len:wrong",
                     "%s: queue length %d, but %d user elements are waiting",
                     when, got, want);
    }
    // index of the first element that has not been started; two answers when
    // that cannot be told from the wire
    std::vector<size_t> firsts(const Pos &p)
    {
        size_t k = p.complete;
        if (p.partial)
            return p.maybe_r ? std::vector<size_t>{k, k + 1}
                             : std::vector<size_t>{k + 1};
        if (attempted && k < q.size())
            return {k + 1, k};
        return {k};
    }
    void push(const std::string &t, bool user) { q.push_back({t, user}); }
    void drop(xmpp_queue_element_t which)
    {
        int before = c.queue_len();
        Pos p = match(wire(), q, sm);
        char *r = xmpp_conn_send_queue_drop_element(c.conn, which);
        mc::trace("  drop %s -> %s", which == XMPP_QUEUE_OLDEST ? "oldest" : "youngest",
                  r ? r : "(null)");
        int after = c.queue_len();
        if (!r) {
            if (before != 0)
                mc::fail("drop:refused", "%d elements reported, none dropped",
                         before);
            return;
        }
        std::string t = r;
        xmpp_free(c.ctx, r);
        if (before == 0)
            mc::fail("drop:from-empty", "dropped \"%s\" although the reported "
                                        "length was 0",
                     mc::printable(t, 80).c_str());
        else if (after != before - 1)
            mc::fail("drop:len", "length went from %d to %d", before, after);
        // candidates: user elements that have not been started
        size_t hit = q.size(), want = q.size();
        for (size_t first : firsts(p)) {
            std::vector<size_t> cand;
            for (size_t i = first; i < q.size(); i++)
                if (q[i].user)
                    cand.push_back(i);
            if (cand.empty())
                continue;
            want = which == XMPP_QUEUE_OLDEST ? cand.front() : cand.back();
            if (t == q[want].text.c_str())
                hit = want;
        }
        if (want == q.size()) {
            mc::fail("drop:not-droppable", "dropped \"%s\" but no user element "
                                           "is waiting",
                     mc::printable(t, 80).c_str());
            return;
        }
        if (hit == q.size()) {
            mc::fail("drop:wrong-element",
                     "dropping the %s returned \"%s\", want \"%s\"",
                     which == XMPP_QUEUE_OLDEST ? "oldest" : "youngest",
                     mc::printable(t, 80).c_str(),
                     mc::printable(q[want].text, 80).c_str());
            return;
        }
        want = hit;
        q.erase(q.begin() + want);
    }
    std::string uniq() { return std::to_string(++serial); }
    void send(int kind)
    {
        std::string u = uniq();
        switch (kind) {
        case 0: { // a stanza
            xmpp_stanza_t *st = xmpp_message_new(c.ctx, nullptr, nullptr, nullptr);
            xmpp_stanza_set_id(st, u.c_str());
            char *b;
            size_t l;
            xmpp_stanza_to_text(st, &b, &l);
            push(b, true);
            xmpp_free(c.ctx, b);
            xmpp_send(c.conn, st);
            xmpp_stanza_release(st);
            break;
        }
        case 1: // raw bytes
            xmpp_send_raw(c.conn, ("<m" + u + "/>").c_str(), 3 + 1 + u.size());
            push("<m" + u + "/>", true);
            break;
        case 2: { // formatted string, longer than the internal buffer
            std::string x(1020 + serial % 3, 'x');
            xmpp_send_raw_string(c.conn, "<l%s>%s</l%s>", u.c_str(), x.c_str(),
                                 u.c_str());
            push("<l" + u + ">" + x + "</l" + u + ">", true);
            break;
        }
        case 3: // formatted, short
            xmpp_send_raw_string(c.conn, "<f a='%d'/>", serial);
            push("<f a='" + u + "'/>", true);
            break;
        case 4: { // not NUL-terminated
            std::string t = "<e" + u + "/>";
            char *p = (char *)malloc(t.size());
            memcpy(p, t.data(), t.size());
            xmpp_send_raw(c.conn, p, t.size());
            free(p);
            push(t, true);
            break;
        }
        case 5: { // NUL bytes inside
            std::string t = "<z" + u + std::string(1, '\0') + "ab" +
                            std::string(2, '\0') + "/>";
            xmpp_send_raw(c.conn, t.data(), t.size());
            push(t, true);
            break;
        }
        }
    }
    void drain()
    {
        pressure = false;
        for (int i = 0; i < 4; i++)
            c.step(0);
        check("after draining");
        Pos p = match(wire(), q, sm);
        if (p.ok && xmpp_conn_is_connected(c.conn) &&
            (p.complete != q.size() || p.partial))
            mc::fail("wire:lost", "%zu of %zu elements reached the wire",
                     p.complete, q.size());
        if (p.ok && p.complete == q.size() && c.queue_len() != 0)
            mc::fail("len:wrong", "everything was sent but the length is %d",
                     c.queue_len());
    }
};

static Run *make(bool tls, bool sm, bool raw)
{
    sim::reset();
    Run *r = new Run(tls, sm);
    r->srv.install();
    xmpp_conn_set_jid(r->c.conn, "user@example.org/res");
    xmpp_conn_set_pass(r->c.conn, "secret");
    r->srv.cfg.sm = sm;
    r->srv.cfg.starttls = tls;
    r->srv.cfg.sync_close = false;
    r->c.lifecycle = false;
    if (raw) {
        r->c.on_note = [r, tls](const Note &n) {
            if (n.event == XMPP_CONN_RAW_CONNECT && tls)
                xmpp_conn_tls_start(r->c.conn);
        };
        r->c.connect_raw("h", 5222);
    } else
        r->c.connect("h", 5222);
    r->c.settle();
    if (!r->c.connected())
        mc::fail("harness:not-connected", "setup did not reach connected");
    r->s = sim::last_sock();
    r->srv.muted = true;
    r->policy();
    for (auto &g : r->s->out)
        r->base += g.data.size();
    return r;
}

// every operation sequence of a given depth
static void ops(Run *r, int depth, bool lib, bool kinds)
{
    bool raw = r->c.raw;
    int closing = 0;
    for (int i = 0; i < depth; i++) {
        if (!r->c.connected())
            break;
        int n = lib ? 6 : 4;
        int op = mc::choose(n, "op");
        switch (op) {
        case 0:
            r->send(kinds ? mc::choose(6, "kind") : (r->serial & 1));
            break;
        case 1: {
            r->pressure = true;
            mc::trace(" run_once");
            r->c.step(0);
            r->pressure = false;
            break;
        }
        case 2:
            r->drop(XMPP_QUEUE_OLDEST);
            break;
        case 3:
            r->drop(XMPP_QUEUE_YOUNGEST);
            break;
        case 4: // an element of the library
            if (raw) {
                char *at[] = {(char *)"n", (char *)r->uniq().c_str()};
                std::string v = r->uniq();
                at[1] = (char *)v.c_str();
                xmpp_conn_open_stream(r->c.conn, at, 2);
                r->push("<?xml version=\"1.0\"?><stream:stream n=\"" + v + "\">",
                        false);
            } else {
                // the answer to <r/> is queued when it is read
                r->srv.send("<r xmlns='" NS_SM_ "'/>");
                r->pressure = true;
                mc::trace(" run_once with <r/>");
                r->c.step(0);
                r->pressure = false;
                r->push("<a xmlns=\"urn:xmpp:sm:3\" h=\"0\"/>", false);
                r->q.back().alt = "<a h=\"0\" xmlns=\"urn:xmpp:sm:3\"/>";
            }
            break;
        case 5:
            if (closing) {
                r->send(0);
                break;
            }
            closing = 1;
            xmpp_disconnect(r->c.conn);
            r->push("</stream:stream>", false);
            break;
        }
        if (mc::failed())
            return;
        r->check("after an operation");
        if (mc::failed())
            return;
    }
}
static void finish(Run *r)
{
    if (!mc::failed())
        r->drain();
    r->c.release();
    delete r;
}

// a fatal write error: what was written stays a prefix, the rest can be
// inspected and dropped while disconnected
static void fatal(bool tls, bool sm)
{
    Run *r = make(tls, sm, !sm);
    for (int i = 0; i < 3; i++)
        r->send(i == 2 ? 3 : i);
    int at = mc::choose(5, "failing write"), how = mc::choose(3, "part");
    int k = 0;
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        if (k++ < at)
            return how == 0 ? n : how == 1 ? 1 : (n + 1) / 2;
        return -EPIPE;
    };
    for (int i = 0; i < 8 && r->c.connected(); i++)
        r->c.step(0);
    Pos p = match(r->wire(), r->q, sm);
    if (!p.ok)
        mc::fail("wire:not-fifo", "after a fatal error: %s", p.why.c_str());
    // dropping in the disconnected state: exact texts, in order
    std::vector<std::string> rest, got;
    for (size_t i = p.complete; i < r->q.size(); i++)
        if (r->q[i].user)
            rest.push_back(r->q[i].text.c_str());
    for (int i = 0; i < 6; i++) {
        char *t = xmpp_conn_send_queue_drop_element(r->c.conn, XMPP_QUEUE_OLDEST);
        if (!t)
            break;
        got.push_back(t);
        xmpp_free(r->c.ctx, t);
    }
    if (xmpp_conn_is_disconnected(r->c.conn)) {
        std::vector<std::string> rest2(rest.begin() + (rest.empty() ? 0 : 1),
                                       rest.end());
        if (got != rest && got != rest2)
            mc::fail("drop:disconnected",
                     "%zu elements handed back after the disconnect, %zu "
                     "unsent",
                     got.size(), rest.size());
    }
    r->c.release();
    delete r;
}

// sends from inside a stanza handler while the queue is blocked
static void from_handler()
{
    Run *r = make(false, true, false);
    static Run *rr;
    rr = r;
    xmpp_handler_add(
        r->c.conn,
        [](xmpp_conn_t *, xmpp_stanza_t *, void *) {
            rr->send(0);
            if (mc::choose(2, "drop in handler"))
                rr->drop(mc::choose(2, "which") ? XMPP_QUEUE_OLDEST
                                                : XMPP_QUEUE_YOUNGEST);
            return 1;
        },
        nullptr, "message", nullptr, nullptr);
    for (int i = 0; i < 3 && !mc::failed(); i++) {
        r->send(i);
        r->srv.send("<message from='a@b'/>");
        r->pressure = true;
        r->c.step(0);
        r->pressure = false;
        if (!mc::failed())
            r->check("after a handler");
    }
    finish(r);
}

// many elements, every combination of two write events
static void burst(bool tls)
{
    Run *r = make(tls, false, true);
    int n = 12;
    for (int i = 0; i < n; i++)
        r->send(i % 6);
    r->pressure = true;
    for (int i = 0; i < 4 && !mc::failed(); i++) {
        r->c.step(0);
        r->check("burst");
    }
    finish(r);
}

// constant acceptance of k bytes per write and m writes per iteration
static void trickle(bool tls)
{
    Run *r = make(tls, false, true);
    int k = 1 + mc::choose(7, "bytes per write"),
        m = 1 + mc::choose(4, "writes per iteration");
    int budget = 0;
    bool eintr = !tls && mc::choose(2, "EINTR");
    sim::W->on_write = [&](Sock &, const char *, size_t n, sim::Layer) -> int {
        if (budget-- <= 0) {
            r->attempted = true;
            return eintr ? -EINTR : -EAGAIN;
        }
        return std::min<size_t>(n, k);
    };
    for (int i = 0; i < 5; i++)
        r->send(i == 2 ? 0 : i);
    for (int i = 0; i < 200 && !mc::failed(); i++) {
        budget = m;
        r->c.step(0);
        r->check("trickle");
        if (i == 9)
            r->drop(XMPP_QUEUE_YOUNGEST);
        if (i == 15)
            r->drop(XMPP_QUEUE_OLDEST);
        if (i == 17)
            r->send(4);
    }
    budget = 1 << 30;
    k = 1 << 20;
    finish(r);
}

// two connections in one context must not mix
static void two()
{
    Run *a = make(false, false, true);
    sim::World *w = sim::W;
    (void)w;
    // a second connection in the same context
    Client c2(false, false);
    xmpp_ctx_free(c2.ctx);
    c2.ctx = a->c.ctx;
    c2.lifecycle = false;
    c2.conn = xmpp_conn_new(a->c.ctx);
    xmpp_conn_set_jid(c2.conn, "b@example.net");
    c2.connect_raw("h2", 5222);
    c2.steps(3);
    Sock *s2 = sim::last_sock();
    size_t base2 = s2->out_total;
    std::string want2;
    a->pressure = true;
    for (int i = 0; i < 4 && !mc::failed(); i++) {
        a->send(i & 1);
        std::string t = mc::fmt("<second n='%d'/>", i);
        xmpp_send_raw(c2.conn, t.data(), t.size());
        want2 += t;
        if (mc::choose(2, "iterate"))
            c2.step(0);
    }
    a->pressure = false;
    c2.step(0);
    c2.step(0);
    std::string got2;
    for (auto &g : s2->out)
        got2 += g.data;
    if (got2.substr(base2) != want2)
        mc::fail("wire:second-connection", "second connection sent \"%s\"",
                 mc::printable(got2.substr(base2)).c_str());
    if (!mc::failed())
        a->drain();
    xmpp_conn_release(c2.conn);
    c2.conn = nullptr;
    c2.ctx = nullptr;
    a->c.release();
    delete a;
}

// stanzas submitted before the stream is negotiated never get into the queue
void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("raw", [T]() { Run *r = make(false, false, true); ops(r, T ? 8 : 6, true, false); finish(r); }, 2, 3);
    mc::add("kinds", [T]() { Run *r = make(false, false, true); ops(r, T ? 5 : 4, false, true); finish(r); }, 2, 3);
    mc::add("raw-tls", [T]() { Run *r = make(true, false, true); ops(r, T ? 7 : 6, true, false); finish(r); }, 1, 2);
    mc::add("sm", [T]() { Run *r = make(false, true, false); ops(r, T ? 7 : 6, true, false); finish(r); }, 1, 2);
    mc::add("burst", []() { burst(false); }, 2, 3);
    mc::add("burst-tls", []() { burst(true); }, 1, 2);
    mc::add("trickle", []() { trickle(false); }, 0);
    mc::add("trickle-tls", []() { trickle(true); }, 0);
    mc::add("fatal", []() { fatal(false, false); }, 0);
    mc::add("fatal-tls", []() { fatal(true, false); }, 0);
    mc::add("fatal-sm", []() { fatal(false, true); }, 0);
    mc::add("handler", []() { from_handler(); }, 1, 2);
    mc::add("two", []() { two(); }, 2, 3);
}
