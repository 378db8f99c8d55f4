// C13: one outcome per attempt, consistent state, bounded waits.
#include "world.h"
#include <algorithm>
#include <errno.h>
using namespace world;

// the peer's future actions on the virtual clock
struct Plan {
    std::vector<std::pair<uint64_t, std::function<void()>>> q;
    void at(uint64_t delay, std::function<void()> f)
    {
        q.push_back({sim::now_ms() + delay, std::move(f)});
    }
    void run()
    {
        for (size_t i = 0; i < q.size();)
            if (q[i].first <= sim::now_ms()) {
                auto f = q[i].second;
                q.erase(q.begin() + i);
                f();
            } else
                i++;
    }
    uint64_t next()
    {
        uint64_t r = 0;
        for (auto &e : q)
            if (!r || e.first < r)
                r = e.first;
        return r;
    }
};

enum Flavour { F_PLAIN, F_TLS, F_FULL, F_COMP, F_LEGACY, F_COMPONENT, F_SSL, NF };
static const char *fname[] = {"plain",  "tls",       "session+sm", "compress",
                              "legacy", "component", "legacy-ssl"};
struct Run {
    Client c;
    Server srv;
    Plan plan;
    int fl;
    explicit Run(int f) : fl(f)
    {
        srv.install();
        xmpp_conn_set_jid(c.conn, "user@example.org/res");
        xmpp_conn_set_pass(c.conn, "secret");
        setup();
        srv.on_turn = [this](Server &) { plan.run(); };
        sim::W->next_event = [this]() { return plan.next(); };
    }
    void setup()
    {
        auto &g = srv.cfg;
        g = Cfg();
        long flags = 0;
        switch (fl) {
        case F_TLS:
            g.starttls = true;
            g.mechs = {"SCRAM-SHA-1"};
            break;
        case F_FULL:
            g.starttls = true;
            g.session = g.sm = true;
            g.mechs = {"DIGEST-MD5"};
            break;
        case F_COMP:
            flags = XMPP_CONN_FLAG_ENABLE_COMPRESSION;
            g.compress = true;
            break;
        case F_LEGACY:
            flags = XMPP_CONN_FLAG_LEGACY_AUTH;
            g.features = false;
            g.mechs = {};
            break;
        case F_COMPONENT:
            g.component = true;
            xmpp_conn_set_jid(c.conn, "comp.example.org");
            break;
        case F_SSL:
            flags = XMPP_CONN_FLAG_LEGACY_SSL;
            break;
        }
        if (fl != F_COMPONENT)
            xmpp_conn_set_flags(c.conn, flags);
    }
    int connect()
    {
        mc::trace("flavour %s", fname[fl]);
        return fl == F_COMPONENT ? c.connect_component("h", 0)
                                 : c.connect("h", 5222);
    }
    // the connection must come up with an ordinary server
    void must_work(const char *after)
    {
        if (mc::failed())
            return;
        srv.intercept = nullptr;
        srv.muted = false;
        srv.bad.clear();
        plan.q.clear();
        sim::W->on_write = nullptr;
        if (!xmpp_conn_is_disconnected(c.conn))
            return;
        int before = c.count(XMPP_CONN_CONNECT);
        int r = connect();
        if (r != XMPP_EOK) {
            mc::fail("reconnect:refused", "connecting again after %s returned %d",
                     after, r);
            return;
        }
        c.settle(80);
        if (fl == F_LEGACY && !c.connected()) {
            c.run_for(15100);
            c.settle(20);
        }
        if (!c.connected() || c.count(XMPP_CONN_CONNECT) != before + 1)
            mc::fail("reconnect:fails",
                     "%s: the second attempt on the same object does not reach "
                     "the connected state (after %s)",
                     fname[fl], after);
        for (auto &b : srv.bad)
            mc::fail("reconnect:protocol", "second attempt: %s", b.c_str());
    }
};
static Run *start(int fl)
{
    sim::reset();
    return new Run(fl);
}
static void end(Run *r)
{
    r->c.release();
    delete r;
}

// ---------------------------------------------------------- outcomes
enum Act {
    A_EOF,
    A_RST,
    A_END,
    A_END_EOF,
    A_ERROR,
    A_ERROR_END,
    A_EPIPE,
    A_DISC,
    A_DISC_EOF,
    A_RELEASE,
    A_TWICE,
    A_BADROOT,
    A_EOF_THEN_DISC,
    A_ERR_EOF_SAME,
    A_DISC_END,
    NACT
};
static const char *aname[] = {"eof",       "rst",     "stream end",
                              "stream end+eof", "stream error", "error+end",
                              "write error",    "xmpp_disconnect",
                              "xmpp_disconnect+eof", "release",
                              "xmpp_disconnect twice", "bad root",
                              "eof then xmpp_disconnect",
                              "garbage after the end", "disconnect answered"};
static void outcome()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    // stage: number of messages the server has received when it happens;
    // 0: right after the connect call, 1: TCP up, nothing sent back
    int stage = mc::choose(14, "stage");
    int act = mc::choose(NACT, "action");
    int seen = 0, reply = mc::choose(2, "reply first");
    bool hit = stage == 0;
    bool restart = false; // the client expects a new stream
    bool unopened = false;
    r->srv.intercept = [&](Server &s, Msg &m) {
        if (hit)
            return true;
        if (++seen >= stage) {
            hit = true;
            s.muted = true;
            if (reply)
                s.defreply(m);
            restart = reply && (m.step == S_STARTTLS || s.authed) &&
                      m.step != S_OPEN && !s.bound && s.fd >= 0 &&
                      (m.step == S_STARTTLS || m.step == S_AUTH ||
                       m.step == S_RESPONSE || m.step == S_COMPRESS);
            unopened = !reply && m.step == S_OPEN;
            return true;
        }
        return false;
    };
    int rc = r->connect();
    if (rc != XMPP_EOK)
        mc::fail("harness:connect", "connect returned %d", rc);
    for (int i = 0; i < 60 && !hit; i++)
        r->c.step(0);
    if (!hit && fl == F_LEGACY) {
        r->c.run_for(15100);
        for (int i = 0; i < 10 && !hit; i++)
            r->c.step(0);
    }
    if (!hit || (reply && (stage == 0))) {
        end(r); // this negotiation has fewer stages
        return;
    }
    bool ends = true; // must lead to a disconnect
    uint64_t t0 = sim::now_ms(), limit = 50;
    mc::trace("-- %s", aname[act]);
    bool released = false;
    switch (act) {
    case A_EOF:
    case A_EOF_THEN_DISC:
        r->srv.close();
        if (act == A_EOF_THEN_DISC)
            xmpp_disconnect(r->c.conn);
        ends = stage > 0;
        if (!ends && act == A_EOF_THEN_DISC) {
            ends = true;
            limit = 2100;
        }
        break;
    case A_RST:
        if (Sock *k = r->srv.sk())
            k->rst = ECONNRESET;
        ends = stage > 0;
        break;
    case A_END:
        if (unopened)
            r->srv.open_stream();
        r->srv.send("</stream:stream>");
        ends = stage > 0 && !restart;
        break;
    case A_END_EOF:
        if (unopened)
            r->srv.open_stream();
        r->srv.send("</stream:stream>");
        r->srv.close();
        ends = stage > 0;
        break;
    case A_ERROR:
    case A_ERROR_END:
        if (unopened)
            r->srv.send(r->srv.header());
        r->srv.send("<stream:error><conflict xmlns='" NS_STREAMERR_
                    "'/></stream:error>");
        if (act == A_ERROR_END)
            r->srv.send("</stream:stream>");
        r->srv.close();
        ends = stage > 0;
        break;
    case A_EPIPE:
        sim::W->on_write = [](Sock &, const char *, size_t, sim::Layer) -> int {
            return -EPIPE;
        };
        ends = false; // only if something is written
        break;
    case A_DISC:
        xmpp_disconnect(r->c.conn);
        limit = 2100;
        break;
    case A_DISC_EOF:
        xmpp_disconnect(r->c.conn);
        r->srv.close();
        limit = stage ? 50 : 2100;
        break;
    case A_DISC_END:
        xmpp_disconnect(r->c.conn);
        if (unopened)
            r->srv.open_stream();
        r->srv.send("</stream:stream>");
        limit = stage && !restart ? 50 : 2100;
        break;
    case A_TWICE:
        xmpp_disconnect(r->c.conn);
        r->c.step(0);
        xmpp_disconnect(r->c.conn);
        limit = 2100;
        break;
    case A_RELEASE:
        r->c.release_conn();
        released = true;
        break;
    case A_BADROOT:
        ends = false; // only where a stream header is expected
        if (unopened) {
            r->srv.send("<foo xmlns='jabber:client'><bar/><baz/></foo>");
            ends = true;
        } else
            r->srv.send("<foo xmlns='jabber:client'><bar/><baz/></foo>");
        break;
    case A_ERR_EOF_SAME:
        if (unopened)
            r->srv.open_stream();
        r->srv.send("<message/></stream:stream><junk></x>");
        r->srv.close();
        ends = stage > 0;
        break;
    }
    if (!released) {
        for (int i = 0; i < 12 && !mc::failed(); i++)
            r->c.step(0);
        if (ends && limit > 50)
            r->c.run_for(limit + 20, 10);
        if (ends && !mc::failed() && !r->c.disconnected())
            mc::fail("outcome:still-open",
                     "%s, stage %d: %s %llu ms ago did not end the attempt",
                     fname[fl], stage, aname[act],
                     (unsigned long long)(sim::now_ms() - t0));
        if (!mc::failed() && !r->c.disconnected()) {
            // bring it down
            sim::W->on_write = nullptr;
            xmpp_disconnect(r->c.conn);
            r->c.run_for(2100, 10);
            if (!mc::failed() && !r->c.disconnected())
                mc::fail("outcome:disconnect-ignored",
                         "%s, stage %d, %s: xmpp_disconnect() 2.1 s ago had no "
                         "effect",
                         fname[fl], stage, aname[act]);
        }
        // nothing more may be notified
        size_t n = r->c.notes.size();
        if (!mc::failed()) {
            r->c.run_for(100, 50);
            if (r->c.notes.size() != n)
                mc::fail("outcome:late-event", "%s notified after the end",
                         r->c.notes.back().name());
        }
        r->must_work(aname[act]);
    }
    end(r);
}

// ---------------------------------------------------------- deadlines
// waits: which of the server's answers is late
enum Wait { W_FEAT, W_FEAT_TLS, W_FEAT_SASL, W_FEAT_COMP, W_BIND, W_SESSION,
            W_LEGACY, W_HANDSHAKE, NWAIT };
static const char *wname[] = {"features",       "features after TLS",
                              "features after SASL", "features after compression",
                              "bind",  "session", "legacy auth", "handshake"};
struct Late {
    Run *r;
    uint64_t delay[NWAIT] = {0};
    bool never[NWAIT] = {false};
    uint64_t t0[NWAIT] = {0}; // when the wait began
    int streams = 0;
    void later(int w, std::function<void()> f)
    {
        t0[w] = sim::now_ms();
        if (!never[w])
            r->plan.at(delay[w], std::move(f));
    }
    void install()
    {
        r->srv.intercept = [this](Server &s, Msg &m) {
            switch (m.step) {
            case S_OPEN: {
                s.send(s.header());
                if (s.cfg.component || !s.cfg.features)
                    return true;
                int w = s.comp          ? W_FEAT_COMP
                        : s.authed      ? W_FEAT_SASL
                        : s.layer       ? W_FEAT_TLS
                                        : W_FEAT;
                later(w, [&s]() { s.send(s.features()); });
                return true;
            }
            case S_BIND:
            case S_SESSION:
            case S_LEGACY:
            case S_HANDSHAKE: {
                Msg c = m;
                later(m.step == S_BIND      ? W_BIND
                      : m.step == S_SESSION ? W_SESSION
                      : m.step == S_LEGACY  ? W_LEGACY
                                            : W_HANDSHAKE,
                      [&s, c]() mutable { s.defreply(c); });
                return true;
            }
            default:
                return false;
            }
        };
    }
};
static std::vector<int> waits_of(int fl)
{
    switch (fl) {
    case F_PLAIN:
        return {W_FEAT, W_FEAT_SASL, W_BIND};
    case F_TLS:
        return {W_FEAT, W_FEAT_TLS, W_FEAT_SASL, W_BIND};
    case F_FULL:
        return {W_FEAT, W_FEAT_TLS, W_FEAT_SASL, W_BIND, W_SESSION};
    case F_COMP:
        return {W_FEAT, W_FEAT_SASL, W_FEAT_COMP, W_BIND};
    case F_LEGACY:
        return {W_LEGACY};
    case F_COMPONENT:
        return {W_HANDSHAKE};
    case F_SSL:
        return {W_FEAT_TLS, W_FEAT_SASL, W_BIND};
    }
    return {};
}
static const unsigned long slices[] = {1000, 10, 1, 100000};

// every wait just under its deadline, in any combination: comes up
static void in_time()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    Late l{r};
    auto ws = waits_of(fl);
    uint64_t sum = 0;
    for (int w : ws) {
        if (mc::choose(2, wname[w]))
            l.delay[w] = 14999;
        sum += l.delay[w];
    }
    unsigned long sl = slices[mc::choose(2, "slice")];
    l.install();
    r->connect();
    if (fl == F_LEGACY)
        sum += 15000; // the server sends no features
    r->c.run_for(sum + 60, sl);
    r->c.settle();
    if (!mc::failed() && !r->c.connected())
        mc::fail("deadline:early",
                 "%s: every answer came 14999 ms after the request but the "
                 "attempt was given up",
                 fname[fl]);
    end(r);
}
static int idle_global(xmpp_ctx_t *, void *) { return 1; }
static int idle_timed(xmpp_conn_t *, void *) { return 1; }
// one answer missing or late: given up when the deadline passes
static void late()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    Late l{r};
    auto ws = waits_of(fl);
    int k = mc::choose(ws.size(), "late wait"), w = ws[k];
    // earlier waits may take their time
    if (mc::choose(2, "earlier waits slow"))
        for (int i = 0; i < k; i++)
            l.delay[ws[i]] = 9000;
    int how = mc::choose(3, "late by");
    if (how == 0)
        l.never[w] = true;
    else
        l.delay[w] = how == 1 ? 16000 : 15000 + 500;
    unsigned long sl = slices[mc::choose(4, "slice")];
    // does the peer answer the closing tag?
    r->srv.cfg.sync_close = mc::choose(2, "answers close");
    if (how == 2 && sl == 1000)
        l.delay[w] = 17500;
    l.install();
    // other timers must not keep the loop from waking in time
    int others = mc::choose(3, "other timers");
    if (others)
        xmpp_global_timed_handler_add(r->c.ctx, idle_global, 60000, nullptr);
    if (others == 2)
        xmpp_timed_handler_add(r->c.conn, idle_timed, 70000, nullptr);
    r->connect();
    uint64_t start_t = sim::now_ms();
    int guard = 200000;
    while (!l.t0[w] && guard-- > 0 && sim::now_ms() < start_t + 100000 &&
           !r->c.disconnected())
        r->c.step(sl > 1000 ? 1000 : sl);
    if (!l.t0[w] || r->c.disconnected()) {
        mc::fail("deadline:not-reached", "%s: the wait for %s never started",
                 fname[fl], wname[w]);
        end(r);
        return;
    }
    uint64_t t0 = l.t0[w], given = 0;
    bool goes_on = false;
    size_t base = r->srv.count(S_CLOSE);
    while (!given && guard-- > 0 && sim::now_ms() < t0 + 40000) {
        r->c.step(sl);
        // (without features the client may go on with what it knows)
        if (w == W_FEAT || w == W_FEAT_TLS)
            for (auto &m : r->srv.log)
                if ((m.step == S_AUTH || m.step == S_LEGACY) && m.t > t0) {
                    given = m.t;
                    goes_on = true;
                    break;
                }
        if (given)
            ;
        else if ((size_t)r->srv.count(S_CLOSE) > base) {
            for (auto &m : r->srv.log)
                if (m.step == S_CLOSE)
                    given = m.t;
        } else if (r->c.disconnected())
            given = r->c.notes.back().t;
        if (r->c.connected())
            break;
    }
    uint64_t slack = (sl > 20000 ? 0 : sl) + 2;
    if (!given)
        mc::fail("deadline:not-enforced",
                 "%s: no answer to the %s wait for 15 s and the attempt goes on",
                 fname[fl], wname[w]);
    else if (given < t0 + 15000)
        mc::fail("deadline:early", "%s: wait for %s given up after %lld ms",
                 fname[fl], wname[w], (long long)(given - t0));
    else if (given > t0 + 15000 + slack)
        mc::fail("deadline:late",
                 "%s: wait for %s given up after %lld ms (loop slice %lu ms)",
                 fname[fl], wname[w], (long long)(given - t0), sl);
    if (goes_on && !mc::failed())
        r->c.run_for(40000, sl);
    // then the graceful close is bounded as well
    if (!mc::failed() && !goes_on) {
        while (!r->c.disconnected() && guard-- > 0 &&
               sim::now_ms() < given + 10000)
            r->c.step(sl);
        uint64_t d = r->c.disconnected() ? r->c.notes.back().t : 0;
        if (!d)
            mc::fail("deadline:close-not-enforced",
                     "%s: given up the wait for %s but never disconnected",
                     fname[fl], wname[w]);
        else if (d > given + 2000 + slack)
            mc::fail("deadline:close-late", "%s: disconnected %lld ms after the "
                                            "closing tag",
                     fname[fl], (long long)(d - given));
        else if (!r->srv.cfg.sync_close && d != given && d < given + 2000)
            mc::fail("deadline:close-early",
                     "%s: disconnected %lld ms after the closing tag although "
                     "the server had not answered",
                     fname[fl], (long long)(d - given));
    }
    r->must_work("a timeout");
    end(r);
}

// TCP connect: 5 s per address
static void tcp()
{
    int fl = mc::choose(2, "component") ? F_COMPONENT : F_PLAIN;
    Run *r = start(fl);
    int n = 1 + mc::choose(3, "addresses");
    sim::W->on_gai = [n](const std::string &, int) {
        std::vector<std::string> v;
        for (int i = 0; i < n; i++)
            v.push_back(mc::fmt("10.0.0.%d", i + 1));
        return v;
    };
    // which address accepts (n: none) and after how long
    int good = mc::choose(n + 1, "accepting address");
    static const uint64_t ds[] = {0, 4999, 5500, 6999};
    uint64_t delay = good < n ? ds[mc::choose(4, "accepts after")] : 0;
    int others = mc::choose(2, "others refuse late"); // silent or refuse at 3 s
    unsigned long sl = slices[mc::choose(3, "slice")];
    if (delay == 5500 && sl > 10)
        delay = 9000; // noticed one slice late at most
    sim::W->on_connect = [=](const std::string &a, int) {
        return a == mc::fmt("10.0.0.%d", good + 1) ? sim::C_OK
               : others                            ? sim::C_REFUSED
                                                   : sim::C_SILENT;
    };
    sim::W->connect_delay = [=](const std::string &a, int) -> uint64_t {
        return a == mc::fmt("10.0.0.%d", good + 1) ? delay : 3000;
    };
    uint64_t t0 = sim::now_ms();
    r->connect();
    bool works = good < n && delay < 5000;
    uint64_t each = others ? 3000 : 5000;
    // a successful connect ends the run; otherwise all addresses are used up
    uint64_t want = works ? good * each + delay
                          : good < n ? (n - 1) * each + 5000 : n * each;
    uint64_t fin = 0;
    for (int guard = 0; guard < 100000 && sim::now_ms() < t0 + 60000; guard++) {
        r->c.step(sl);
        if (r->c.disconnected() || r->srv.fd >= 0) {
            fin = sim::now_ms();
            break;
        }
    }
    uint64_t slack = (sl + 2) * (n + 1);
    bool ok = !r->c.disconnected();
    if (!fin)
        mc::fail("tcp:endless", "no outcome after 60 s");
    else if (ok != works)
        mc::fail(works ? "tcp:given-up-early" : "tcp:waits-too-long",
                 "%d addresses, number %d accepts after %llu ms: attempt %s "
                 "after %lld ms",
                 n, good, (unsigned long long)delay, ok ? "succeeded" : "failed",
                 (long long)(fin - t0));
    else if (!works && r->c.notes.back().t < t0 + want)
        mc::fail("tcp:early", "given up after %lld ms, want %llu",
                 (long long)(r->c.notes.back().t - t0), (unsigned long long)want);
    else if (fin > t0 + want + slack)
        mc::fail("tcp:late", "outcome after %lld ms, want %llu",
                 (long long)(fin - t0), (unsigned long long)want);
    sim::W->on_connect = nullptr;
    sim::W->connect_delay = nullptr;
    sim::W->on_gai = nullptr;
    if (!ok)
        r->must_work("a failed connect");
    end(r);
}

// the user's disconnect: 2 s at most, whatever the server does meanwhile
static void graceful()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    int stage = mc::choose(13, "stage"), seen = 0;
    bool hit = stage == 0;
    // server's behaviour after the call: silent, carries on negotiating with
    // every answer delayed, answers the close, closes the connection
    int mode = mc::choose(4, "server");
    static const uint64_t ds[] = {0, 1000, 1990, 2500};
    uint64_t d = ds[mc::choose(4, "delay")];
    unsigned long sl = slices[mc::choose(3, "slice")];
    uint64_t tcp_delay = 0;
    if (stage == 0) {
        tcp_delay = mc::choose(2, "tcp slow") ? 4900 : 1000;
        sim::W->connect_delay = [=](const std::string &, int) { return tcp_delay; };
    }
    uint64_t t0 = 0;
    bool unopened = false;
    r->srv.intercept = [&](Server &s, Msg &m) {
        if (!hit) {
            if (++seen < stage)
                return false;
            hit = true;
        }
        if (m.step == S_OPEN)
            unopened = true;
        if (m.step == S_CLOSE) {
            if (mode == 2)
                r->plan.at(d, [&s, &unopened]() {
                    if (unopened)
                        s.send(s.header());
                    s.send("</stream:stream>");
                });
            if (mode == 3)
                r->plan.at(d, [&s]() { s.close(); });
            return true;
        }
        if (mode == 1) {
            Msg c = m;
            r->plan.at(d, [&s, c]() mutable { s.defreply(c); });
            return true;
        }
        return true;
    };
    r->connect();
    for (int i = 0; i < 60 && !hit; i++)
        r->c.step(0);
    if (!hit && fl == F_LEGACY) {
        r->c.run_for(15100);
        for (int i = 0; i < 10 && !hit; i++)
            r->c.step(0);
    }
    if (!hit || r->c.disconnected()) {
        end(r);
        return;
    }
    t0 = sim::now_ms();
    mc::trace("-- xmpp_disconnect");
    xmpp_disconnect(r->c.conn);
    r->c.observe("xmpp_disconnect");
    uint64_t fin = 0;
    for (int guard = 0; guard < 50000 && sim::now_ms() < t0 + 30000; guard++) {
        if (r->c.disconnected()) {
            fin = r->c.notes.back().t;
            break;
        }
        r->c.step(sl);
    }
    uint64_t slack = sl + 3;
    if (!fin)
        mc::fail("close:endless", "%s, stage %d: not disconnected 30 s after "
                                  "xmpp_disconnect()",
                 fname[fl], stage);
    else if (fin > t0 + 2000 + slack)
        mc::fail("close:late",
                 "%s, stage %d: disconnected %lld ms after xmpp_disconnect()",
                 fname[fl], stage, (long long)(fin - t0));
    else if (fin < t0 + 2000 && stage > 0 && mode == 0)
        mc::fail("close:early",
                 "%s, stage %d: disconnected %lld ms after xmpp_disconnect() "
                 "although the server said nothing",
                 fname[fl], stage, (long long)(fin - t0));
    else if (stage > 0 && (mode == 2 || mode == 3) && d < 1900 && fin > t0 + d + slack)
        mc::fail("close:answer-ignored",
                 "%s, stage %d: the server answered the close after %llu ms but "
                 "the notification came after %lld ms",
                 fname[fl], stage, (unsigned long long)d, (long long)(fin - t0));
    sim::W->connect_delay = nullptr;
    r->must_work("xmpp_disconnect");
    end(r);
}

// ---------------------------------------------------------- flags
static void flags()
{
    sim::reset();
    Run *r = new Run(F_PLAIN);
    static const long all[] = {XMPP_CONN_FLAG_DISABLE_TLS,
                               XMPP_CONN_FLAG_MANDATORY_TLS,
                               XMPP_CONN_FLAG_LEGACY_SSL,
                               XMPP_CONN_FLAG_TRUST_TLS,
                               XMPP_CONN_FLAG_LEGACY_AUTH,
                               XMPP_CONN_FLAG_DISABLE_SM,
                               XMPP_CONN_FLAG_ENABLE_COMPRESSION,
                               XMPP_CONN_FLAG_COMPRESSION_DONT_RESET};
    int m = mc::choose(16, "flags") * 16;
    m += mc::choose(16, "flags");
    long f = 0;
    for (int i = 0; i < 8; i++)
        if (m >> i & 1)
            f |= all[i];
    long prev = xmpp_conn_get_flags(r->c.conn);
    int before = mc::choose(3, "previous value");
    if (before) {
        long g = before == 1 ? XMPP_CONN_FLAG_DISABLE_TLS | XMPP_CONN_FLAG_DISABLE_SM
                             : XMPP_CONN_FLAG_MANDATORY_TLS |
                                   XMPP_CONN_FLAG_ENABLE_COMPRESSION |
                                   XMPP_CONN_FLAG_LEGACY_AUTH;
        if (xmpp_conn_set_flags(r->c.conn, g) != XMPP_EOK)
            mc::fail("flags:refused", "flags %#lx refused while disconnected", g);
        prev = xmpp_conn_get_flags(r->c.conn);
        if (prev != g)
            mc::fail("flags:readback", "set %#lx, read %#lx", g, prev);
    }
    int rc = xmpp_conn_set_flags(r->c.conn, f);
    long got = xmpp_conn_get_flags(r->c.conn);
    bool conflict = (f & XMPP_CONN_FLAG_DISABLE_TLS) &&
                    (f & (XMPP_CONN_FLAG_MANDATORY_TLS |
                          XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS));
    if (rc == XMPP_EOK && got != f)
        mc::fail("flags:readback", "set %#lx, read %#lx", f, got);
    if (rc != XMPP_EOK && !conflict)
        mc::fail("flags:refused", "flags %#lx refused while disconnected", f);
    if (rc == XMPP_EOK && conflict)
        mc::fail("flags:conflict-accepted", "contradictory flags %#lx accepted", f);
    if (rc != XMPP_EOK && got != prev)
        mc::fail("flags:refused-changed",
                 "flags %#lx were refused but changed %#lx to %#lx", f, prev, got);
    // an unknown bit is reported
    if (m == 0 && xmpp_conn_set_flags(r->c.conn, 1l << 20) == XMPP_EOK)
        mc::fail("flags:unknown", "unknown flag accepted");
    end(r);
}
// offline-only settings in every state
static void offline()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    int stage = mc::choose(13, "stage"), seen = 0;
    bool hit = stage == 0;
    r->srv.intercept = [&](Server &, Msg &) {
        if (hit)
            return true;
        hit = ++seen >= stage;
        return hit;
    };
    r->connect();
    for (int i = 0; i < 60 && !hit; i++)
        r->c.step(0);
    if (hit && !r->c.disconnected()) {
        static const long all[] = {XMPP_CONN_FLAG_DISABLE_TLS,
                                   XMPP_CONN_FLAG_MANDATORY_TLS,
                                   XMPP_CONN_FLAG_LEGACY_SSL,
                                   XMPP_CONN_FLAG_TRUST_TLS,
                                   XMPP_CONN_FLAG_LEGACY_AUTH,
                                   XMPP_CONN_FLAG_DISABLE_SM,
                                   XMPP_CONN_FLAG_ENABLE_COMPRESSION,
                                   XMPP_CONN_FLAG_COMPRESSION_DONT_RESET};
        long cur = xmpp_conn_get_flags(r->c.conn);
        for (long f : all) {
            int rc = xmpp_conn_set_flags(r->c.conn, f);
            if (rc == XMPP_EOK)
                mc::fail("offline:flags", "%s, stage %d: flags accepted on a "
                                          "live connection",
                         fname[fl], stage);
            if (xmpp_conn_get_flags(r->c.conn) != cur)
                mc::fail("offline:flags-changed",
                         "%s, stage %d: refused flags changed the settings",
                         fname[fl], stage);
        }
        if (xmpp_conn_get_sm_state(r->c.conn))
            mc::fail("offline:get-sm", "SM state handed out in stage %d", stage);
        static const unsigned char blob[] =
            "\x1a\0\0\0\0\x1a\0\0\0\1\x1a\0\0\0\1\x7a\0\0\0\1x\x9a\0\0\0\0\xba"
            "\0\0\0";
        if (xmpp_conn_restore_sm_state(r->c.conn, blob, sizeof blob) == XMPP_EOK)
            mc::fail("offline:restore-sm",
                     "SM state restored into a live connection (stage %d)", stage);
        // a state object of another connection
        xmpp_conn_t *o = xmpp_conn_new(r->c.ctx);
        if (xmpp_conn_restore_sm_state(o, blob, sizeof blob) == XMPP_EOK) {
            xmpp_sm_state_t *st = xmpp_conn_get_sm_state(o);
            if (st) {
                if (xmpp_conn_set_sm_state(r->c.conn, st) == XMPP_EOK)
                    mc::fail("offline:set-sm", "SM state set on a live "
                                               "connection (stage %d)",
                             stage);
                else
                    xmpp_free_sm_state(st);
            }
        }
        xmpp_conn_release(o);
        // connecting again is refused and changes nothing
        size_t nc = sim::W->connects.size();
        int rc = mc::choose(3, "second connect") == 0
                     ? r->c.connect("other", 1)
                     : r->c.connect_raw("other", 1);
        int rc2 = r->c.connect_component("other", 1);
        if (rc == XMPP_EOK || rc2 == XMPP_EOK)
            mc::fail("offline:connect", "a second connect call was accepted in "
                                        "stage %d",
                     stage);
        if (sim::W->connects.size() != nc)
            mc::fail("offline:connect-tcp", "a refused connect call opened a "
                                            "TCP connection");
        if (xmpp_conn_get_flags(r->c.conn) != cur)
            mc::fail("offline:flags-changed",
                     "a refused connect call changed the flags");
        // carry on: the attempt must not have been disturbed
        r->c.raw = false;
        auto li = r->srv.log;
        r->srv.intercept = nullptr;
        if (stage > 0 && !li.empty()) {
            Msg m = li.back();
            r->srv.defreply(m);
        }
        r->c.settle(80);
        if (fl == F_LEGACY && !r->c.connected()) {
            r->c.run_for(15100);
            r->c.settle();
        }
        if (!mc::failed() && !r->c.connected() && stage < 12)
            mc::fail("offline:disturbed",
                     "%s, stage %d: refused calls disturbed the attempt",
                     fname[fl], stage);
        if (!mc::failed()) {
            xmpp_disconnect(r->c.conn);
            r->c.run_for(2100, 100);
        }
        r->must_work("refused calls");
    }
    end(r);
}

// ---------------------------------------------------------- stream errors
static const struct {
    const char *name;
    int type;
} conds[] = {{"bad-format", XMPP_SE_BAD_FORMAT},
             {"bad-namespace-prefix", XMPP_SE_BAD_NS_PREFIX},
             {"conflict", XMPP_SE_CONFLICT},
             {"connection-timeout", XMPP_SE_CONN_TIMEOUT},
             {"host-gone", XMPP_SE_HOST_GONE},
             {"host-unknown", XMPP_SE_HOST_UNKNOWN},
             {"improper-addressing", XMPP_SE_IMPROPER_ADDR},
             {"internal-server-error", XMPP_SE_INTERNAL_SERVER_ERROR},
             {"invalid-from", XMPP_SE_INVALID_FROM},
             {"invalid-id", XMPP_SE_INVALID_ID},
             {"invalid-namespace", XMPP_SE_INVALID_NS},
             {"invalid-xml", XMPP_SE_INVALID_XML},
             {"not-authorized", XMPP_SE_NOT_AUTHORIZED},
             {"policy-violation", XMPP_SE_POLICY_VIOLATION},
             {"remote-connection-failed", XMPP_SE_REMOTE_CONN_FAILED},
             {"resource-constraint", XMPP_SE_RESOURCE_CONSTRAINT},
             {"restricted-xml", XMPP_SE_RESTRICTED_XML},
             {"see-other-host", XMPP_SE_SEE_OTHER_HOST},
             {"system-shutdown", XMPP_SE_SYSTEM_SHUTDOWN},
             {"undefined-condition", XMPP_SE_UNDEFINED_CONDITION},
             {"unsupported-encoding", XMPP_SE_UNSUPPORTED_ENCODING},
             {"unsupported-stanza-type", XMPP_SE_UNSUPPORTED_STANZA_TYPE},
             {"unsupported-version", XMPP_SE_UNSUPPORTED_VERSION},
             {"xml-not-well-formed", XMPP_SE_XML_NOT_WELL_FORMED}};

static void stream_error()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    int stage = 1 + mc::choose(12, "stage"), seen = 0;
    bool hit = false;
    r->srv.intercept = [&](Server &s, Msg &m) {
        if (hit)
            return true;
        hit = ++seen >= stage;
        if (hit && m.step == S_OPEN)
            s.send(s.header());
        return hit;
    };
    r->connect();
    for (int i = 0; i < 60 && !hit; i++)
        r->c.step(0);
    // also once connected
    if (!hit && stage != 12) {
        end(r);
        return;
    }
    for (int i = 0; i < 4; i++)
        r->c.step(0);
    int ci = mc::choose(sizeof conds / sizeof *conds, "condition");
    int text = mc::choose(4, "text");
    static const std::string texts[] = {"", "some text", "a &lt;&amp; b \xc3\xa4",
                                        "multi\nline"};
    static const char *plain[] = {"", "some text", "a <& b \xc3\xa4",
                                  "multi\nline"};
    int form = mc::choose(5, "form");
    std::string cx = mc::fmt("<%s xmlns='" NS_STREAMERR_ "'/>", conds[ci].name);
    if (form == 1)
        cx = mc::fmt("<%s xmlns='" NS_STREAMERR_ "'>other.example</%s>",
                     conds[ci].name, conds[ci].name);
    std::string tx = text ? "<text xmlns='" NS_STREAMERR_ "' xml:lang='en'>" +
                                texts[text] + "</text>"
                          : "";
    std::string app = "<conflict xmlns='urn:app'/>";
    std::string e = "<stream:error>";
    switch (form) {
    case 2:
        e += tx + cx;
        break;
    case 3:
        e += app + cx + tx;
        break;
    case 4:
        e += cx + "\n" + tx + app;
        break;
    default:
        e += cx + tx;
    }
    e += "</stream:error>";
    r->srv.send(e);
    int fin = mc::choose(3, "then");
    if (fin == 0)
        r->srv.send("</stream:stream>");
    if (fin < 2)
        r->srv.close();
    else
        xmpp_disconnect(r->c.conn);
    for (int i = 0; i < 8; i++)
        r->c.step(0);
    r->c.run_for(2100, 100);
    const Note *n = r->c.last();
    if (!mc::failed()) {
        if (!n || n->event != XMPP_CONN_DISCONNECT)
            mc::fail("error:no-disconnect", "the stream error did not end the "
                                            "connection");
        else if (!n->se)
            mc::fail("error:not-reported",
                     "%s, stage %d: <%s/> is not in the disconnect notification",
                     fname[fl], stage, conds[ci].name);
        else {
            if (n->se_type != conds[ci].type)
                mc::fail("error:condition", "<%s/> reported as type %d",
                         conds[ci].name, n->se_type);
            if (text ? !n->se_has_text || n->se_text != plain[text]
                     : n->se_has_text && !n->se_text.empty())
                mc::fail("error:text", "text \"%s\" reported as \"%s\"",
                         plain[text], n->se_text.c_str());
        }
    }
    // the next attempt does not inherit it
    r->must_work("a stream error");
    if (!mc::failed()) {
        r->srv.close();
        r->c.steps(4);
        n = r->c.last();
        if (n && n->event == XMPP_CONN_DISCONNECT && n->se)
            mc::fail("error:stale", "the stream error of the previous connection "
                                    "is reported again");
    }
    end(r);
}

// ---------------------------------------------------------- histories
static void histories(int depth, int flset)
{
    int fl = flset == 0 ? F_PLAIN : flset == 1 ? F_COMPONENT : F_FULL;
    Run *r = start(fl);
    for (int i = 0; i < depth && !mc::failed(); i++) {
        switch (mc::choose(10, "op")) {
        case 0:
            r->connect();
            break;
        case 1:
            mc::trace("settle");
            r->c.settle(60);
            break;
        case 2:
            mc::trace("step");
            r->c.step(0);
            break;
        case 3:
            mc::trace("xmpp_disconnect");
            xmpp_disconnect(r->c.conn);
            r->c.observe("xmpp_disconnect");
            break;
        case 4:
            mc::trace("server closes");
            r->srv.close();
            break;
        case 5:
            mc::trace("2.1 s");
            r->c.run_for(2100, 500);
            break;
        case 6:
            mc::trace("refused connect");
            sim::W->on_connect = [](const std::string &, int) {
                return sim::C_REFUSED;
            };
            r->connect();
            sim::W->on_connect = nullptr;
            break;
        case 7:
            r->c.connect_raw("h", 5222);
            break;
        case 8:
            mc::trace("server ends the stream");
            r->srv.send("</stream:stream>");
            break;
        case 9:
            r->srv.muted = !r->srv.muted;
            mc::trace("server muted: %d", r->srv.muted);
            break;
        }
    }
    if (!mc::failed() && !r->c.disconnected()) {
        xmpp_disconnect(r->c.conn);
        r->c.run_for(2100, 100);
        if (!mc::failed() && !r->c.disconnected())
            mc::fail("outcome:disconnect-ignored",
                     "xmpp_disconnect() 2.1 s ago had no effect");
    }
    r->must_work("a history");
    end(r);
}

// the user acts inside the notification callback
static void in_callback()
{
    int fl = mc::choose(NF, "flavour");
    Run *r = start(fl);
    int on = mc::choose(2, "event"); // on CONNECT or on DISCONNECT
    int what = mc::choose(4, "action");
    int ending = mc::choose(5, "ending");
    bool done = false, expect = false;
    int rc = -100;
    r->c.on_note = [&](const Note &n) {
        if (done)
            return;
        if (on == 0 && n.event != XMPP_CONN_CONNECT)
            return;
        if (on == 1 && n.event != XMPP_CONN_DISCONNECT)
            return;
        done = true;
        switch (what) {
        case 0:
            xmpp_disconnect(r->c.conn);
            break;
        case 1: // connect again
            rc = r->connect();
            if (on == 1) {
                expect = true;
                r->srv.muted = false;
                sim::W->on_write = nullptr;
            }
            break;
        case 2:
            if (on == 1) {
                xmpp_sm_state_t *s = xmpp_conn_get_sm_state(r->c.conn);
                if (s)
                    xmpp_free_sm_state(s);
            } else {
                xmpp_disconnect(r->c.conn);
                xmpp_disconnect(r->c.conn);
            }
            break;
        case 3:
            if (xmpp_conn_set_flags(r->c.conn, xmpp_conn_get_flags(r->c.conn)) ==
                    XMPP_EOK &&
                on == 0)
                mc::fail("offline:flags", "flags accepted in the connected "
                                          "callback");
            break;
        }
    };
    r->connect();
    r->c.settle(60);
    if (fl == F_LEGACY && !r->c.connected() && !r->c.disconnected()) {
        r->c.run_for(15100);
        r->c.settle();
    }
    r->srv.muted = true;
    if (!mc::failed() && !r->c.disconnected())
        switch (ending) {
        case 0:
            r->srv.close();
            break;
        case 1:
            r->srv.send("</stream:stream>");
            break;
        case 2:
            xmpp_disconnect(r->c.conn);
            break;
        case 3:
            r->srv.send("<message/></stream:stream><message/>");
            break;
        case 4:
            r->c.send_xml("<message/>");
            sim::W->on_write = [](Sock &, const char *, size_t,
                                  sim::Layer) -> int { return -EPIPE; };
            break;
        }
    for (int i = 0; i < 6; i++) {
        r->c.step(0);
        if (done)
            sim::W->on_write = nullptr;
    }
    r->srv.muted = false;
    if (!expect)
        r->c.run_for(2100, 100);
    if (expect && rc == XMPP_EOK && !mc::failed()) {
        // the reconnect made inside the callback comes up
        r->c.settle(80);
        if (fl == F_LEGACY && !r->c.connected()) {
            r->c.run_for(15100);
            r->c.settle();
        }
        if (!mc::failed() && !r->c.connected())
            mc::fail("callback:reconnect",
                     "%s: connecting again inside the disconnect callback "
                     "succeeded but never came up",
                     fname[fl]);
    }
    end(r);
}

void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("outcome", outcome, 0);
    mc::add("in-time", in_time, 0);
    mc::add("late", late, 0);
    mc::add("tcp", tcp, 0);
    mc::add("graceful", graceful, 0);
    mc::add("flags", flags, 0);
    mc::add("offline", offline, 0);
    mc::add("stream-error", stream_error, 0);
    mc::add("in-callback", in_callback, 0);
    mc::add("histories", [T]() { histories(T ? 6 : 5, 0); }, 0);
    mc::add("histories-sm", [T]() { histories(T ? 5 : 4, 2); }, 0);
    mc::add("histories-component", [T]() { histories(T ? 5 : 4, 1); }, 0);
}
