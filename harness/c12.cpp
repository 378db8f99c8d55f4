// C12: every block is returned to the context's allocator exactly once, not
// too early, and none comes from elsewhere.
#include "nego.h"
#define PROG_STRUCTURE 1
#include "stanza_prog.h"
#include <dlfcn.h>
#include <link.h>
#include <unwind.h>
const char *MON = "C12";

namespace
{
typedef std::string S;
enum Kind {
    K_PLAIN,
    K_SCRAM,
    K_SCRAM_PLUS,
    K_MD5,
    K_LEGACY,
    K_COMPONENT,
    K_ANON,
    K_EXTERNAL,
    K_SSL,
    K_ZLIB,
    K_SESSION,
    K_ALLFAIL,
    K_TLSFAIL,
    K_RAW,
    K_LEGACYFAIL,
    K_BARE, // features without anything
    NKINDS
};
void kind(Nego &n, int k)
{
    auto &g = n.srv.cfg;
    g.mechs = {"PLAIN"};
    switch (k) {
    case K_SCRAM:
        g.mechs = {"SCRAM-SHA-1", "PLAIN"};
        break;
    case K_SCRAM_PLUS:
        g.starttls = true;
        g.mechs = {"SCRAM-SHA-256-PLUS", "SCRAM-SHA-512"};
        break;
    case K_MD5:
        g.mechs = {"DIGEST-MD5"};
        break;
    case K_LEGACY:
    case K_LEGACYFAIL:
        g.features = false;
        n.legacy = true;
        n.fail_all_auth = k == K_LEGACYFAIL;
        break;
    case K_COMPONENT:
        n.component = true;
        n.jid = "example.org";
        break;
    case K_ANON:
        n.jid = "example.org";
        g.mechs = {"ANONYMOUS"};
        break;
    case K_EXTERNAL:
        g.starttls = true;
        n.cert = true;
        g.mechs = {"EXTERNAL", "PLAIN"};
        break;
    case K_SSL:
        n.pol = P_SSL;
        break;
    case K_ZLIB:
        n.compress = true;
        g.compress = true;
        g.sm = true;
        break;
    case K_SESSION:
        g.session = true;
        g.sm = true;
        break;
    case K_ALLFAIL:
        g.mechs = {"SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1",
                   "DIGEST-MD5",    "PLAIN",         "ANONYMOUS"};
        n.fail_all_auth = true;
        n.legacy = true;
        break;
    case K_TLSFAIL:
        g.starttls = true;
        sim::W->on_handshake = [](Sock &, int) { return 0; };
        break;
    case K_BARE:
        g.mechs.clear();
        g.bind = false;
        break;
    }
}
int go(Nego &n, int k)
{
    if (k == K_RAW) {
        n.c.attempts++;
        n.c.raw = true;
        return xmpp_connect_raw(n.c.conn, "h", 5222, Client::handler, &n.c);
    }
    return n.connect();
}
void finish(Nego &n)
{
    n.c.release();
    if (n.c.al)
        n.c.al->report_leaks("leak");
}
void end_wait(Nego &n)
{
    n.run();
    if (!n.c.disconnected())
        n.run_time(2100);
    n.run();
}
void busy(Nego &n, int how)
{
    switch (how) {
    case 1:
        n.c.send_xml("<message id='q1'><body>x</body></message>");
        break;
    case 2:
        xmpp_send_raw_string(n.c.conn, "<message id='%s'/>", "q2");
        break;
    case 3:
        xmpp_send_raw(n.c.conn, "<iq id='q3'/>", 13);
        n.c.send_xml("<presence/>");
        break;
    }
}
enum { NENDS = 17 };
void ending(Nego &n, int how, int k)
{
    xmpp_conn_t *c = n.c.conn;
    switch (how) {
    case 0:
        break;
    case 1:
        xmpp_disconnect(c);
        break;
    case 2:
        xmpp_disconnect(c);
        end_wait(n);
        break;
    case 3:
        n.srv.close();
        end_wait(n);
        break;
    case 4:
        if (Sock *s = n.srv.sk())
            s->rst = ECONNRESET;
        end_wait(n);
        break;
    case 5:
        n.srv.send("<stream:error><conflict xmlns='" NS_STREAMERR_
                   "'/><text xmlns='" NS_STREAMERR_
                   "'>why</text></stream:error></stream:stream>");
        n.srv.close();
        end_wait(n);
        break;
    case 6:
        n.srv.send("<message><body>text</message>");
        end_wait(n);
        break;
    case 7:
        n.srv.close();
        end_wait(n);
        if (n.c.disconnected()) {
            go(n, k);
            n.run();
        }
        break;
    case 8:
        n.srv.muted = true;
        n.run_time(31000);
        break;
    case 9:
        n.srv.muted = true;
        n.srv.cfg.sync_close = false;
        xmpp_disconnect(c);
        n.run_time(2100);
        n.run(3);
        break;
    case 10:
    case 11:
    case 12: {
        n.srv.close();
        end_wait(n);
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(c);
        if (how == 10) {
            n.c.release_conn();
            if (s)
                xmpp_free_sm_state(s);
            break;
        }
        if (how == 12) {
            if (s && xmpp_conn_set_sm_state(c, s) != XMPP_EOK)
                xmpp_free_sm_state(s);
        } else {
            n.c.release_conn();
            n.c.conn = xmpp_conn_new(n.c.ctx);
            n.setup();
            if (s && xmpp_conn_set_sm_state(n.c.conn, s) != XMPP_EOK)
                xmpp_free_sm_state(s);
        }
        go(n, k);
        n.run();
        break;
    }
    case 13: // a piece of a stanza
        n.srv.send("<message from='a'><body a='b'>text<x>more");
        n.run(3);
        break;
    case 14: { // the queue of unsent elements
        if (Sock *s = n.srv.sk())
            (void)s;
        sim::W->on_write = [](Sock &, const char *, size_t n, sim::Layer) {
            return n > 5 ? 5 : -EAGAIN;
        };
        busy(n, 1);
        busy(n, 2);
        busy(n, 3);
        n.run(2);
        while (char *q = xmpp_conn_send_queue_drop_element(
                   c, mc::choose(2, "end of the queue") ? XMPP_QUEUE_OLDEST
                                                         : XMPP_QUEUE_YOUNGEST))
            xmpp_free(n.c.ctx, q);
        busy(n, 3);
        n.run(1);
        sim::W->on_write = nullptr;
        break;
    }
    case 15:
        n.srv.close();
        end_wait(n);
        if (n.c.disconnected()) {
            sim::W->on_connect = [](const S &, int) { return sim::C_REFUSED; };
            go(n, k);
            n.run();
        }
        break;
    case 16: // half an element of the handshake layer, then the user's abort
        n.srv.send("<stream:fea");
        n.run(2);
        xmpp_disconnect(c);
        n.run(1);
        break;
    }
}
// stop at any point of any negotiation
void stop()
{
    sim::reset();
    Nego n;
    int k = mc::choose(NKINDS, "kind of connection");
    kind(n, k);
    int e = mc::choose(mc::thorough() ? 4 : 2, "stanzas queued");
    n.early = e > 1 ? e : 0;
    n.setup();
    int r = go(n, k);
    if (r != XMPP_EOK)
        mc::fail("harness:connect", "connect %d", r);
    int its = mc::choose(30, "iterations");
    int quiet = 0;
    for (int i = 0; i < its; i++) {
        size_t o = n.srv.log.size();
        n.user_early();
        n.c.step(0);
        quiet = o == n.srv.log.size() ? quiet + 1 : 0;
        if (quiet > 5)
            break;
    }
    if (quiet > 5 && its != 29) {
        finish(n);
        return; // the same as a smaller number
    }
    if (e)
        busy(n, 1);
    int how = mc::choose(NENDS, "end");
    ending(n, how, k);
    mc::state(mc::fnv(mc::fmt("%d %d %d", k, its, how)));
    finish(n);
}
// unusual answers of the server
void answers()
{
    sim::reset();
    Nego n;
    int k = mc::choose(NKINDS, "kind of connection");
    kind(n, k);
    n.deviations = true;
    n.fail_all_auth = false;
    n.setup();
    go(n, k);
    n.run();
    static const int ends[] = {0, 2, 3, 6, 7};
    if (n.odd || mc::thorough())
        ending(n, ends[mc::choose(5, "end")], k);
    else
        n.run_time(16000);
    mc::state(mc::fnv(n.c.notes.empty() ? "-" : n.c.notes[0].name()) ^
              n.srv.log.size());
    finish(n);
}
// several connections of one object
enum { NLIVES = 15 };
void life(Nego &n, int how)
{
    sim::W->on_connect = nullptr;
    sim::W->on_handshake = nullptr;
    n.srv.muted = false;
    n.fail_all_auth = false;
    n.srv.cfg.bind = true;
    S stopat;
    n.srv.intercept = [&n](Server &s, Msg &m) { return n.on_msg(s, m); };
    auto cut = [&](Step at, int mode) {
        n.srv.intercept = [&n, at, mode](Server &s, Msg &m) {
            if (m.step == at) {
                if (mode == 0) {
                    s.close();
                    return true;
                }
                if (mode == 1) {
                    s.send("<stream:error><host-unknown xmlns='" NS_STREAMERR_
                           "'/></stream:error>");
                    s.close();
                    return true;
                }
                if (mode == 2) {
                    s.send("<a></b>");
                    return true;
                }
                if (mode == 3) {
                    s.send("<iq type='error' id='" + m.node.attr("id") + "'/>");
                    return true;
                }
                return true; // no answer
            }
            return n.on_msg(s, m);
        };
    };
    switch (how) {
    case 2:
        sim::W->on_connect = [](const S &, int) { return sim::C_REFUSED; };
        break;
    case 3:
        sim::W->on_connect = [](const S &, int) { return sim::C_SILENT; };
        break;
    case 4:
        n.fail_all_auth = true;
        break;
    case 5:
        sim::W->on_handshake = [](Sock &, int) { return 0; };
        break;
    case 6:
        cut(S_OPEN, 1);
        break;
    case 8:
        cut(S_BIND, 3);
        break;
    case 9:
        cut(S_RESPONSE, 0);
        break;
    case 10:
        cut(S_AUTH, 2);
        break;
    case 11:
        cut(S_COMPRESS, 4);
        break;
    case 13:
        cut(S_SM_RESUME, 3);
        break;
    case 14:
        cut(S_OPEN, 4);
        break;
    }
    if (n.connect() != XMPP_EOK)
        mc::fail("harness:connect", "cannot connect again");
    if (how == 12) {
        n.c.step(0);
        xmpp_disconnect(n.c.conn);
    }
    n.run();
    if (n.c.connected()) {
        n.c.send_xml("<message id='x1'/>");
        n.srv.send("<message from='x@y' id='m2'><body>1</body></message>");
        n.run(4);
    }
    switch (how) {
    case 0:
        n.srv.close();
        break;
    case 1:
        xmpp_disconnect(n.c.conn);
        break;
    case 7:
        n.srv.send("<stream:error><conflict xmlns='" NS_STREAMERR_
                   "'/></stream:error></stream:stream>");
        n.srv.close();
        break;
    }
    n.run();
    if (!n.c.disconnected())
        n.run_time(31000);
    if (!n.c.disconnected()) {
        xmpp_disconnect(n.c.conn);
        n.run();
        if (!n.c.disconnected())
            n.run_time(2100);
        n.run(3);
    }
    if (!n.c.disconnected())
        mc::fail("harness:not-ended", "life %d does not end", how);
}
void lives()
{
    sim::reset();
    Nego n;
    n.srv.cfg.mechs = {"SCRAM-SHA-1", "DIGEST-MD5"};
    n.srv.cfg.starttls = mc::choose(2, "TLS");
    n.srv.cfg.sm = true;
    n.srv.cfg.compress = n.compress = mc::choose(2, "compression");
    n.setup();
    int times = mc::thorough() ? 4 : 3;
    for (int i = 0; i < times && !mc::failed(); i++) {
        int how = mc::choose(NLIVES + 1, "life");
        if (how == NLIVES)
            break;
        life(n, how);
    }
    mc::state(mc::fnv(n.c.notes.empty() ? "-" : n.c.notes[0].name()) ^
              n.srv.log.size());
    finish(n);
}
// configuration calls
int h_stanza(xmpp_conn_t *, xmpp_stanza_t *, void *) { return 1; }
int h_timed(xmpp_conn_t *, void *) { return 1; }
int h_global(xmpp_ctx_t *, void *) { return 1; }
int pw(char *b, size_t n, xmpp_conn_t *, void *)
{
    return snprintf(b, n, "pw");
}
const xmpp_log_t *quiet() { return &sim::quiet_log; }
enum { NSETS = 30 };
void one_set(Nego &n, int op)
{
    xmpp_conn_t *c = n.c.conn;
    xmpp_ctx_t *x = n.c.ctx;
    S d = certdir();
    switch (op) {
    case 0:
        xmpp_conn_set_jid(c, "user@example.org/r2");
        break;
    case 1:
        xmpp_conn_set_pass(c, "other");
        break;
    case 2:
        xmpp_conn_set_pass(c, nullptr);
        break;
    case 3:
        xmpp_conn_set_cafile(c, "/nonexistent/ca.pem");
        break;
    case 4:
        xmpp_conn_set_capath(c, "/nonexistent");
        break;
    case 5:
        xmpp_conn_set_client_cert(c, (d + "client1.pem").c_str(),
                                  (d + "client1.key").c_str());
        n.cert = true;
        break;
    case 6:
        n.cert = false;
        xmpp_conn_set_client_cert(c, nullptr, nullptr);
        break;
    case 7:
        xmpp_conn_set_client_cert(c, (d + "client2.pem").c_str(), nullptr);
        n.cert = false;
        break;
    case 8:
        xmpp_conn_set_flags(c, XMPP_CONN_FLAG_DISABLE_TLS |
                                   XMPP_CONN_FLAG_LEGACY_AUTH);
        break;
    case 9:
        xmpp_conn_set_flags(c, XMPP_CONN_FLAG_DISABLE_TLS |
                                   XMPP_CONN_FLAG_LEGACY_SSL);
        break;
    case 10:
        xmpp_conn_set_keepalive(c, 10, 10);
        break;
    case 11:
        xmpp_conn_set_password_callback(c, pw, nullptr);
        break;
    case 12:
        xmpp_handler_add(c, h_stanza, "jabber:x", "message", "chat", &n);
        break;
    case 13:
        xmpp_handler_add(c, h_stanza, nullptr, nullptr, nullptr, nullptr);
        break;
    case 14:
        xmpp_id_handler_add(c, h_stanza, "id1", &n);
        break;
    case 15:
        xmpp_id_handler_add(c, h_stanza, "id1", nullptr);
        break;
    case 16:
        xmpp_id_handler_add(c, h_stanza, "id2", nullptr);
        break;
    case 17:
        xmpp_timed_handler_add(c, h_timed, 5, &n);
        break;
    case 18:
        xmpp_handler_delete(c, h_stanza);
        break;
    case 19:
        xmpp_id_handler_delete(c, h_stanza, "id1");
        break;
    case 20:
        xmpp_timed_handler_delete(c, h_timed);
        break;
    case 21:
        xmpp_global_timed_handler_add(x, h_global, 5, &n);
        break;
    case 22:
        xmpp_global_timed_handler_delete(x, h_global);
        break;
    case 23: {
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(c);
        if (s)
            xmpp_free_sm_state(s);
        break;
    }
    case 24: {
        // restored state with things in both queues, and a damaged one
        static const unsigned char blob[] =
            "SM\0\0\x1a\0\0\0\x01\x9a\0\0\0\x02\x7a\0\0\0\x02"
            "id\x9a\0\0\0\x01\x7a\0\0\0\x04<a/>\xbf\0\0\0\x01\x9a\0\0\0\x01"
            "\x7a\0\0\0\x04<b/>";
        size_t len = sizeof blob - 1;
        len -= mc::choose(3, "missing bytes");
        xmpp_conn_restore_sm_state(c, blob, len);
        break;
    }
    case 25:
        n.c.send_xml("<message/>"); // not connected: goes nowhere
        break;
    case 26:
        xmpp_conn_clone(c);
        if (xmpp_conn_release(c))
            mc::fail("freed-early", "a connection with a second reference was "
                                    "freed");
        break;
    case 27: {
        char *q = xmpp_conn_send_queue_drop_element(c, XMPP_QUEUE_OLDEST);
        if (q)
            xmpp_free(x, q);
        break;
    }
    case 28: {
        xmpp_conn_t *o = xmpp_conn_new(x);
        xmpp_conn_set_jid(o, "a@b");
        xmpp_conn_release(o);
        break;
    }
    case 29: {
        if (n.cert) {
            char *a = xmpp_conn_cert_xmppaddr(c, 0);
            if (a)
                xmpp_free(x, a);
        }
        xmpp_tlscert_t *t = xmpp_conn_get_peer_cert(c);
        if (t)
            xmpp_tlscert_free(t);
        break;
    }
    }
}
void setters()
{
    sim::reset();
    Nego n;
    n.srv.cfg.sm = true;
    n.srv.cfg.starttls = true;
    n.srv.cfg.mechs = {"PLAIN", "EXTERNAL", "ANONYMOUS", "SCRAM-SHA-1"};
    n.setup();
    int len = mc::thorough() ? 4 : 3;
    for (int i = 0; i < len; i++)
        one_set(n, mc::choose(NSETS, "call"));
    if (mc::choose(2, "connect")) {
        n.c.connect("h", 5222);
        n.run();
    }
    finish(n);
}
// state is moved around between connections
void states()
{
    sim::reset();
    Client c;
    Server srv;
    c.lifecycle = false;
    srv.install();
    srv.cfg.sm = true;
    xmpp_conn_t *cn[2] = {c.conn, xmpp_conn_new(c.ctx)};
    S blob[2];
    auto setup = [&](int i) {
        xmpp_conn_set_jid(cn[i], "user@example.org/res");
        xmpp_conn_set_pass(cn[i], "secret");
        xmpp_conn_set_sm_callback(
            cn[i],
            [](xmpp_conn_t *, void *u, const unsigned char *b, size_t k) {
                *(S *)u = S((const char *)b, k);
            },
            &blob[i]);
    };
    setup(0);
    setup(1);
    xmpp_sm_state_t *x = nullptr;
    int cur = -1; // the connection with the server
    auto steps = [&](int k) {
        mc::tick_reset();
        while (k--)
            xmpp_run_once(c.ctx, 0);
    };
    int len = mc::thorough() ? 6 : 5;
    for (int i = 0; i < len; i++) {
        // what is possible now
        std::vector<std::pair<int, int>> en;
        for (int a = 0; a < 2; a++) {
            bool dis = xmpp_conn_is_disconnected(cn[a]);
            if (dis && (cur < 0 || xmpp_conn_is_disconnected(cn[cur])))
                en.push_back({0, a});
            if (!dis) {
                en.push_back({1, a});
                en.push_back({2, a});
                en.push_back({3, a});
                en.push_back({4, a});
            } else {
                if (!x)
                    en.push_back({5, a});
                else
                    en.push_back({6, a});
                if (!blob[a].empty())
                    en.push_back({9, a});
            }
            en.push_back({7, a});
        }
        if (x)
            en.push_back({8, 0});
        auto o = en[mc::choose((int)en.size(), "call")];
        int a = o.second;
        mc::trace("op %d on %d", o.first, a);
        switch (o.first) {
        case 0:
            cur = a;
            xmpp_connect_client(cn[a], "h", 5222, Client::handler, &c);
            steps(16);
            break;
        case 1:
            srv.close();
            steps(4);
            break;
        case 2:
            xmpp_disconnect(cn[a]);
            steps(6);
            break;
        case 3: {
            xmpp_stanza_t *m = xmpp_message_new(c.ctx, "chat", "a@b", "1");
            xmpp_send(cn[a], m);
            xmpp_stanza_release(m);
            if (i & 1)
                steps(3);
            break;
        }
        case 4:
            srv.cfg.auto_ack = !srv.cfg.auto_ack;
            srv.send_stanza("<message from='a@b'><body>x</body></message>");
            steps(3);
            break;
        case 5:
            x = xmpp_conn_get_sm_state(cn[a]);
            break;
        case 6:
            if (xmpp_conn_set_sm_state(cn[a], x) == XMPP_EOK)
                x = nullptr;
            break;
        case 7:
            if (!xmpp_conn_release(cn[a]))
                mc::fail("not-freed", "release of the last reference says that "
                                      "the connection lives");
            cn[a] = xmpp_conn_new(c.ctx);
            setup(a);
            break;
        case 8:
            xmpp_free_sm_state(x);
            x = nullptr;
            break;
        case 9:
            xmpp_conn_restore_sm_state(cn[a],
                                       (const unsigned char *)blob[a].data(),
                                       blob[a].size());
            break;
        }
        mc::step();
    }
    bool first = mc::choose(2, "state is freed before the connections");
    if (x && first)
        xmpp_free_sm_state(x);
    xmpp_conn_release(cn[0]);
    xmpp_conn_release(cn[1]);
    if (x && !first)
        xmpp_free_sm_state(x);
    c.conn = nullptr;
    c.release();
    c.al->report_leaks("leak");
}
// stanzas kept by the user's callbacks outlive the connection
struct Held {
    std::vector<std::pair<xmpp_stanza_t *, S>> s;
    int mode = 0, seen = 0;
    Nego *n = nullptr;
    void keep(xmpp_stanza_t *x)
    {
        s.push_back({xmpp_stanza_clone(x), tree::exact(x)});
    }
};
int h_keep(xmpp_conn_t *c, xmpp_stanza_t *st, void *u)
{
    Held *h = (Held *)u;
    if (st) {
        if (h->mode & 1)
            h->keep(st);
        if (h->mode & 2)
            for (xmpp_stanza_t *k = xmpp_stanza_get_children(st); k;
                 k = xmpp_stanza_get_next(k))
                h->keep(k);
        if (h->mode & 4) {
            xmpp_stanza_t *r = xmpp_stanza_reply(st);
            if (r) {
                h->keep(r);
                // parts of the received stanza go out again
                xmpp_stanza_t *k = xmpp_stanza_get_children(st);
                if (k) {
                    xmpp_stanza_t *cp = xmpp_stanza_copy(k);
                    xmpp_stanza_add_child_ex(r, cp, 0);
                }
                h->s.back().second = tree::exact(r);
                xmpp_send(c, r);
                xmpp_stanza_release(r);
            }
            r = xmpp_stanza_reply_error(st, "cancel", "gone", "x");
            if (r) {
                xmpp_send(c, r);
                xmpp_stanza_release(r);
            }
        }
        if (h->mode & 8) {
            xmpp_stanza_t *e = xmpp_error_new(
                xmpp_conn_get_context(c), XMPP_SE_BAD_FORMAT, "x");
            xmpp_send(c, e);
            h->keep(e);
            xmpp_stanza_release(e);
        }
    }
    return ++h->seen % 3 != 0;
}
void held()
{
    sim::reset();
    Nego n;
    Held h;
    h.n = &n;
    int k = mc::choose(4, "kind");
    static const int kinds[] = {K_PLAIN, K_ZLIB, K_COMPONENT, K_LEGACY};
    kind(n, kinds[k]);
    h.mode = 1 + mc::choose(15, "what is kept");
    int act = mc::choose(6, "what else the handler does");
    xmpp_handler_add(n.c.conn, h_keep, nullptr, nullptr, nullptr, &h);
    xmpp_id_handler_add(n.c.conn, h_keep, "m7", &h);
    n.c.on_note = [&](const Note &x) { n.note(x); };
    n.setup();
    go(n, kinds[k]);
    n.run();
    static const char *docs[] = {
        "<message from='a@b' id='m7'><body>text</body><x xmlns='u'><y/>t</x>"
        "</message>",
        "<iq type='get' from='a@b' id='m7'><query xmlns='q'/></iq>",
        "<iq type='result' from='a@b' id='m8'/>",
        "<presence from='a@b'><show>away</show></presence>",
        "<stream:error><conflict xmlns='urn:ietf:params:xml:ns:xmpp-streams'/>"
        "</stream:error>",
        "<message from='a@b'><body>a</body></message><message from='c@d'><body>"
        "b</body></message>",
    };
    static const int ndocs = sizeof docs / sizeof *docs;
    // the handler's other action takes place right after the second stanza
    struct Act {
        Held *h;
        int act;
    } a{&h, act};
    xmpp_handler_add(
        n.c.conn,
        [](xmpp_conn_t *c, xmpp_stanza_t *, void *u) {
            Act *a = (Act *)u;
            switch (a->act) {
            case 1:
                xmpp_disconnect(c);
                break;
            case 2:
                xmpp_conn_clone(c);
                xmpp_conn_release(c);
                break;
            case 3:
                xmpp_handler_delete(c, h_keep);
                break;
            case 4:
                a->h->n->srv.close();
                break;
            case 5:
                return 0;
            }
            return 1;
        },
        nullptr, nullptr, nullptr, &a);
    for (int i = 0; i < 2; i++) {
        n.srv.send(docs[mc::choose(ndocs, "stanza")]);
        n.run(4);
    }
    switch (mc::choose(3, "end")) {
    case 1:
        n.srv.send("<message from='a'><body>never finished");
        n.run(2);
        break;
    case 2:
        n.srv.close();
        n.run();
        break;
    }
    int order = mc::choose(3, "released");
    auto drop = [&]() {
        for (auto &p : h.s) {
            S e = tree::exact(p.first);
            if (e != p.second)
                mc::fail("held-changed", "a stanza that was kept was %s and is %s",
                         p.second.c_str(), e.c_str());
            char *b;
            size_t len;
            if (xmpp_stanza_to_text(p.first, &b, &len) == XMPP_EOK)
                xmpp_free(n.c.ctx, b);
            // it is no one else's any more, so it can be used elsewhere
            if (order == 1) {
                xmpp_stanza_t *o = xmpp_stanza_new(n.c.ctx);
                xmpp_stanza_set_name(o, "outer");
                xmpp_stanza_t *cp = xmpp_stanza_copy(p.first);
                xmpp_stanza_add_child_ex(o, cp, 0);
                xmpp_stanza_release(o);
            }
        }
        if (order == 2)
            std::reverse(h.s.begin(), h.s.end());
        for (auto &p : h.s)
            xmpp_stanza_release(p.first);
        h.s.clear();
    };
    if (!order)
        drop();
    n.c.release_conn();
    drop();
    finish(n);
}
// reference counts of connections
void refs()
{
    sim::reset();
    Nego n;
    static const int kinds[] = {K_PLAIN, K_ZLIB, K_COMPONENT};
    int k = kinds[mc::choose(3, "kind")];
    kind(n, k);
    n.setup();
    int extra = mc::choose(3, "references"), left = extra;
    for (int i = 0; i < extra; i++)
        if (xmpp_conn_clone(n.c.conn) != n.c.conn)
            mc::fail("clone", "xmpp_conn_clone returns something else");
    auto rel = [&](const char *when) {
        if (!left || !mc::choose(2, when))
            return;
        left--;
        bool was = n.c.connected();
        if (xmpp_conn_release(n.c.conn))
            mc::fail("freed-early", "%s: connection freed with %d references "
                                    "left",
                     when, left + 1);
        if (was != n.c.connected())
            mc::fail("released-early", "%s: the connection was closed with "
                                       "references left",
                     when);
    };
    rel("before");
    go(n, k);
    rel("connecting");
    n.c.steps(4);
    rel("negotiating");
    n.run();
    if (!n.c.connected())
        mc::fail("harness:connect", "not connected");
    rel("connected");
    busy(n, 1);
    n.run(3);
    if (mc::choose(2, "end"))
        n.srv.close();
    else
        xmpp_disconnect(n.c.conn);
    rel("disconnecting");
    n.run();
    rel("disconnected");
    while (left--)
        if (xmpp_conn_release(n.c.conn))
            mc::fail("freed-early", "at the end: freed with references left");
    int r = xmpp_conn_release(n.c.conn);
    if (!r)
        mc::fail("not-freed", "the last release does not free");
    n.c.conn = nullptr;
    finish(n);
}
// small objects
void utils()
{
    sim::reset();
    sim::Alloc al;
    xmpp_ctx_t *x = xmpp_ctx_new(&al.mem, quiet());
    int op = mc::choose(9, "call");
    auto fr = [&](void *p) {
        if (p)
            xmpp_free(x, p);
    };
    static const S in[] = {"", "a", "user@example.org/res", "@", "/", "a@b",
                           S(1030, 'x'), "QUJD", "QUJ", "====", "QQ==",
                           S(3, '\0')};
    const S &v = in[mc::choose(12, "argument")];
    switch (op) {
    case 0:
        fr(xmpp_jid_bare(x, v.c_str()));
        fr(xmpp_jid_node(x, v.c_str()));
        fr(xmpp_jid_domain(x, v.c_str()));
        fr(xmpp_jid_resource(x, v.c_str()));
        break;
    case 1:
        fr(xmpp_jid_new(x, v.c_str(), "b", v.c_str()));
        fr(xmpp_jid_new(x, nullptr, v.c_str(), nullptr));
        fr(xmpp_jid_new(x, nullptr, nullptr, nullptr));
        break;
    case 2: {
        fr(xmpp_base64_encode(x, (const unsigned char *)v.data(), v.size()));
        fr(xmpp_base64_decode_str(x, v.c_str(), v.size()));
        unsigned char *o = nullptr;
        size_t n = 0;
        xmpp_base64_decode_bin(x, v.c_str(), v.size(), &o, &n);
        fr(o);
        break;
    }
    case 3:
        fr(xmpp_uuid_gen(x));
        fr(xmpp_sha1(x, (const unsigned char *)v.data(), v.size()));
        break;
    case 4: {
        xmpp_sha1_t *s = xmpp_sha1_new(x);
        xmpp_sha1_update(s, (const unsigned char *)v.data(), v.size());
        xmpp_sha1_final(s);
        fr(xmpp_sha1_to_string_alloc(s));
        xmpp_sha1_free(s);
        break;
    }
    case 5: {
        xmpp_rand_t *r = xmpp_rand_new(x);
        char b[40];
        xmpp_rand_nonce(r, b, sizeof b);
        xmpp_rand_bytes(r, (unsigned char *)b, 40);
        xmpp_rand_free(x, r);
        break;
    }
    case 6: {
        xmpp_stanza_t *s = xmpp_stanza_new_from_string(x, v.c_str());
        if (s)
            xmpp_stanza_release(s);
        for (S d : {S("<a>"), S("<a/><b/>"), S("<a><b></a>"), S("<a>t"),
                    S("<a/>tail"), S("<a b='c' b='d'/>"), S("<a>t<b>u</b>v</a>"),
                    S("x<a/>"), S("<a>&undefined;</a>"), S("<a></a></b>")}) {
            s = xmpp_stanza_new_from_string(x, d.c_str());
            if (s)
                xmpp_stanza_release(s);
        }
        break;
    }
    case 7: {
        void *p = xmpp_alloc(x, v.size() + 1);
        p = xmpp_realloc(x, p, v.size() * 2 + 1);
        char *q = xmpp_strdup(x, v.c_str()), *r = xmpp_strndup(x, v.c_str(), 2);
        fr(p);
        fr(q);
        fr(r);
        break;
    }
    case 8: {
        xmpp_stanza_t *m = xmpp_message_new(x, "chat", v.c_str(), nullptr);
        xmpp_message_set_body(m, v.c_str());
        xmpp_message_set_body(m, v.c_str());
        fr(xmpp_message_get_body(m));
        fr(xmpp_stanza_get_text(xmpp_stanza_get_children(m)
                                    ? xmpp_stanza_get_children(m)
                                    : m));
        xmpp_stanza_get_attributes(m, nullptr, 0);
        xmpp_stanza_release(m);
        break;
    }
    }
    xmpp_ctx_free(x);
    al.report_leaks("leak");
}
} // namespace
#include "bypass.h"

void register_scenarios()
{
    Client::track_all = true;
    mc::add("programs", [] { prog::run(false); }, 0);
    mc::add("stop", stop, 0);
    mc::add("answers", answers, 1, 2);
    mc::add("lives", lives, 0);
    mc::add("setters", setters, 0);
    mc::add("states", states, 0);
    mc::add("held", held, 0);
    mc::add("refs", refs, 0);
    mc::add("utils", utils, 0);
    mc::add("bypass", bypass::run, 0);
    mc::add("contexts", bypass::contexts, 0);
}
