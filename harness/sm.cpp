#include "sm.h"
#include <errno.h>

namespace smx {
static bool u32(const std::string &b, size_t &i, uint8_t t, uint32_t &v)
{
    if (i + 5 > b.size() || (uint8_t)b[i] != t)
        return false;
    v = 0;
    for (int k = 1; k <= 4; k++)
        v = v << 8 | (uint8_t)b[i + k];
    i += 5;
    return true;
}
static bool str(const std::string &b, size_t &i, std::string &s)
{
    uint32_t l;
    if (!u32(b, i, 0x7a, l) || b.size() - i < l)
        return false;
    s = b.substr(i, l);
    i += l;
    return true;
}
Blob parse_blob(const std::string &b)
{
    Blob r;
    size_t i = 0;
    uint32_t v, n;
    if (!u32(b, i, 0x1a, v) || v != 0 || !u32(b, i, 0x1a, r.sent) ||
        !u32(b, i, 0x1a, r.handled) || !str(b, i, r.id) || !u32(b, i, 0x9a, n))
        return r;
    while (n--) {
        BlobEl e;
        if (!str(b, i, e.text))
            return r;
        r.unsent.push_back(e);
    }
    if (!u32(b, i, 0xba, n))
        return r;
    while (n--) {
        BlobEl e;
        if (!u32(b, i, 0x1a, e.h) || !str(b, i, e.text))
            return r;
        r.unacked.push_back(e);
    }
    r.ok = i == b.size();
    return r;
}
static void put(std::string &o, uint8_t t, uint32_t v)
{
    o += (char)t;
    for (int k = 24; k >= 0; k -= 8)
        o += (char)(v >> k);
}
std::string build_blob(const Blob &b)
{
    std::string o;
    put(o, 0x1a, 0);
    put(o, 0x1a, b.sent);
    put(o, 0x1a, b.handled);
    put(o, 0x7a, b.id.size());
    o += b.id;
    put(o, 0x9a, b.unsent.size());
    for (auto &e : b.unsent) {
        put(o, 0x7a, e.text.size());
        o += e.text;
    }
    put(o, 0xba, b.unacked.size());
    for (auto &e : b.unacked) {
        put(o, 0x1a, e.h);
        put(o, 0x7a, e.text.size());
        o += e.text;
    }
    return o;
}

static void sm_cb(xmpp_conn_t *, void *u, const unsigned char *b, size_t n)
{
    ((Sm *)u)->on_blob(b, n);
}

Sm::Sm()
{
    sim::reset();
    c = new Client();
    srv.cfg.sm = true;
    srv.cfg.auto_ack = false;
    srv.cfg.sync_close = false;
    srv.install();
    sim::W->on_write = [this](Sock &, const char *, size_t n, sim::Layer) -> int {
        if (budget < 0)
            return n;
        if (budget == 0)
            return -EAGAIN;
        if ((size_t)budget < n) {
            int r = budget;
            budget = 0;
            return r;
        }
        budget -= n;
        return n;
    };
    srv.intercept = [this](Server &s, Msg &m) {
        switch (m.step) {
        case S_SM_ENABLE:
            n_enable++;
            if (on_enable)
                on_enable(*this, m);
            else
                enabled(strf(" id='sm%d' resume='true'", ++s.sm_serial));
            return true;
        case S_SM_RESUME:
            n_resume++;
            resume_h = strtoul(m.node.attr("h").c_str(), nullptr, 10);
            if (acct_in && m.node.attr("h") != std::to_string(in))
                mc::fail("in:resume-h", "<resume h='%s'/> but %u stanzas were "
                                        "delivered",
                         m.node.attr("h").c_str(), in);
            if (on_resume)
                on_resume(*this, m);
            else
                resumed(W());
            return true;
        case S_STANZA: {
            if (!active && !sm_off)
                return true;
            if (nw < L.size()) {
                if (m.raw != L[nw]) {
                    std::string all;
                    for (auto &x : L)
                        all += " " + mc::printable(x, 40);
                    mc::fail("out:resend-order",
                             "server got %s, want %s (element %zu of the "
                             "unacknowledged%s)",
                             mc::printable(m.raw, 80).c_str(),
                             mc::printable(L[nw], 80).c_str(), nw, all.c_str());
                    return true;
                }
                nw++;
                if (sm_off) {
                    L.pop_front();
                    nw--;
                }
                return true;
            }
            if (!U.empty() && U.front() == m.raw) {
                U.erase(U.begin());
                if (!sm_off) {
                    L.push_back(m.raw);
                    nw++;
                }
                return true;
            }
            if (sm_off && !L.empty() && nw == L.size() && L.front() == m.raw) {
                // sent again on a stream without stream management
                L.pop_front();
                nw--;
                return true;
            }
            mc::fail("out:unexpected", "server got %s, want %s",
                     mc::printable(m.raw, 80).c_str(),
                     U.empty() ? "nothing" : mc::printable(U.front(), 80).c_str());
            return true;
        }
        case S_R:
            return true;
        case S_A: {
            if (!active) {
                mc::fail("in:answer-inactive", "<a/> without stream management");
                return true;
            }
            std::string h = m.node.attr("h");
            if (r_exp.empty()) {
                mc::fail("in:extra-answer", "more <a/> than <r/>");
                return true;
            }
            if (h != std::to_string(r_exp.front()))
                mc::fail("in:h", "<a h='%s'/> but %u stanzas were delivered "
                                 "before the <r/>",
                         h.c_str(), r_exp.front());
            r_exp.pop_front();
            return true;
        }
        case S_ERR:
            mc::fail("wire:malformed", "the server cannot parse what it gets: %s",
                     s.rd.err.c_str());
            return true;
        default:
            return false;
        }
    };
    setup();
}
Sm::~Sm()
{
    c->release();
    delete c;
}
void Sm::setup()
{
    c->lifecycle = false;
    xmpp_conn_set_flags(c->conn, XMPP_CONN_FLAG_DISABLE_TLS);
    xmpp_conn_set_jid(c->conn, jid.c_str());
    xmpp_conn_set_pass(c->conn, "secret");
    xmpp_conn_set_sm_callback(c->conn, sm_cb, this);
}
void Sm::connect()
{
    // what was never written does not survive
    U.clear();
    active = sm_off = false;
    r_exp.clear();
    connects++;
    int r = c->connect("h", 5222);
    if (r != XMPP_EOK) {
        mc::fail("harness:connect", "connect failed: %d", r);
        return;
    }
    budget = -1;
    c->settle();
}
void Sm::send(int kind)
{
    if (!up()) {
        mc::fail("harness:not-up", "send while not connected");
        return;
    }
    std::string t = el(++serial);
    if (kind == 2)
        t = "<message id='" + std::to_string(serial) + "'><body>" +
            std::string(40, 'x') + "</body></message>";
    if (kind == 1) {
        xmpp_stanza_t *st = xmpp_message_new(c->ctx, nullptr, nullptr,
                                             std::to_string(serial).c_str());
        char *b;
        size_t l;
        xmpp_stanza_to_text(st, &b, &l);
        U.push_back(b);
        xmpp_free(c->ctx, b);
        xmpp_send(c->conn, st);
        xmpp_stanza_release(st);
        mc::trace("send %s", U.back().c_str());
        return;
    }
    U.push_back(t);
    mc::trace("send %s", t.c_str());
    xmpp_send_raw(c->conn, t.data(), t.size());
}
void Sm::step()
{
    c->step(0);
    if (Sock *s = srv.sk())
        srv.pump(*s);
}
void Sm::release_to(uint32_t h)
{
    while (!L.empty() && nw && (int32_t)(h - base) > 0) {
        L.pop_front();
        base++;
        nw--;
    }
}
void Sm::ack(uint32_t h)
{
    mc::trace("server acknowledges %u (written %u, retained from %u)", h, W(), base);
    srv.send(strf("<a xmlns='" NS_SM_ "' h='%u'/>", h));
    release_to(h);
}
void Sm::ack_raw(const std::string &h)
{
    srv.send("<a xmlns='" NS_SM_ "'" + h + "/>");
}
void Sm::recv(const std::string &xml, bool counted)
{
    if (counted && active)
        in++;
    srv.send(xml);
}
void Sm::request()
{
    r_exp.push_back(in);
    srv.send("<r xmlns='" NS_SM_ "'/>");
}
void Sm::drop(xmpp_queue_element_t w)
{
    char *r = xmpp_conn_send_queue_drop_element(c->conn, w);
    mc::trace("drop -> %s", r ? r : "(null)");
    if (!r)
        return;
    std::string t = r;
    xmpp_free(c->ctx, r);
    for (size_t i = 0; i < U.size(); i++)
        if (U[i] == t) {
            U.erase(U.begin() + i);
            return;
        }
    for (size_t i = nw; i < L.size(); i++)
        if (L[i] == t) {
            // the application takes back what is queued to be sent again
            L.erase(L.begin() + i);
            return;
        }
    mc::fail("out:dropped-sent", "drop returned \"%s\", which is not waiting",
             mc::printable(t, 80).c_str());
}
void Sm::lose(int kind)
{
    mc::trace("connection ends (%d): retained %zu from %u, %zu written, %zu queued",
              kind, L.size(), base, nw, U.size());
    Sock *s = srv.sk();
    switch (kind) {
    case 0:
        s->eof = true;
        break;
    case 1:
        s->rst = ECONNRESET;
        break;
    case 2: // not well-formed; the client may send </stream:stream>, then EOF
        srv.send("<a></b>");
        c->steps(2);
        s->eof = true;
        break;
    case 3:
        srv.send("<stream:error><conflict xmlns='" NS_STREAMERR_
                 "'/></stream:error></stream:stream>");
        break;
    case 4:
        srv.send("</stream:stream>");
        break;
    case 5: // the user closes
        xmpp_disconnect(c->conn);
        c->steps(2);
        srv.send("</stream:stream>");
        break;
    case 6: // the server never answers the closing tag
        xmpp_disconnect(c->conn);
        c->run_for(3000);
        break;
    }
    for (int i = 0; i < 6 && !c->disconnected(); i++)
        step();
    if (!c->disconnected())
        c->run_for(3000);
    if (!c->disconnected())
        mc::fail("harness:still-up", "the connection did not end (%d)", kind);
    if (Sock *k = srv.sk())
        srv.pump(*k);
    active = false;
}
void Sm::again(int how)
{
    if (how == MOVE_STATE) {
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(c->conn);
        xmpp_conn_release(c->conn);
        c->conn = xmpp_conn_new(c->ctx);
        c->notes.clear();
        c->open = c->up = false;
        setup();
        int r = st ? xmpp_conn_set_sm_state(c->conn, st) : 0;
        if (r != XMPP_EOK)
            mc::fail("harness:set-state", "xmpp_conn_set_sm_state: %d", r);
    } else if (how == RESTORE) {
        std::string b = last_blob;
        bool have = have_blob;
        c->release();
        delete c;
        c = new Client();
        setup();
        if (have) {
            int r = xmpp_conn_restore_sm_state(
                c->conn, (const unsigned char *)b.data(), b.size());
            if (r != XMPP_EOK)
                mc::fail("restore:refused",
                         "a state given to the callback was refused: %d", r);
        }
    }
}
void Sm::resumed(uint32_t h)
{
    mc::trace("server resumes with h=%u (written %u, retained from %u)", h, W(),
              base);
    release_to(h);
    base = h;
    nw = 0;
    active = true;
    srv.send("<resumed xmlns='" NS_SM_ "' previd='" + bound_id + "' h='" +
             std::to_string(h) + "'/>");
}
void Sm::failed(const std::string &inner, const std::string &h)
{
    mc::trace("server refuses to resume: %s h=%s", inner.c_str(), h.c_str());
    if (!h.empty())
        release_to(strtoul(h.c_str(), nullptr, 10));
    nw = 0;
    srv.send("<failed xmlns='" NS_SM_ "'" +
             (h.empty() ? std::string() : " h='" + h + "'") +
             (inner.empty() ? std::string("/>") : ">" + inner + "</failed>"));
}
void Sm::enabled(const std::string &attrs)
{
    base = 0;
    nw = 0;
    in = 0;
    active = true;
    size_t p = attrs.find("id='");
    bound_id = p == std::string::npos
                   ? ""
                   : attrs.substr(p + 4, attrs.find('\'', p + 4) - p - 4);
    srv.send("<enabled xmlns='" NS_SM_ "'" + attrs + "/>");
}
void Sm::on_blob(const unsigned char *b, size_t n)
{
    have_blob = b && n;
    last_blob.assign((const char *)b, b ? n : 0);
    if (!have_blob || !check_blobs)
        return;
    if (Sock *s = srv.sk())
        srv.pump(*s);
    Blob x = parse_blob(last_blob);
    if (!x.ok) {
        mc::fail("blob:malformed", "the state given to the callback is malformed");
        return;
    }
    if (blob_hook)
        blob_hook(last_blob);
    if (!active)
        return;
    // at every moment the state holds all that must survive
    for (auto &t : L) {
        bool hit = false;
        for (auto &e : x.unacked)
            hit |= e.text == t;
        for (auto &e : x.unsent)
            hit |= e.text == t;
        if (!hit)
            mc::fail("blob:lost", "the state given to the callback lacks %s",
                     mc::printable(t, 80).c_str());
    }
}
void Sm::check(const char *when)
{
    if (Sock *s = srv.sk())
        srv.pump(*s);
    if (!active || !up() || !have_blob || !check_blobs)
        return;
    Blob x = parse_blob(last_blob);
    if (!x.ok)
        return;
    std::string got, want;
    for (auto &e : x.unacked)
        got += strf(" %u:", e.h) + mc::printable(e.text, 40);
    // what waits to be sent again may be in either queue
    bool all = x.unacked.size() > nw;
    for (size_t i = 0; i < (all ? L.size() : nw); i++)
        want += strf(" %u:", base + (uint32_t)i) + mc::printable(L[i], 40);
    if (x.sent != W())
        mc::fail("out:count", "%s: the client's count is %u, but %u stanzas were "
                              "written",
                 when, x.sent, W());
    else if (got != want)
        mc::fail("out:retained", "%s: retained are [%s ], want [%s ]", when,
                 got.c_str(), want.c_str());
    if (acct_in && x.handled != in)
        mc::fail("in:count", "%s: the state says %u handled, but %u stanzas were "
                             "delivered",
                 when, x.handled, in);
    if (x.id != bound_id)
        mc::fail("blob:id", "%s: the state names session \"%s\", want \"%s\"", when,
                 mc::printable(x.id, 60).c_str(), bound_id.c_str());
}
void Sm::drain(const char *when)
{
    budget = -1;
    settle(3);
    if (mc::failed() || !up())
        return;
    check(when);
    if (active && !r_exp.empty())
        mc::fail("in:no-answer", "%s: %zu <r/> were not answered", when,
                 r_exp.size());
    if (active && (nw != L.size() || !U.empty()))
        mc::fail("out:lost", "%s: %zu unacknowledged stanzas were not sent again, "
                             "%zu queued ones were not sent",
                 when, L.size() - nw, U.size());
}
} // namespace smx
