#include "nego.h"
#include <cstdarg>

void Nego::bad(const char *prop, const std::string &key, const char *f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (strcmp(prop, MON) == 0)
        mc::fail(key, "%s", b);
    else
        mc::trace("(%s) %s: %s", prop, key.c_str(), b);
}
static int early_handler(xmpp_conn_t *, xmpp_stanza_t *s, void *ud)
{
    Nego *n = (Nego *)ud;
    if (!n->c.up)
        n->bad("C03", "early:handler",
               "a user stanza handler was called with <%s> before the "
               "connection was reported up",
               xmpp_stanza_get_name(s) ? xmpp_stanza_get_name(s) : "?");
    return 1;
}
static int early_timed(xmpp_conn_t *, void *ud)
{
    Nego *n = (Nego *)ud;
    if (!n->c.up)
        n->bad("C03", "early:timed",
               "a user timed handler was called before the connection was "
               "reported up");
    return 1;
}
Nego::Nego()
{
    // lifecycle violations belong to C13 except for the double CONNECT
    c.lifecycle = false;
    srv.install();
    srv.intercept = [this](Server &s, Msg &m) { return on_msg(s, m); };
    srv.on_send = [this](const std::string &x) { sent(x); };
    srv.on_turn = [this](Server &) {
        for (size_t i = 0; i < later.size();)
            if (later[i].first <= sim::now_ms()) {
                std::string x = later[i].second;
                later.erase(later.begin() + i);
                srv.send(x);
            } else
                i++;
    };
    sim::W->next_event = [this]() {
        uint64_t r = 0;
        for (auto &e : later)
            if (!r || e.first < r)
                r = e.first;
        return r;
    };
    c.on_note = [this](const Note &n) { note(n); };
    xmpp_handler_add(c.conn, early_handler, nullptr, nullptr, nullptr, this);
    xmpp_id_handler_add(c.conn, early_handler, "_xmpp_bind1", this);
    xmpp_id_handler_add(c.conn, early_handler, "m1", this);
    xmpp_timed_handler_add(c.conn, early_timed, 1, this);
}
std::string Nego::dom() const
{
    if (component)
        return jid;
    std::string s = jid.substr(0, jid.find('/'));
    size_t a = s.find('@');
    return a == std::string::npos ? s : s.substr(a + 1);
}
std::string Nego::res() const
{
    size_t p = jid.find('/');
    return p == std::string::npos ? "" : jid.substr(p + 1);
}
void Nego::setup()
{
    xmpp_conn_set_jid(c.conn, jid.c_str());
    xmpp_conn_set_pass(c.conn, pass.empty() ? nullptr : pass.c_str());
    if (cert) {
        std::string d = certdir();
        xmpp_conn_set_client_cert(c.conn, (d + "client1.pem").c_str(),
                                  (d + "client1.key").c_str());
    } else
        xmpp_conn_set_client_cert(c.conn, nullptr, nullptr);
    if (component)
        return;
    long f = 0;
    if (pol == P_DISABLE)
        f |= XMPP_CONN_FLAG_DISABLE_TLS;
    if (pol == P_MANDATORY)
        f |= XMPP_CONN_FLAG_MANDATORY_TLS;
    if (pol == P_SSL)
        f |= XMPP_CONN_FLAG_LEGACY_SSL;
    if (legacy)
        f |= XMPP_CONN_FLAG_LEGACY_AUTH;
    if (compress)
        f |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    if (sm_off)
        f |= XMPP_CONN_FLAG_DISABLE_SM;
    int r = xmpp_conn_set_flags(c.conn, f);
    if (r)
        mc::fail("harness:flags", "set_flags %ld returned %d", f, r);
}
int Nego::connect()
{
    nconnect = 0;
    srv.cfg.component = component;
    srv.cfg.domain = dom();
    mc::trace("client: jid %s, %s%s%s%s%s%s%s", jid.c_str(), polname[pol],
              legacy ? ", legacy auth" : "", compress ? ", compression" : "",
              sm_off ? ", no SM" : "", cert ? ", client certificate" : "",
              component ? ", component" : "", pass.empty() ? ", no password" : "");
    return component ? c.connect_component("h", 0) : c.connect("h", 5222);
}
void Nego::newconn()
{
    cur = uni = Offer();
    expect_open = true;
    restart_due = false;
    out = S_NSTEPS;
    challenged = said_success = said_legacy = bind_ok = session_ok = resumed =
        said_handshake = tls_asked = zlib_on = tls_failed = false;
}
bool Nego::strong_offered() const
{
    for (auto &m : uni.mechs) {
        if (strncasecmp(m.c_str(), "SCRAM-SHA-", 10) == 0) {
            static const char *k[] = {"SCRAM-SHA-1",        "SCRAM-SHA-256",
                                      "SCRAM-SHA-512",      "SCRAM-SHA-1-PLUS",
                                      "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"};
            for (auto x : k)
                if (!strcasecmp(x, m.c_str()))
                    return true;
        }
        if (!strcasecmp(m.c_str(), "DIGEST-MD5"))
            return true;
        if (!strcasecmp(m.c_str(), "EXTERNAL") && cert)
            return true;
    }
    return false;
}
void Nego::sent(const std::string &xml)
{
    if (srv.conn_no != mconn) {
        mconn = srv.conn_no;
        newconn();
    }
    // look at the elements of this piece of the stream
    std::string body = xml;
    size_t p = body.find("<?xml");
    if (p != std::string::npos)
        body.erase(p, body.find("?>", p) + 2 - p);
    bool header = body.compare(0, 14, "<stream:stream") == 0;
    if (header)
        body.erase(0, body.find('>') + 1);
    size_t e = body.find("</stream:stream>");
    if (e != std::string::npos)
        body.erase(e, 16);
    Node w;
    if (!xml_parse_one("<w xmlns='jabber:client' xmlns:stream='" NS_STREAM_ "'>" +
                           body + "</w>",
                       w))
        return;
    for (auto &n : w.kids) {
        if (n.text)
            continue;
        if (n.name == "features" && n.ns == NS_STREAM_) {
            for (Offer *o : {&cur, &uni}) {
                o->seen = true;
                o->starttls |= n.child("starttls", NS_TLS_) != nullptr;
                o->bind |= n.child("bind", NS_BIND_) != nullptr;
                if (auto *s = n.child("session", NS_SESSION_)) {
                    o->session = true;
                    o->session_opt |= s->child("optional") != nullptr;
                }
                o->sm |= n.child("sm", NS_SM_) != nullptr;
                if (auto *x = n.child("compression", NS_COMPF_))
                    for (auto &k : x->kids)
                        o->zlib |= k.name == "method" && k.alltext() == "zlib";
                if (auto *x = n.child("mechanisms", NS_SASL_))
                    for (auto &k : x->kids)
                        if (k.name == "mechanism")
                            o->mechs.insert(k.alltext());
            }
        } else if (n.ns == NS_TLS_) {
            if (out == S_STARTTLS) {
                out = S_NSTEPS;
                if (n.name == "proceed")
                    expect_open = restart_due = true;
            }
        } else if (n.ns == NS_SASL_) {
            if (out == S_AUTH || out == S_RESPONSE) {
                if (n.name == "challenge")
                    challenged = true;
                else {
                    out = S_NSTEPS;
                    if (n.name == "success") {
                        said_success = true;
                        expect_open = restart_due = true;
                    }
                }
            }
        } else if (n.ns == NS_COMP_) {
            if (out == S_COMPRESS) {
                out = S_NSTEPS;
                if (n.name == "compressed") {
                    zlib_on = true;
                    expect_open = restart_due = true;
                }
            }
        } else if (n.name == "iq" && !out_id.empty() && n.attr("id") == out_id) {
            bool ok = n.attr("type") == "result";
            if (out == S_BIND)
                bind_ok = ok;
            else if (out == S_SESSION)
                session_ok = ok;
            else if (out == S_LEGACY)
                said_legacy = ok;
            else
                continue;
            out = S_NSTEPS;
        } else if (n.ns == NS_SM_) {
            if (out == S_SM_ENABLE || out == S_SM_RESUME) {
                if (out == S_SM_RESUME && n.name == "resumed" &&
                    n.attr("previd") == out_previd && n.has("h"))
                    resumed = true;
                out = S_NSTEPS;
            }
        } else if (n.name == "handshake") {
            // (an acknowledgement may cross the request)
            said_handshake = true;
            if (out == S_HANDSHAKE)
                out = S_NSTEPS;
        }
    }
}
bool Nego::on_msg(Server &s, Msg &m)
{
    if (s.conn_no != mconn) {
        mconn = s.conn_no;
        newconn();
    }
    const std::string &r = m.raw;
    const char *what = step_name(m.step);
    // what the user submitted
    if (r.find("early") != std::string::npos) {
        if (!c.up)
            bad("C03", "early:wire",
                "a stanza submitted by the user (%s) reached the wire before "
                "the connection was reported up",
                mc::printable(r, 80).c_str());
        return true;
    }
    if (m.step == S_ERR) {
        bad("C03", "wire:malformed", "%s", srv.rd.err.c_str());
        return true;
    }
    // --- C02
    std::string dec;
    bool data = !m.node.alltext().empty() && m.node.alltext() != "=";
    if (pol == P_MANDATORY && !component && m.layer == 0) {
        if (((m.step == S_AUTH || m.step == S_RESPONSE) && data) ||
            m.step == S_LEGACY)
            bad("C02", "mandatory:auth-in-clear",
                "TLS is mandatory but %s left before TLS: %s", what,
                mc::printable(r, 120).c_str());
        if (!pass.empty() && r.find(pass) != std::string::npos)
            bad("C02", "mandatory:password-in-clear", "%s",
                mc::printable(r, 200).c_str());
    }
    if (pol == P_SSL && m.layer == 0)
        bad("C02", "legacy-ssl:clear", "legacy SSL but sent in the clear: %s",
            mc::printable(r, 80).c_str());
    if (pol == P_DISABLE && (m.step == S_STARTTLS || m.layer))
        bad("C02", "disabled:starttls", "TLS is disabled but the client %s",
            m.layer ? "started it" : "asked for it");
    if (m.step == S_AUTH || m.step == S_RESPONSE) {
        if (m.step == S_AUTH)
            out_mech = m.node.attr("mechanism");
        bool plain = !strcasecmp(out_mech.c_str(), "PLAIN");
        if (m.step == S_AUTH && plain && strong_offered()) {
            std::string l;
            for (auto &x : uni.mechs)
                l += x + " ";
            bad("C02", "plain:stronger-offered",
                "SASL PLAIN used although the server offered %s%s", l.c_str(),
                cert ? "and there is a client certificate" : "");
        }
        if (!plain && !pass.empty() && ref::unb64(m.node.alltext(), dec) &&
            dec.find(pass) != std::string::npos)
            bad("C02", "password:reversible", "%s carries the password: %s",
                out_mech.c_str(), mc::printable(dec, 100).c_str());
    } else if (!pass.empty() && r.find(pass) != std::string::npos &&
               m.step != S_LEGACY)
        bad("C02", "password:leak", "%s carries the password: %s", what,
            mc::printable(r, 200).c_str());
    if (m.step == S_LEGACY && !legacy)
        bad("C02", "legacy:not-enabled",
            "jabber:iq:auth used although the user did not enable it");
    // --- C03
    if (m.step == S_CLOSE)
        return menu(m);
    if (expect_open && m.step != S_OPEN && restart_due) {
        bad("C03", "order:no-restart",
            "%s sent where a new stream is due (after the security layer "
            "changed)",
            what);
        restart_due = false;
    }
    bool req = true, ok = true;
    std::string why;
    auto need = [&](bool cond, const std::string &w) {
        if (ok && !cond) {
            ok = false;
            why = w;
        }
    };
    switch (m.step) {
    case S_OPEN: {
        req = false;
        if (!expect_open)
            bad("C03", "order:unexpected-stream",
                "a new stream was opened although nothing called for it");
        expect_open = restart_due = false;
        cur = Offer();
        const Node &n = m.node;
        if (n.attr("to") != dom())
            bad("C03", "header:to", "stream header is addressed to '%s', want "
                                    "'%s'",
                n.attr("to").c_str(), dom().c_str());
        std::string bare = jid.substr(0, jid.find('/'));
        if (m.layer == 0 && !component &&
            (n.has("from") ||
             (bare.find('@') != std::string::npos &&
              r.find(bare) != std::string::npos)))
            bad("C03", "header:address-in-clear",
                "stream header reveals the address in the clear: %s",
                mc::printable(r, 200).c_str());
        if (m.layer && n.has("from") && n.attr("from") != bare)
            bad("C03", "header:from", "stream header says from='%s', want %s",
                n.attr("from").c_str(), bare.c_str());
        if (n.ns != NS_STREAM_ || n.name != "stream")
            bad("C03", "header:name", "stream header is <%s xmlns='%s'>",
                n.name.c_str(), n.ns.c_str());
        break;
    }
    case S_STARTTLS:
        need(cur.starttls, "the server did not offer it on this stream");
        need(m.layer == 0, "TLS is already up");
        need(!tls_asked, "it was already asked for on this connection");
        need(!said_success, "authentication is over");
        tls_asked = true;
        break;
    case S_AUTH:
        need(uni.mechs.count(m.node.attr("mechanism")) > 0,
             "this mechanism was not offered on this connection");
        need(!cur.starttls || m.layer || pol == P_DISABLE || tls_asked,
             "STARTTLS was offered and comes first");
        need(!said_success, "authentication is already over");
        need(!said_legacy, "authentication is already over");
        challenged = false;
        break;
    case S_RESPONSE:
        need(challenged, "there is no challenge to answer");
        challenged = false;
        if (out == S_AUTH || out == S_RESPONSE)
            out = S_NSTEPS;
        break;
    case S_LEGACY:
        need(!said_success && !said_legacy, "authentication is already over");
        break;
    case S_COMPRESS:
        need(cur.zlib, "the server did not offer zlib on this stream");
        need(said_success, "not authenticated");
        need(!zlib_on, "compression is already on");
        need(compress, "the user did not enable compression");
        need(!bind_ok, "a resource is already bound");
        break;
    case S_BIND: {
        need(cur.bind, "the server did not offer resource binding on this "
                       "stream");
        need(said_success, "not authenticated");
        need(!bind_ok && !resumed, "a resource is already bound");
        int n = 0;
        std::string got;
        for (auto &k : m.node.child("bind", NS_BIND_)->kids)
            if (k.name == "resource") {
                n++;
                got = k.alltext();
            }
        if (n > 1 || got != res() || (n == 1 && res().empty()))
            bad("C03", "bind:resource",
                "bind request asks for %d resources ('%s'), configured: '%s'", n,
                got.c_str(), res().c_str());
        break;
    }
    case S_SESSION:
        need(cur.session, "the server did not offer it on this stream");
        need(bind_ok, "no resource is bound");
        need(!session_ok, "the session is already established");
        break;
    case S_SM_ENABLE:
        need(cur.sm, "the server did not offer stream management");
        need(!sm_off, "the user disabled stream management");
        need(bind_ok, "no resource is bound");
        break;
    case S_SM_RESUME:
        need(cur.sm, "the server did not offer stream management");
        need(!sm_off, "the user disabled stream management");
        need(said_success, "not authenticated");
        need(!bind_ok && !resumed, "a resource is already bound");
        need(srv.sessions.count(m.node.attr("previd")) > 0,
             "there is no such session");
        out_previd = m.node.attr("previd");
        break;
    case S_HANDSHAKE:
        need(component, "not a component");
        break;
    default:
        req = false;
    }
    if (req) {
        if (ok && out != S_NSTEPS && !(m.step == S_RESPONSE))
            need(false, mc::fmt("the %s request is still unanswered",
                                step_name(out)));
        if (!ok)
            bad("C03", std::string("order:") + what, "%s sent but %s: %s", what,
                why.c_str(), mc::printable(r, 150).c_str());
        out = m.step;
        out_id = m.node.name == "iq" ? m.node.attr("id") : "";
    } else if (m.step != S_OPEN && !c.up && m.step != S_R && m.step != S_A &&
               !(m.node.name == "error" && m.node.ns == NS_STREAM_))
        bad("C03", "order:stray", "%s sent during the negotiation: %s", what,
            mc::printable(r, 150).c_str());
    return menu(m);
}
void Nego::note(const Note &n)
{
    if (n.event == XMPP_CONN_CONNECT) {
        c.up = true;
        if (++nconnect > 1)
            bad("C03", "connected:twice",
                "connected was notified %d times for one connection", nconnect);
        const char *why = nullptr;
        if (component) {
            if (!said_handshake)
                why = "the handshake was not acknowledged";
        } else if (!said_legacy) {
            if (!said_success)
                why = "authentication has not succeeded";
            else if (expect_open)
                why = "the stream was not restarted";
            else if (!bind_ok && !resumed)
                why = "no resource was bound and no session resumed";
            else if (out == S_SESSION || (!resumed && cur.session &&
                                          !cur.session_opt && !session_ok))
                why = "the session request was not answered";
            else if (out != S_NSTEPS)
                why = "a request is still unanswered";
        }
        if (why)
            bad("C03", "connected:early", "connected was notified but %s", why);
        if (pol == P_MANDATORY && !component && !n.secured)
            bad("C02", "mandatory:connected-in-clear",
                "connected without TLS although it is mandatory");
    }
    if (n.event == XMPP_CONN_DISCONNECT)
        c.up = false;
}
void Nego::user_early()
{
    if (!early || c.up || early_n > 200)
        return;
    std::string x = mc::fmt("<message id='early-%d'/>", early_n++);
    switch (early) {
    case 1:
        c.send_xml(x);
        break;
    case 2:
        xmpp_send_raw(c.conn, x.data(), x.size());
        break;
    case 3:
        xmpp_send_raw_string(c.conn, "%s", x.c_str());
        break;
    }
}
void Nego::run(int it)
{
    int quiet = 0;
    while (it-- > 0 && quiet < 3 && !mc::failed()) {
        size_t o = srv.log.size(), n = c.notes.size();
        Sock *k = sim::last_sock();
        bool pend = k && (!k->in.empty() || !k->tls_plain.empty());
        user_early();
        c.step(0);
        quiet = o == srv.log.size() && n == c.notes.size() && !pend &&
                        sim::last_sock() == k
                    ? quiet + 1
                    : 0;
    }
}
void Nego::run_time(uint64_t ms)
{
    uint64_t end = sim::now_ms() + ms;
    while (sim::now_ms() < end && !mc::failed() &&
           !xmpp_conn_is_disconnected(c.conn)) {
        user_early();
        uint64_t b = sim::W->now_us;
        c.step(1000);
        if (sim::W->now_us == b)
            sim::advance(1);
    }
}
// ------------------------------------------------------------- the server
bool Nego::menu(Msg &m)
{
    const std::string msg = "<message id='m1' from='x@example.org'><body>x</body>"
                            "</message>";
    auto deflt = [&]() { srv.defreply(m); };
    auto sasl_fail = [&]() {
        srv.send("<failure xmlns='" NS_SASL_ "'><not-authorized/></failure>");
    };
    if (fail_all_auth && (m.step == S_AUTH || m.step == S_RESPONSE)) {
        sasl_fail();
        return true;
    }
    if (fail_all_auth && m.step == S_LEGACY) {
        srv.send("<iq type='error' id='" + m.node.attr("id") + "'/>");
        return true;
    }
    if (!deviations)
        return false;
    auto dev = [&](int n) {
        int k = mc::deviate(n, step_name(m.step));
        odd += k != 0;
        return k;
    };
    std::string id = m.node.attr("id");
    switch (m.step) {
    case S_OPEN:
        if (component) {
            switch (dev(4)) {
            case 0:
                return false;
            case 1:
                srv.send("<?xml version='1.0'?><stream:stream "
                         "xmlns='jabber:component:accept' xmlns:stream='" NS_STREAM_
                         "' from='c'>");
                break;
            case 2:
                srv.send(srv.header() + "<handshake/>");
                break;
            case 3:
                srv.send(srv.header() + msg);
                break;
            }
            return true;
        }
        switch (dev(7)) {
        case 0:
            return false;
        case 1:
            srv.send(srv.header());
            break;
        case 2: {
            srv.send(srv.header());
            later.push_back({sim::now_ms() + 15500, srv.features()});
            break;
        }
        case 3: {
            std::string f = srv.features();
            srv.send(srv.header() + f + f);
            break;
        }
        case 4:
            srv.send(srv.header() + msg + srv.features());
            break;
        case 5:
            srv.send(srv.header() + "<success xmlns='" NS_SASL_ "'/>" +
                     srv.features());
            break;
        case 6:
            srv.send("<stream:stream xmlns='jabber:client' xmlns:stream='" NS_STREAM_
                     "' version='1.0'>");
            srv.send(srv.features());
            break;
        }
        return true;
    case S_STARTTLS:
        switch (dev(9)) {
        case 0:
            return false;
        case 1:
            srv.send("<failure xmlns='" NS_TLS_ "'/>");
            break;
        case 2:
            srv.send("<proceed xmlns='" NS_TLS_ "'/><proceed xmlns='" NS_TLS_
                     "'/>");
            break;
        case 3:
            srv.send("<proceed xmlns='" NS_TLS_ "'/><stream:features><mechanisms "
                     "xmlns='" NS_SASL_
                     "'><mechanism>PLAIN</mechanism></mechanisms></"
                     "stream:features>");
            break;
        case 4:
            srv.send(msg + "<proceed xmlns='" NS_TLS_ "'/>");
            break;
        case 5:
            srv.send("<foo xmlns='" NS_TLS_ "'/>");
            break;
        case 6:
            sim::W->on_handshake = [](Sock &, int) { return 0; };
            srv.send("<proceed xmlns='" NS_TLS_ "'/>");
            break;
        case 7:
            srv.send("<success xmlns='" NS_SASL_ "'/>");
            break;
        case 8:
            srv.send("<failure xmlns='" NS_TLS_
                     "'/><stream:features><mechanisms xmlns='" NS_SASL_
                     "'><mechanism>PLAIN</mechanism></mechanisms></"
                     "stream:features>");
            break;
        }
        return true;
    case S_AUTH:
        switch (dev(9)) {
        case 0:
            return false;
        case 1:
            sasl_fail();
            break;
        case 2:
            srv.authed = true;
            srv.send("<success xmlns='" NS_SASL_ "'/>");
            break;
        case 3:
            srv.authed = true;
            srv.send("<success xmlns='" NS_SASL_ "'/><success xmlns='" NS_SASL_
                     "'/>");
            break;
        case 4:
            srv.authed = true;
            srv.send("<success xmlns='" NS_SASL_ "'/>" + srv.features());
            break;
        case 5:
            srv.send("<challenge xmlns='" NS_SASL_ "'>AAAA</challenge>");
            break;
        case 6:
            srv.send(msg);
            deflt();
            break;
        case 7:
            srv.send("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NS_BIND_
                     "'><jid>a@b/c</jid></bind></iq>");
            deflt();
            break;
        case 8:
            srv.send("<foo xmlns='" NS_SASL_ "'/>");
            break;
        }
        return true;
    case S_RESPONSE:
        switch (dev(5)) {
        case 0:
            return false;
        case 1:
            sasl_fail();
            break;
        case 2:
            srv.authed = true;
            srv.send("<success xmlns='" NS_SASL_ "'/><success xmlns='" NS_SASL_
                     "'/>");
            break;
        case 3:
            srv.send("<challenge xmlns='" NS_SASL_ "'>AAAA</challenge>");
            break;
        case 4:
            srv.send(msg);
            deflt();
            break;
        }
        return true;
    case S_COMPRESS:
        switch (dev(4)) {
        case 0:
            return false;
        case 1:
            srv.send("<failure xmlns='" NS_COMP_ "'><setup-failed/></failure>");
            break;
        case 2:
            srv.send(srv.default_features());
            break;
        case 3:
            srv.send(msg);
            deflt();
            break;
        }
        return true;
    case S_BIND:
        switch (dev(10)) {
        case 0:
            return false;
        case 1:
            srv.send("<iq type='error' id='" + id + "'><error type='cancel'/></iq>");
            break;
        case 2:
            srv.send("<iq type='result' id='other'><bind xmlns='" NS_BIND_
                     "'><jid>a@b/c</jid></bind></iq>");
            break;
        case 3:
            srv.send("<iq type='result' id='" + id + "'/>");
            break;
        case 4:
            deflt();
            deflt();
            break;
        case 5:
            srv.send("<iq id='" + id + "'/>");
            break;
        case 6:
            srv.send("<iq type='set' id='" + id + "'/>");
            break;
        case 7:
            srv.send(msg);
            deflt();
            break;
        case 8:
            srv.send("<enabled xmlns='" NS_SM_ "'/>");
            deflt();
            break;
        case 9:
            srv.send("<resumed xmlns='" NS_SM_ "' previd='sm1' h='0'/>");
            deflt();
            break;
        }
        return true;
    case S_SESSION:
        switch (dev(5)) {
        case 0:
            return false;
        case 1:
            srv.send("<iq type='error' id='" + id + "'/>");
            break;
        case 2:
            deflt();
            deflt();
            break;
        case 3:
            srv.send("<iq type='result' id='other'/>");
            break;
        case 4:
            srv.send("<iq type='result' id='_xmpp_bind1'/>");
            deflt();
            break;
        }
        return true;
    case S_SM_ENABLE:
        switch (dev(8)) {
        case 0:
            return false;
        case 1:
            srv.send("<enabled xmlns='" NS_SM_ "'/>");
            break;
        case 2:
            srv.send("<failed xmlns='" NS_SM_ "'><unexpected-request xmlns='"
                     NS_STANZAS_ "'/></failed>");
            break;
        case 3:
            srv.send("<failed xmlns='" NS_SM_ "'/>");
            break;
        case 4:
            srv.send("<resumed xmlns='" NS_SM_ "' previd='sm1' h='0'/>");
            break;
        case 5:
            srv.send("<enabled xmlns='" NS_SM_ "'/><enabled xmlns='" NS_SM_ "'/>");
            break;
        case 6:
            srv.send("<enabled xmlns='" NS_SM_ "' resume='true'/>");
            break;
        case 7:
            srv.send(msg);
            deflt();
            break;
        }
        return true;
    case S_SM_RESUME: {
        std::string pv = m.node.attr("previd");
        switch (dev(9)) {
        case 0:
            return false;
        case 1:
            srv.send("<failed xmlns='" NS_SM_ "'><item-not-found xmlns='"
                     NS_STANZAS_ "'/></failed>");
            break;
        case 2:
            srv.send("<failed xmlns='" NS_SM_ "' h='0'><item-not-found xmlns='"
                     NS_STANZAS_ "'/></failed>");
            break;
        case 3:
            srv.send("<failed xmlns='" NS_SM_ "'><unexpected-request xmlns='"
                     NS_STANZAS_ "'/></failed>");
            break;
        case 4:
            srv.send("<enabled xmlns='" NS_SM_ "' id='zz' resume='true'/>");
            break;
        case 5:
            srv.send("<resumed xmlns='" NS_SM_ "' previd='zz' h='0'/>");
            break;
        case 6:
            srv.send("<failed xmlns='" NS_SM_ "'/>");
            break;
        case 7:
            srv.send("<resumed xmlns='" NS_SM_ "' previd='" + pv + "'/>");
            break;
        case 8:
            srv.send("<failed xmlns='" NS_SM_ "'><feature-not-implemented xmlns='"
                     NS_STANZAS_ "'/></failed>");
            break;
        }
        return true;
    }
    case S_LEGACY:
        switch (dev(5)) {
        case 0:
            return false;
        case 1:
            srv.send("<iq type='error' id='" + id + "'/>");
            break;
        case 2:
            deflt();
            deflt();
            break;
        case 3:
            later.push_back({sim::now_ms() + 1000, srv.default_features()});
            deflt();
            break;
        case 4:
            srv.send(srv.default_features());
            deflt();
            break;
        }
        return true;
    case S_HANDSHAKE:
        switch (dev(5)) {
        case 0:
            return false;
        case 1:
            srv.send("<handshake/><handshake/>");
            break;
        case 2:
            srv.send("<foo/>");
            break;
        case 3:
            srv.send(msg + "<handshake/>");
            break;
        case 4:
            srv.send("<stream:error><not-authorized xmlns='" NS_STREAMERR_
                     "'/></stream:error></stream:stream>");
            srv.close();
            break;
        }
        return true;
    default:
        return false;
    }
}
