// C03: negotiation follows the server's offers; connected means negotiated.
#include "nego.h"
const char *MON = "C03";

static void finish(Nego &n)
{
    mc::state(mc::fnv(n.c.notes.empty() ? "-" : n.c.notes[0].name()) ^
              (n.srv.log.size() << 8) ^ n.nconnect);
    n.c.release();
}
static void must_be_up(Nego &n, const char *why)
{
    if (!mc::failed() && !n.c.up)
        n.bad("C03", "never-connected",
              "the negotiation does not reach 'connected' although %s", why);
}
static std::string B(const std::string &inner)
{
    return "<stream:features>" + inner + "</stream:features>";
}
// what is offered on each stream x how the client is configured
static void offers(bool dev)
{
    sim::reset();
    Nego n;
    auto &g = n.srv.cfg;
    n.compress = mc::choose(2, "compression enabled");
    n.sm_off = mc::choose(2, "SM disabled");
    n.pol = mc::choose(dev ? 2 : NPOL, "policy");
    g.starttls = n.pol != P_SSL && mc::choose(2, "starttls");
    g.compress = mc::choose(2, "zlib offered");
    g.bind = mc::choose(2, "bind offered") == 0;
    int s = mc::choose(3, "session offered");
    g.session = s;
    g.session_optional = s == 2;
    g.sm = mc::choose(2, "sm offered");
    static const char *m[] = {"PLAIN", "SCRAM-SHA-1", "DIGEST-MD5", "X-OTHER"};
    g.mechs = {m[mc::choose(dev ? 1 : 4, "mechanism")]};
    n.early = mc::choose(dev ? 2 : 4, "early submission");
    n.deviations = dev;
    if (dev)
        g.coalesce = mc::choose(2, "header and features coalesced");
    n.setup();
    n.connect();
    n.run();
    bool tls_missing = n.pol == P_MANDATORY && !g.starttls;
    if (!n.odd && g.bind && g.mechs[0] != "X-OTHER" && !tls_missing)
        must_be_up(n, "everything needed was offered and answered");
    if (dev) {
        n.run_time(16500);
        n.run(10);
        n.run_time(16500);
    }
    finish(n);
}
// the answers of the server deviate
static void answers()
{
    sim::reset();
    Nego n;
    auto &g = n.srv.cfg;
    int f = mc::choose(7, "flavour");
    static const char *fn[] = {"everything", "plain", "compression", "legacy",
                               "component", "legacy SSL", "anonymous"};
    mc::trace("flavour: %s", fn[f]);
    switch (f) {
    case 0:
        g.starttls = g.session = g.sm = true;
        g.mechs = {"SCRAM-SHA-1", "DIGEST-MD5", "PLAIN"};
        break;
    case 1:
        n.legacy = mc::choose(2, "legacy auth enabled");
        g.sm = true;
        break;
    case 2:
        n.compress = g.compress = g.session = true;
        g.mechs = {"DIGEST-MD5"};
        break;
    case 3:
        n.legacy = true;
        g.mechs = {};
        g.features = mc::choose(2, "version 1.0 server") == 0;
        break;
    case 4:
        n.component = true;
        n.jid = "comp.example.org";
        break;
    case 5:
        n.pol = P_SSL;
        g.sm = true;
        g.mechs = {"SCRAM-SHA-256"};
        break;
    case 6:
        n.jid = "example.org";
        n.pass = "";
        g.mechs = {"ANONYMOUS"};
        g.session = true;
        g.session_optional = true;
        break;
    }
    n.early = mc::choose(2, "early submission");
    n.deviations = true;
    n.setup();
    n.connect();
    n.run();
    if (!n.c.up && !n.c.disconnected()) {
        n.run_time(16500);
        n.run(10);
    }
    if (!n.odd)
        must_be_up(n, "everything needed was offered and answered");
    // nothing that arrives later may repeat the notification
    if (n.c.up && !mc::failed()) {
        switch (mc::deviate(6, "later")) {
        case 0:
            break;
        case 1:
            n.srv.send(n.srv.default_features());
            break;
        case 2:
            n.srv.send("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NS_BIND_
                       "'><jid>user@example.org/x</jid></bind></iq>"
                       "<iq type='result' id='_xmpp_session1'/><iq type='result' "
                       "id='_xmpp_auth1'/>");
            break;
        case 3:
            n.srv.send("<success xmlns='" NS_SASL_ "'/>");
            break;
        case 4:
            n.srv.send("<handshake/>");
            break;
        case 5:
            n.srv.send("<enabled xmlns='" NS_SM_ "' id='again' resume='true'/>");
            break;
        }
        n.run(10);
        n.run_time(16500);
    }
    finish(n);
}
// addresses: header and bind request
static void jids()
{
    sim::reset();
    static const char *j[] = {"user@example.org/res",
                              "user@example.org",
                              "user@example.org/",
                              "example.org",
                              "example.org/res",
                              "user@example.org/a/b@c",
                              "user@example.org/a<b>&\"c'd",
                              "user@example.org/\xc3\xbc \xe2\x82\xac",
                              "us.er+x@xn--bcher-kva.example",
                              "u@sub.example.org/\"/><x y=\"",
                              "user@example.org/ lead trail ",
                              "user@example.org/]]>&amp;"};
    static const int nj = sizeof j / sizeof *j;
    Nego n;
    auto &g = n.srv.cfg;
    n.jid = j[mc::choose(nj, "jid")];
    n.pol = mc::choose(NPOL, "policy");
    n.legacy = mc::choose(2, "legacy");
    n.compress = mc::choose(2, "compression");
    g.compress = n.compress;
    g.starttls = n.pol != P_SSL && mc::choose(2, "starttls");
    g.sm = mc::choose(2, "sm");
    bool anon = n.jid.find('@') == std::string::npos ||
                n.jid.find('@') > n.jid.find('/');
    static const char *m[] = {"PLAIN", "SCRAM-SHA-256", "DIGEST-MD5"};
    g.mechs = {anon ? "ANONYMOUS" : m[mc::choose(3, "mechanism")]};
    // a server may hint at resources, or refuse TLS
    int hint = mc::choose(4, "hint");
    n.srv.features_hook = [=](Server &sv, const std::string &def) {
        std::string d = def;
        size_t p = d.find("<bind xmlns='" NS_BIND_ "'/>");
        if (p == std::string::npos || !hint)
            return d;
        static const char *h[] = {"", "<required/>", "<resource>evil</resource>",
                                  "<optional/><x xmlns='urn:x'>y</x>"};
        return d.substr(0, p) + "<bind xmlns='" NS_BIND_ "'>" + h[hint] +
               "</bind>" + d.substr(p + strlen("<bind xmlns='" NS_BIND_ "'/>"));
    };
    if (g.starttls && mc::choose(2, "handshake fails"))
        sim::W->on_handshake = [](Sock &, int) { return 0; };
    bool bad_tls = sim::W->on_handshake || (n.pol == P_MANDATORY && !g.starttls);
    n.setup();
    n.connect();
    n.run();
    if (!bad_tls)
        must_be_up(n, "everything needed was offered and answered");
    finish(n);
}
// two connections of the same object: the second offers different things
static void twice()
{
    sim::reset();
    Nego n;
    auto &g = n.srv.cfg;
    auto offer = [&](bool first) {
        n.compress = mc::choose(2, "compression");
        int o = mc::choose(6, "offer");
        g.starttls = o == 1 || o == 2;
        g.compress = o == 3 || o == 2;
        g.session = o == 2 || o == 4;
        g.sm = o == 2 || o == 5 || (first && o == 1);
        g.bind = true;
        g.features = true;
        g.mechs = {o & 1 ? "SCRAM-SHA-1" : "PLAIN"};
        if (!first) {
            int r = mc::choose(4, "restriction");
            if (r == 1)
                g.bind = false;
            if (r == 2)
                g.mechs = {};
            if (r == 3)
                g.features = false;
        }
    };
    offer(true);
    if (mc::choose(2, "component first")) {
        n.component = true;
        n.jid = "comp.example.org";
    }
    n.setup();
    n.connect();
    int stop = mc::choose(7, "stopped after");
    if (stop == 6)
        n.run();
    else
        for (int i = 0; i <= 2 * stop; i++)
            n.c.step(0);
    int end = mc::choose(5, "end");
    bool sm_was = n.srv.sm_active;
    if (!n.c.disconnected()) {
        switch (end) {
        case 0:
            n.srv.close();
            break;
        case 1:
            n.srv.send("</stream:stream>");
            n.srv.close();
            break;
        case 2:
            xmpp_disconnect(n.c.conn);
            break;
        case 3:
            if (Sock *s = n.srv.sk())
                s->rst = ECONNRESET;
            break;
        case 4: // in the middle of a stanza
            n.srv.send("<message from='a@b'><body>te");
            n.srv.close();
            break;
        }
        n.run(10);
        if (!n.c.disconnected())
            n.run_time(2500);
    }
    if (!n.c.disconnected()) {
        if (end == 3 || n.srv.fd < 0) {
            n.run_time(20000);
        }
        if (!n.c.disconnected()) {
            n.c.release();
            return;
        }
    }
    n.component = false;
    n.jid = "user@example.org/res";
    offer(false);
    n.early = mc::choose(4, "early submission");
    if (n.srv.sessions.size() && mc::choose(2, "session lost"))
        n.srv.sessions[n.srv.sm_id].alive = false;
    n.setup();
    n.connect();
    n.run();
    if (!n.c.up && !n.c.disconnected()) {
        n.run_time(16500);
        n.run(5);
    }
    if (g.bind && g.mechs.size() && g.features)
        must_be_up(n, sm_was ? "everything needed was offered (second connection)"
                             : "everything needed was offered (second "
                               "connection, no SM on the first)");
    finish(n);
}
// resumption: the answers to <resume/>
static void resume()
{
    sim::reset();
    Nego n;
    auto &g = n.srv.cfg;
    g.sm = true;
    g.session = mc::choose(2, "session");
    g.starttls = mc::choose(2, "starttls");
    n.setup();
    n.connect();
    n.run();
    must_be_up(n, "everything needed was offered");
    if (mc::choose(2, "unacknowledged stanzas"))
        for (int i = 0; i < 2; i++)
            n.c.send_xml(mc::fmt("<message id='u%d'/>", i));
    if (mc::choose(2, "written"))
        n.c.steps(2);
    n.srv.close();
    n.run(6);
    if (!n.c.disconnected()) {
        mc::fail("harness:not-ended", "connection did not end");
        n.c.release();
        return;
    }
    n.deviations = true;
    g.sm = mc::choose(2, "sm offered again") == 0;
    g.bind = mc::choose(2, "bind offered") == 0;
    n.early = mc::choose(2, "early submission");
    n.connect();
    n.run();
    if (!n.c.up && !n.c.disconnected()) {
        n.run_time(16500);
        n.run(5);
    }
    if (!n.odd && g.bind)
        must_be_up(n, "everything needed was offered (second connection)");
    finish(n);
}
// raw features: order of children, duplicates, foreign elements
static void shapes()
{
    sim::reset();
    Nego n;
    static const char *k[] = {
        "<bind xmlns='" NS_BIND_ "'/>", "<sm xmlns='" NS_SM_ "'/>",
        "<session xmlns='" NS_SESSION_ "'/>",
        "<compression xmlns='" NS_COMPF_ "'><method>zlib</method></compression>",
        "<bind xmlns='urn:other'/>", "<sm xmlns='urn:xmpp:sm:2'/>",
        "<compression xmlns='" NS_COMPF_ "'><method>lzw</method></compression>",
        "<session xmlns='urn:other'><optional/></session>",
        "<compression xmlns='" NS_COMP_ "'><method>zlib</method></compression>"};
    int a = mc::choose(9, "first"), b = mc::choose(10, "second"),
        c = mc::choose(10, "third");
    std::string f = k[a];
    if (b < 9)
        f += k[b];
    if (c < 9)
        f += k[c];
    n.compress = mc::choose(2, "compression");
    int pre = mc::choose(5, "before");
    static const char *p[] = {
        "<mechanisms xmlns='" NS_SASL_ "'><mechanism>PLAIN</mechanism></mechanisms>",
        "<mechanisms xmlns='urn:x'><mechanism>PLAIN</mechanism></mechanisms>",
        "<mechanisms xmlns='" NS_SASL_ "'><mech>PLAIN</mech></mechanisms>",
        "<starttls xmlns='urn:x'/><mechanisms xmlns='" NS_SASL_
        "'><mechanism/><mechanism>PLAIN</mechanism></mechanisms>",
        "<starttls xmlns='" NS_TLS_ "'/>"};
    n.srv.features_hook = [=](Server &sv, const std::string &) {
        if (sv.authed)
            return B(f);
        return B(pre == 4 && sv.layer ? p[0] : p[pre]);
    };
    n.setup();
    n.connect();
    n.run();
    bool bind = a == 0 || b == 0 || c == 0;
    if (bind && (pre == 0 || pre >= 3))
        must_be_up(n, "everything needed was offered");
    finish(n);
}
void register_scenarios()
{
    mc::add("offers", []() { offers(false); }, 0, 0);
    mc::add("offers+answers", []() { offers(true); }, 1, 2);
    mc::add("answers", answers, 2, 3);
    mc::add("jids", jids, 0, 0);
    mc::add("twice", twice, 0, 0);
    mc::add("resume", resume, 2, 3);
    mc::add("shapes", shapes, 0, 0);
}
