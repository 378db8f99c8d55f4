// C02: credentials obey the TLS and mechanism policy the user configured.
#include "nego.h"
const char *MON = "C02";

static std::vector<std::string> subset(int mask)
{
    static const char *m[] = {"SCRAM-SHA-256", "SCRAM-SHA-1-PLUS", "DIGEST-MD5",
                              "PLAIN", "ANONYMOUS", "EXTERNAL"};
    std::vector<std::string> r;
    for (int i = 0; i < 6; i++)
        if (mask >> i & 1)
            r.push_back(m[i]);
    return r;
}
static void finish(Nego &n, bool timeouts)
{
    n.run();
    if (timeouts && !n.c.up)
        n.run_time(16000), n.run(10);
    mc::state(mc::fnv(n.c.notes.empty() ? "-" : n.c.notes[0].name()) ^
              n.srv.log.size());
    n.c.release();
}
static bool tls_ok(int pol) { return pol == P_DEFAULT || pol == P_MANDATORY; }

// what is offered before and after TLS
static void subsets(bool starttls)
{
    sim::reset();
    Nego n;
    n.pol = mc::choose(NPOL, "policy");
    int pre = mc::choose(64, "offered"), post = pre;
    if (starttls && (n.pol == P_DEFAULT || mc::thorough()))
        post = tls_ok(n.pol) ? mc::choose(64, "offered after TLS") : pre;
    n.cert = ((pre | post) >> 5 & 1) ? mc::choose(2, "client certificate") : 0;
    n.fail_all_auth = mc::choose(2, "every attempt fails");
    n.legacy = mc::choose(2, "legacy auth enabled");
    n.srv.cfg.starttls = starttls;
    n.srv.cfg.mechs = subset(pre);
    n.srv.cfg.mechs_tls = subset(post);
    n.srv.cfg.mechs_tls_differ = true;
    n.setup();
    n.connect();
    finish(n, false);
}
// any single answer of the server is unusual
static void answers()
{
    sim::reset();
    static const int sets[] = {0, 1, 4, 8, 5, 9, 13, 12, 40, 32, 2, 10, 63};
    static const int nsets = sizeof sets / sizeof *sets;
    Nego n;
    n.pol = mc::choose(NPOL, "policy");
    n.legacy = mc::choose(2, "legacy auth enabled");
    n.srv.cfg.starttls = mc::choose(2, "starttls");
    int pre = sets[mc::choose(nsets, "offered")];
    n.cert = pre >> 5 & 1;
    n.srv.cfg.mechs = subset(pre);
    n.srv.cfg.features = mc::choose(2, "version 1.0 server") == 0;
    n.srv.cfg.mechs_tls_differ = true;
    static const int tsets[] = {0, 1, 8, 13};
    n.srv.cfg.mechs_tls =
        subset(mc::choose(2, "different after TLS")
                   ? tsets[mc::choose(4, "offered after TLS")]
                   : pre);
    n.deviations = true;
    n.setup();
    n.connect();
    finish(n, true);
}
// the spelling and order of the mechanism names
static void names()
{
    sim::reset();
    static const char *strong[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512",
                                   "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS",
                                   "SCRAM-SHA-512-PLUS", "DIGEST-MD5", "EXTERNAL",
                                   "GSSAPI", "CRAM-MD5"};
    Nego n;
    n.pol = mc::choose(NPOL, "policy");
    std::string s = strong[mc::choose(10, "other")], p = "PLAIN";
    if (mc::choose(2, "lower case"))
        for (auto &c : s)
            c = tolower(c);
    if (mc::choose(2, "lower case plain"))
        for (auto &c : p)
            c = tolower(c);
    n.srv.cfg.mechs = {s, p};
    switch (mc::choose(4, "order")) {
    case 1:
        std::swap(n.srv.cfg.mechs[0], n.srv.cfg.mechs[1]);
        break;
    case 2:
        n.srv.cfg.mechs.push_back(p);
        break;
    case 3:
        n.srv.cfg.mechs.insert(n.srv.cfg.mechs.begin(), p);
        break;
    }
    n.cert = !strcasecmp(s.c_str(), "EXTERNAL") ? mc::choose(2, "cert") : 0;
    n.srv.cfg.starttls = mc::choose(2, "starttls");
    int layout = mc::choose(3, "one or two mechanism lists");
    n.srv.features_hook = [=](Server &sv, const std::string &def) {
        if (sv.authed || !layout)
            return def;
        std::string f = "<stream:features>", tls;
        if (sv.cfg.starttls && !sv.layer)
            tls = "<starttls xmlns='" NS_TLS_ "'><required/></starttls>";
        auto l = [](std::vector<std::string> v) {
            std::string f = "<mechanisms xmlns='" NS_SASL_ "'>";
            for (auto &x : v)
                f += "<mechanism>" + x + "</mechanism>";
            return f + "</mechanisms>";
        };
        auto v = sv.cfg.mechs;
        if (layout == 1)
            return f + l(v) + "<foo xmlns='urn:x'/>" + tls + "</stream:features>";
        // the list of names sits between other children and white space
        std::string m = "<mechanisms xmlns='" NS_SASL_ "'>\n<hostname "
                        "xmlns='urn:xmpp:domain-based-name:1'>x</hostname>";
        for (auto &x : v)
            m += "<mechanism>" + x + "</mechanism>\n ";
        return f + tls + "\n" + m + "</mechanisms></stream:features>";
    };
    n.fail_all_auth = mc::choose(2, "every attempt fails");
    if (mc::choose(2, "no node in the JID"))
        n.jid = "example.org/r";
    n.setup();
    n.connect();
    finish(n, false);
}
// two connections of one object; policy may be changed in between
static void twice()
{
    sim::reset();
    Nego n;
    n.pol = mc::choose(NPOL, "policy");
    n.legacy = mc::choose(2, "legacy auth enabled");
    n.fail_all_auth = mc::choose(2, "every attempt fails");
    n.srv.cfg.starttls = mc::choose(2, "starttls");
    static const int sets[] = {8, 9, 12, 63, 0};
    int pre = sets[mc::choose(5, "offered")];
    n.srv.cfg.mechs = subset(pre);
    n.cert = pre == 63;
    n.setup();
    n.connect();
    int stop = mc::choose(3, "stopped");
    if (stop == 0)
        n.run();
    else
        n.c.steps(stop == 1 ? 3 : 6);
    if (!n.c.disconnected()) {
        switch (mc::choose(2, "end")) {
        case 0:
            n.srv.close();
            break;
        case 1:
            xmpp_disconnect(n.c.conn);
            break;
        }
        n.run();
        if (!n.c.disconnected())
            n.run_time(2100);
    }
    if (!n.c.disconnected()) {
        mc::fail("harness:not-ended", "the first connection did not end");
        n.c.release();
        return;
    }
    int p2 = mc::choose(NPOL, "second policy");
    n.pol = p2;
    n.legacy = mc::choose(2, "legacy auth enabled");
    n.cert = false;
    n.srv.cfg.starttls = mc::choose(2, "starttls");
    n.srv.cfg.mechs = subset(sets[mc::choose(5, "offered")]);
    n.fail_all_auth = mc::choose(2, "every attempt fails");
    n.srv.cfg.features = mc::choose(2, "version 1.0 server") == 0;
    n.setup();
    n.connect();
    finish(n, true);
}
// the user's certificate settings and flag calls in unusual orders
static void flags()
{
    sim::reset();
    Nego n;
    static const long fl[] = {XMPP_CONN_FLAG_DISABLE_TLS,
                              XMPP_CONN_FLAG_MANDATORY_TLS,
                              XMPP_CONN_FLAG_LEGACY_SSL,
                              XMPP_CONN_FLAG_LEGACY_AUTH,
                              XMPP_CONN_FLAG_TRUST_TLS,
                              XMPP_CONN_FLAG_ENABLE_COMPRESSION};
    long eff = 0;
    n.setup();
    int calls = 1 + mc::choose(2, "calls");
    for (int i = 0; i < calls; i++) {
        long f = 0;
        for (int b = 0; b < 6; b++)
            if (mc::choose(2, "flag"))
                f |= fl[b];
        if (xmpp_conn_set_flags(n.c.conn, f) == XMPP_EOK)
            eff = f;
        if (mc::choose(2, "deprecated call")) {
            if (i & 1) {
                xmpp_conn_disable_tls(n.c.conn);
                if (!(eff & (fl[1] | fl[2] | fl[4])))
                    eff |= XMPP_CONN_FLAG_DISABLE_TLS;
            } else {
                long e2 = xmpp_conn_get_flags(n.c.conn);
                if (xmpp_conn_set_flags(n.c.conn, e2) != XMPP_EOK)
                    mc::fail("flags:not-idempotent",
                             "flags %ld read back cannot be set", e2);
            }
        }
    }
    n.pol = eff & fl[0] ? P_DISABLE
            : eff & fl[2] ? P_SSL
            : eff & fl[1] ? P_MANDATORY
                          : P_DEFAULT;
    n.legacy = eff & fl[3];
    n.srv.cfg.starttls = mc::choose(2, "starttls");
    static const int sets[] = {8, 12, 0};
    n.srv.cfg.mechs = subset(sets[mc::choose(3, "offered")]);
    n.fail_all_auth = mc::choose(2, "every attempt fails");
    mc::trace("effective flags %ld", eff);
    n.connect();
    finish(n, false);
}
void register_scenarios()
{
    mc::add("subsets/tls", []() { subsets(true); }, 0, 0);
    mc::add("subsets/clear", []() { subsets(false); }, 0, 0);
    mc::add("answers", answers, 1, 2);
    mc::add("names", names, 0, 0);
    mc::add("twice", twice, 0, 0);
    mc::add("flags", flags, 0, 0);
}
