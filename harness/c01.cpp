// C01: whatever bytes the server sends, the client neither crashes nor spins
// nor gets stuck, ends at most once and can be used again.
#include "world.h"
using namespace world;

namespace {
enum Kind {
    K_PLAIN,
    K_TLS_SCRAM1,
    K_SCRAM256_ZLIB_SM,
    K_DIGEST,
    K_PLUS,
    K_EXTERNAL,
    K_ANON,
    K_RESUME,
    K_LEGACY,
    K_COMPONENT,
    K_RAW,
    K_SSL,
    K_SCRAM512_SESSION,
    NKINDS
};
const char *kname[] = {"PLAIN",     "STARTTLS SCRAM-SHA-1", "SCRAM-SHA-256 zlib SM",
                       "DIGEST-MD5", "SCRAM-SHA-256-PLUS",  "EXTERNAL",
                       "ANONYMOUS", "SM resumption",        "legacy auth",
                       "component", "raw connection",       "legacy SSL",
                       "SCRAM-SHA-512 session"};
std::string certs()
{
    std::string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/certs/";
}
// choices with many alternatives
int bigchoose(int n, const char *l)
{
    int hi = n > 200 ? mc::choose((n + 199) / 200, l) : 0;
    return hi * 200 + mc::choose(std::min(200, n - hi * 200), l);
}
int bigdeviate(int n, const char *l) // 0: the default
{
    if (n <= 200)
        return mc::deviate(n, l);
    int g = mc::deviate(1 + (n - 1 + 199) / 200, l);
    if (!g)
        return 0;
    g--;
    return 1 + g * 200 + mc::choose(std::min(200, n - 1 - g * 200), l);
}
std::string rep(const std::string &s, int n)
{
    std::string r;
    r.reserve(s.size() * n);
    while (n-- > 0)
        r += s;
    return r;
}
const std::string EOF_("\x01" "EOF"), RST_("\x01" "RST");

#define STANZAS "xmlns='" NS_STANZAS_ "'"
// elements and fragments that are odd anywhere
const std::vector<std::string> &generic()
{
    static std::vector<std::string> v = {
        "", EOF_, RST_, "<", "</stream:stream>", "</a>", std::string("\0", 1),
        "\xff\xfe<\0a", "<!DOCTYPE a [<!ENTITY b 'cc'>]>&b;",
        "<?xml version='1.0' encoding='UTF-16'?>", "<?pi x?>", "<!-- c -->",
        "<![CDATA[x]]>", "text", " \n", "&amp;", "&nope;", "&#0;", "&#x110000;",
        "<a/>", "<a", "<a b", "<a b='", "<a b='c' b='d'/>", "<x:a/>",
        "<a xmlns=''/>", "<a xmlns:xml='urn:x'/>", "<a><b></a>", "<a>\xc3</a>",
        "<stream:stream>", "<stream:features/>", "<stream:features>x</stream:features>",
        "<stream:error/>", "<stream:error>x</stream:error>",
        "<stream:error><conflict xmlns='" NS_STREAMERR_ "'/></stream:error>",
        "<stream:error><text xmlns='" NS_STREAMERR_ "'/></stream:error>",
        "<stream:error><foo/><text xmlns='" NS_STREAMERR_ "'>a</text><text "
        "xmlns='" NS_STREAMERR_ "'>b<c/></text><bar xmlns='" NS_STREAMERR_
        "'/></stream:error>",
        "<stream:error><see-other-host xmlns='" NS_STREAMERR_ "'/></stream:error>",
        "<stream:error><conflict xmlns='" NS_STREAMERR_
        "'/></stream:error><stream:error><reset xmlns='" NS_STREAMERR_
        "'/></stream:error></stream:stream>",
        "<iq/>", "<iq type='result'/>", "<iq id=''/>", "<iq id='_xmpp_bind1'/>",
        "<iq id='_xmpp_bind1' type='result'/>", "<iq id='_xmpp_bind1' type='error'/>",
        "<iq id='_xmpp_bind1' type='result'><bind/></iq>",
        "<iq id='_xmpp_bind1' type='result'>x<bind xmlns='" NS_BIND_ "'/></iq>",
        "<iq id='_xmpp_bind1' type='result'><bind xmlns='" NS_BIND_
        "'><jid/></bind></iq>",
        "<iq id='_xmpp_bind1' type='result'><bind xmlns='" NS_BIND_
        "'><jid><a/></jid></bind></iq>",
        "<iq id='_xmpp_bind1' type='result'><bind xmlns='" NS_BIND_
        "'><jid>@</jid></bind></iq>",
        "<iq id='_xmpp_bind1' type='error'><error/><error><text/></error></iq>",
        "<iq id='_xmpp_session1'/>", "<iq id='_xmpp_session1' type='error'/>",
        "<iq id='_xmpp_session1' type='result'/>", "<iq id='_xmpp_auth1'/>",
        "<iq id='_xmpp_auth1' type='error'/>", "<iq id='_xmpp_auth1' type='result'/>",
        "<iq id='_xmpp_auth1' type='error'><error type='cancel'/></iq>",
        "<iq type='get' id='q'><query xmlns='jabber:iq:version'/></iq>",
        "<message/>", "<message><body/></message>",
        "<message type='error' from='' to='' id=''><body>a<b>c</b>d</body><error/>"
        "</message>",
        "<message><body>a</body><body>b</body><thread/></message>",
        "<presence type='subscribe'/>", "<handshake/>",
        "<handshake>x</handshake>", "<proceed xmlns='" NS_TLS_ "'/>",
        "<failure xmlns='" NS_TLS_ "'/>", "<starttls xmlns='" NS_TLS_ "'/>",
        "<success xmlns='" NS_SASL_ "'/>", "<success xmlns='" NS_SASL_ "'>=</success>",
        "<success xmlns='" NS_SASL_ "'>dj0=</success>",
        "<success xmlns='" NS_SASL_ "'>!</success>", "<failure xmlns='" NS_SASL_ "'/>",
        "<failure xmlns='" NS_SASL_ "'>x</failure>",
        "<failure xmlns='" NS_SASL_ "'><not-authorized/><text>x</text></failure>",
        "<challenge xmlns='" NS_SASL_ "'/>", "<challenge xmlns='" NS_SASL_ "'>=</challenge>",
        "<challenge xmlns='" NS_SASL_ "'>!!</challenge>",
        "<challenge xmlns='" NS_SASL_ "'><a/></challenge>",
        "<challenge xmlns='" NS_SASL_ "'>AAAA</challenge>",
        "<challenge xmlns='" NS_SASL_ "'>LCws</challenge>",
        "<challenge xmlns='" NS_SASL_ "'>cnNwYXV0aD0=</challenge>",
        "<challenge xmlns='" NS_SASL_ "'>cj0scz0saT0=</challenge>",
        "<challenge xmlns='" NS_SASL_ "'>bm9uY2U9IiIscmVhbG09IiI=</challenge>",
        "<abort xmlns='" NS_SASL_ "'/>", "<compressed xmlns='" NS_COMP_ "'/>",
        "<failure xmlns='" NS_COMP_ "'/>",
        "<failure xmlns='" NS_COMP_ "'><setup-failed/></failure>",
        "<enabled xmlns='" NS_SM_ "'/>", "<enabled xmlns='" NS_SM_ "' resume='true'/>",
        "<enabled xmlns='" NS_SM_ "' resume='1' id=''/>",
        "<enabled xmlns='" NS_SM_ "' id='x' max='-1' location='' resume='true'/>",
        "<resumed xmlns='" NS_SM_ "'/>", "<resumed xmlns='" NS_SM_ "' h='x' previd=''/>",
        "<resumed xmlns='" NS_SM_ "' h='1' previd='sm1'/>",
        "<resumed xmlns='" NS_SM_ "' h='4294967295' previd='sm1'/>",
        "<resumed xmlns='" NS_SM_ "' h='0' previd='other'/>",
        "<failed xmlns='" NS_SM_ "'/>", "<failed xmlns='" NS_SM_ "'>x</failed>",
        "<failed xmlns='" NS_SM_ "'><foo/></failed>",
        "<failed xmlns='" NS_SM_ "' h='99'><item-not-found " STANZAS "/></failed>",
        "<failed xmlns='" NS_SM_ "' h='x'><item-not-found " STANZAS "/></failed>",
        "<failed xmlns='" NS_SM_ "'><feature-not-implemented " STANZAS "/></failed>",
        "<failed xmlns='" NS_SM_ "' h=''><unexpected-request " STANZAS "/></failed>",
        "<a xmlns='" NS_SM_ "'/>", "<a xmlns='" NS_SM_ "' h='4294967295'/>",
        "<a xmlns='" NS_SM_ "' h='-1'/>", "<a xmlns='" NS_SM_ "' h='99999999999999'/>",
        "<a xmlns='" NS_SM_ "' h=' 1'/>", "<r xmlns='" NS_SM_ "'/>",
        "<r xmlns='" NS_SM_ "'><a/>x</r>", "<sm xmlns='" NS_SM_ "'/>",
        "<a xmlns='" NS_SM_ "' h='2'/><a xmlns='" NS_SM_ "' h='0'/>",
        "<stream:error><conflict xmlns='" NS_STREAMERR_ "'/><text xmlns='" NS_STREAMERR_
        "'>one</text></stream:error><stream:error><reset xmlns='" NS_STREAMERR_
        "'/><text xmlns='" NS_STREAMERR_ "'>two</text></stream:error>",
    };
    return v;
}
// big ones, tried alone
const std::vector<std::string> &large()
{
    static std::vector<std::string> v;
    if (v.empty()) {
        std::string k5(5000, 'n'), k70(70000, 't'), at;
        v.push_back("<" + k5 + "/>");
        v.push_back("<" + k5);
        v.push_back("<a " + k5 + "='x'/>");
        v.push_back("<a b='" + k70 + "'/>");
        v.push_back("<a xmlns='" + k70 + "'/>");
        v.push_back("<a xmlns:" + k5 + "='" + k5 + "'><" + k5 + ":b/></a>");
        v.push_back("<message><body>" + k70 + "</body></message>");
        v.push_back("<iq type='get' id='" + k5 + "'/>");
        v.push_back("<message id='" + rep("&lt;&amp;&quot;", 4000) + "'>" +
                    rep("&gt;\r\n", 9000) + "</message>");
        for (int i = 0; i < 600; i++)
            at += " a" + std::to_string(i) + "='" + std::to_string(i) + "'";
        v.push_back("<message" + at + "/>");
        v.push_back(rep("<presence/>", 800));
        v.push_back(rep("<r xmlns='" NS_SM_ "'/>", 300));
        v.push_back("<message>" + rep("<a/>x", 3000) + "</message>");
        v.push_back(rep(" ", 20000));
        v.push_back(rep("<!-- -->", 3000));
        v.push_back("<stream:error>" + rep("<a/>", 2000) + "<text xmlns='" NS_STREAMERR_
                    "'>" + k70 + "</text></stream:error>");
        v.push_back("<stream:features><mechanisms xmlns='" NS_SASL_ "'>" +
                    rep("<mechanism>" + std::string(300, 'M') + "</mechanism>", 300) +
                    "</mechanisms></stream:features>");
        for (const char *e : {"challenge", "success", "failure"}) {
            v.push_back(strf("<%s xmlns='" NS_SASL_ "'>", e) + k70 + strf("</%s>", e));
            v.push_back(strf("<%s xmlns='" NS_SASL_ "'>", e) +
                        ref::b64(std::string(30000, 'r')) + strf("</%s>", e));
        }
        v.push_back("<iq id='_xmpp_bind1' type='result'><bind xmlns='" NS_BIND_
                    "'><jid>" + k70 + "</jid></bind></iq>");
        v.push_back("<enabled xmlns='" NS_SM_ "' resume='true' id='" + k70 + "'/>");
        v.push_back("<handshake>" + k70 + "</handshake>");
        v.push_back("<stream:stream xmlns='jabber:client' xmlns:stream='" NS_STREAM_
                    "' id='" + k70 + "' from='" + k70 + "'>");
        static const char *el[] = {"message", "x", "iq", "stream:features",
                                   "stream:error"};
        for (int d : {300, 5000, mc::thorough() ? 300000 : 30000})
            for (auto e : el) {
                v.push_back(strf("<%s>", e) + rep("<a>", d) + rep("</a>", d) +
                            strf("</%s>", e));
                if (d > 300)
                    v.push_back(strf("<%s>", e) + rep("<a>", d));
            }
    }
    return v;
}
// odd answers to one kind of request
std::vector<std::string> specific(const Msg &m, const Cfg &cfg)
{
    std::vector<std::string> v;
    std::string to = cfg.component ? "jabber:component:accept" : "jabber:client";
    switch (m.step) {
    case S_OPEN: {
        std::string d = "xmlns='" + to + "' xmlns:stream='" NS_STREAM_ "'";
        for (std::string h : std::vector<std::string>
             {"<stream:stream " + d + ">", "<stream:stream " + d + " id=''>",
              "<stream:stream " + d + " version='0.9' id='x' from='y'>",
              "<stream:stream " + d + "/>", "<stream:stream xmlns='" + to + "'>",
              "<stream xmlns='" NS_STREAM_ "' id='q'>",
              "<stream xmlns='" + to + "'>", "<s:stream xmlns:s='" NS_STREAM_
              "' xmlns='" + to + "' id='1' version='1.0'>",
              "<stream:foo " + d + ">", "<foo>", "<foo/>", "<stream:stream>",
              "<stream:stream " + d + " version='1.0' id='a' id='b'>",
              "<stream:stream xmlns='urn:x' xmlns:stream='urn:y' version='1.0'>",
              "<stream:stream " + d + " version='1.0'><stream:stream " + d + ">",
              "<stream:stream " + d + " version=''></stream:stream>",
              "<?xml version='1.0'?><?xml version='1.0'?><stream:stream " + d + ">",
              "<?xml version='1.0' encoding='ISO-8859-1'?><stream:stream " + d +
                  " id='\xe4' version='1.0'>",
              "<?xml version='1.0' encoding='nope'?><stream:stream " + d + ">",
              "<!DOCTYPE a [<!ENTITY b 'c'><!ATTLIST a x CDATA 'y'>]><stream:stream " +
                  d + " id='&b;' version='1.0'>",
              "\xef\xbb\xbf<stream:stream " + d + " version='1.0' id='x'>",
              std::string("\xff\xfe<\0s\0>\0", 8), std::string("HTTP/1.1 400 Bad\r\n"),
              "text<stream:stream " + d + ">"})
            v.push_back(h);
        for (const char *f :
             {"<starttls/>", "<starttls xmlns='" NS_TLS_ "'>x<required/></starttls>",
              "<mechanisms xmlns='" NS_SASL_ "'/>",
              "<mechanisms xmlns='" NS_SASL_ "'>PLAIN</mechanisms>",
              "<mechanisms xmlns='" NS_SASL_ "'><mechanism/></mechanisms>",
              "<mechanisms xmlns='" NS_SASL_ "'><mechanism><a/></mechanism></mechanisms>",
              "<mechanisms xmlns='" NS_SASL_
              "'>x<foo/><mechanism>PLAIN</mechanism><mechanism>SCRAM-SHA-</mechanism>"
              "</mechanisms>",
              "<mechanisms xmlns='" NS_SASL_
              "'><mechanism>SCRAM-SHA-1-PLUS</mechanism></mechanisms>",
              "<mechanisms xmlns='" NS_SASL_
              "'><mechanism>EXTERNAL</mechanism><mechanism>ANONYMOUS</mechanism>"
              "<mechanism>DIGEST-MD5</mechanism></mechanisms>",
              "<mechanisms xmlns='" NS_SASL_ "'><mechanism>PLAIN</mechanism></mechanisms>"
              "<mechanisms xmlns='" NS_SASL_
              "'><mechanism>SCRAM-SHA-1</mechanism></mechanisms>",
              "<bind/>", "<bind xmlns='" NS_BIND_ "'>x</bind><bind xmlns='" NS_BIND_
              "'/>",
              "<session xmlns='" NS_SESSION_ "'/>",
              "<session xmlns='" NS_SESSION_ "'>x<optional>y</optional></session>"
              "<bind xmlns='" NS_BIND_ "'/>",
              "<sm xmlns='" NS_SM_ "'/>",
              "<sm xmlns='" NS_SM_ "'/><bind xmlns='" NS_BIND_ "'/>",
              "<compression xmlns='" NS_COMPF_ "'/>",
              "<compression xmlns='" NS_COMPF_ "'><method/></compression>",
              "<compression xmlns='" NS_COMPF_ "'><method><a/></method></compression>",
              "<compression xmlns='" NS_COMPF_
              "'>zlib<method>lzw</method><method>zlib</method><method>zlib</method>"
              "</compression><bind xmlns='" NS_BIND_ "'/>",
              "x<a/>y"})
            v.push_back("<?xml version='1.0'?><stream:stream " + d +
                        " id='s' version='1.0'><stream:features>" + f +
                        "</stream:features>");
        break;
    }
    case S_STARTTLS:
        v.push_back("<proceed xmlns='" NS_TLS_ "'/><message/>");
        v.push_back("<proceed xmlns='" NS_TLS_ "'/><proceed xmlns='" NS_TLS_ "'/>");
        v.push_back("<proceed xmlns='" NS_TLS_ "'/>" + EOF_);
        v.push_back("<proceed xmlns='" NS_TLS_ "'>x<y/></proceed>");
        v.push_back("<proceed/>");
        v.push_back("<failure xmlns='" NS_TLS_ "'/></stream:stream>");
        break;
    case S_COMPRESS:
        v.push_back("<compressed xmlns='" NS_COMP_ "'/><compressed xmlns='" NS_COMP_
                    "'/>");
        v.push_back("<compressed xmlns='" NS_COMP_ "'/>garbage garbage garbage");
        break;
    case S_SM_RESUME:
        for (const char *h : {"0", "1", "2", "3", "4", "", "-1", "4294967296", "2147483648"})
            v.push_back(strf("<resumed xmlns='" NS_SM_ "' previd='%s' h='%s'/>",
                             m.node.attr("previd").c_str(), h));
        v.push_back(strf("<resumed xmlns='" NS_SM_ "' previd='%s'/>",
                         m.node.attr("previd").c_str()));
        v.push_back(strf("<resumed xmlns='" NS_SM_ "' previd='%s' h='0'/><failed "
                         "xmlns='" NS_SM_ "'/>",
                         m.node.attr("previd").c_str()));
        break;
    default:
        break;
    }
    return v;
}

struct Att {
    Client c;
    Server srv;
    int kind = 0;
    Msg last;
    int sent = 0;   // elements the server sent so far
    bool odd = false; // not the default any more
    std::vector<int> types; // error conditions seen by the user
    std::string marker;
    int got_marker = 0, wire_marker = 0;
    std::function<std::string(Att &, const std::string &)> attack;
    StreamReader srd; // what the server sent, seen by an independent reader
    bool srd_ok = true;
    std::vector<std::string> zraw; // compressed bytes to send instead
    bool handler_busy = true;

    Att()
    {
        srv.install();
        srv.intercept = [this](Server &s, Msg &m) {
            last = m;
            if (m.step == S_OPEN) {
                srd = StreamReader();
                srd_ok = true;
            }
            if (m.raw.find("probe") != std::string::npos)
                wire_marker++;
            (void)s;
            return false;
        };
        srv.mangle = [this](const std::string &x) {
            std::string y = x;
            if (attack) {
                y = attack(*this, x);
                if (y != x) {
                    odd = true;
                    mc::trace("    server sends instead: %s",
                              mc::printable(y, 300).c_str());
                }
            }
            sent++;
            size_t e;
            if ((e = y.find(EOF_)) != std::string::npos) {
                y.erase(e);
                later_eof = true;
            } else if ((e = y.find(RST_)) != std::string::npos) {
                y.erase(e);
                later_rst = true;
            }
            for (auto &ev : srd.feed(y))
                if (ev.t == Ev::ERR || ev.t == Ev::CLOSE)
                    srd_ok = false;
            return y;
        };
        srv.on_turn = [this](Server &s) {
            if (Sock *k = s.sk()) {
                if (later_eof)
                    k->eof = true;
                if (later_rst)
                    k->rst = ECONNRESET;
            }
            later_eof = later_rst = false;
        };
        c.on_note = [this](const Note &n) {
            if (n.event == XMPP_CONN_RAW_CONNECT)
                xmpp_conn_open_stream_default(c.conn);
        };
        xmpp_handler_add(c.conn, on_stanza, nullptr, nullptr, nullptr, this);
    }
    bool later_eof = false, later_rst = false;
    // a user handler that uses everything the library offers on a stanza
    static int on_stanza(xmpp_conn_t *conn, xmpp_stanza_t *s, void *ud)
    {
        Att *a = (Att *)ud;
        char *t;
        size_t n;
        if (xmpp_stanza_to_text(s, &t, &n) == XMPP_EOK) {
            if (strstr(t, "probe-in"))
                a->got_marker++;
            xmpp_free(a->c.ctx, t);
        }
        t = xmpp_stanza_get_text(s);
        if (t)
            xmpp_free(a->c.ctx, t);
        t = xmpp_message_get_body(s);
        if (t)
            xmpp_free(a->c.ctx, t);
        xmpp_stanza_t *k = xmpp_stanza_copy(s);
        if (k)
            xmpp_stanza_release(k);
        const char *nm = xmpp_stanza_get_name(s);
        if (nm && !strcmp(nm, "iq")) {
            xmpp_stanza_t *r = xmpp_stanza_reply_error(s, "cancel", "bad-request", "x");
            if (r) {
                if (a->c.connected())
                    xmpp_send(conn, r);
                xmpp_stanza_release(r);
            }
        }
        k = xmpp_stanza_reply(s);
        if (k)
            xmpp_stanza_release(k);
        return 1;
    }
    void setup()
    {
        Cfg &g = srv.cfg;
        mc::trace("configuration: %s", kname[kind]);
        const char *jid = "user@example.org/res";
        long fl = 0;
        bool cert = false;
        g.mechs = {"PLAIN"};
        switch (kind) {
        case K_TLS_SCRAM1:
            g.starttls = true;
            g.mechs = {"SCRAM-SHA-1"};
            break;
        case K_SCRAM256_ZLIB_SM:
            g.mechs = {"SCRAM-SHA-256"};
            g.compress = g.sm = true;
            fl |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
            break;
        case K_DIGEST:
            g.mechs = {"DIGEST-MD5"};
            break;
        case K_PLUS:
            g.starttls = true;
            g.mechs = {"SCRAM-SHA-256-PLUS", "SCRAM-SHA-256"};
            break;
        case K_EXTERNAL:
            g.starttls = true;
            g.mechs = {"EXTERNAL"};
            cert = true;
            break;
        case K_ANON:
            jid = "example.org";
            g.mechs = {"ANONYMOUS"};
            g.session = true;
            break;
        case K_RESUME:
            g.sm = true;
            break;
        case K_LEGACY:
            g.features = false;
            fl |= XMPP_CONN_FLAG_LEGACY_AUTH;
            break;
        case K_COMPONENT:
            g.component = true;
            jid = "comp.example.org";
            break;
        case K_SSL:
            fl |= XMPP_CONN_FLAG_LEGACY_SSL;
            break;
        case K_SCRAM512_SESSION:
            g.mechs = {"SCRAM-SHA-512"};
            g.session = true;
            break;
        }
        xmpp_conn_set_jid(c.conn, jid);
        xmpp_conn_set_pass(c.conn, "secret");
        xmpp_conn_set_flags(c.conn, fl);
        if (cert) {
            std::string d = certs();
            xmpp_conn_set_client_cert(c.conn, (d + "client1.pem").c_str(),
                                      (d + "client1.key").c_str());
        } else
            xmpp_conn_set_client_cert(c.conn, nullptr, nullptr);
    }
    void connect()
    {
        int r = kind == K_COMPONENT ? c.connect_component("h", 5347)
                : kind == K_RAW     ? c.connect_raw("h", 5222)
                                    : c.connect("h", 5222);
        if (r != XMPP_EOK)
            mc::fail("harness:connect", "connect returned %d", r);
    }
    // a whole session
    void session()
    {
        setup();
        if (kind == K_RESUME) {
            auto a = attack;
            attack = nullptr;
            connect();
            c.settle(20000);
            c.send_xml("<message><body>one</body></message>");
            c.send_xml("<message><body>two</body></message>");
            c.steps(2);
            srv.close();
            c.settle(20000);
            sent = 0;
            attack = a;
        }
        connect();
        c.settle(20000);
        if (kind == K_LEGACY && !c.disconnected() && !c.up) {
            c.run_for(16500, 5000); // it waits for features first
            c.settle(20000);
        }
        if (c.connected() && c.up) {
            c.send_xml("<message to='a'><body>x</body></message>");
            c.settle(20000);
            srv.send_stanza("<message from='a' id='m1'><body>hello</body></message>");
            c.settle(20000);
            if (srv.sm_active) {
                srv.send("<r xmlns='" NS_SM_ "'/>");
                c.settle(20000);
            }
            srv.send_stanza("<iq type='get' id='v1' from='a'><query "
                            "xmlns='jabber:iq:version'/></iq>");
            c.settle(20000);
        }
    }
    void verdict(bool time = true)
    {
        attack = nullptr;
        if (mc::failed())
            return;
        if (time && !c.disconnected()) {
            c.run_for(16500, 5000);
            c.run_for(2500, 1000);
        }
        if (c.up && c.connected() && !c.raw) {
            wire_marker = 0;
            int at = c.attempts;
            xmpp_send_raw_string(c.conn, "<message id='probe'/>");
            c.settle(20000);
            if (c.up && c.attempts == at && !wire_marker && !srv.rd.broken &&
                srv.sk() && !srv.saw_close)
                mc::fail("wedged:send", "connected, but what the user sends does "
                                        "not reach the server");
            if (c.up && srd_ok && !srd.broken && srd.pending().empty() &&
                !mc::failed()) {
                got_marker = 0;
                srv.send_stanza("<message id='probe-in'/>");
                c.settle(20000);
                if (c.up && !got_marker)
                    mc::fail("wedged:receive",
                             "connected, but what the server sends does not reach "
                             "the user");
            }
        }
        srv.muted = true;
        if (!c.disconnected()) {
            xmpp_disconnect(c.conn);
            c.run_for(2600, 1000);
            c.settle(4);
        }
        if (!c.disconnected() && !mc::failed()) {
            // not answering to the end of a connection attempt
            c.run_for(20000, 5000);
            if (!c.disconnected())
                mc::fail("wedged:disconnect", "the connection cannot be ended");
        }
        c.observe("the end");
        if (c.count(XMPP_CONN_DISCONNECT, c.attempts) != 1 && !mc::failed())
            mc::fail("lifecycle:disconnects", "%d disconnect notifications",
                     c.count(XMPP_CONN_DISCONNECT, c.attempts));
        mc::state(mc::fnv(strf("%d %d %zu %zu", kind, sent, c.notes.size(),
                               srv.log.size())));
        if (mc::failed())
            return;
        // the object is used again
        mc::trace("--- again");
        srv.muted = false;
        srv.chunker = nullptr;
        srv.cfg = Cfg();
        bool raw = kind == K_RAW;
        kind = K_PLAIN;
        setup();
        (void)raw;
        connect();
        c.settle(20000);
        if (!c.up)
            mc::fail("again:connect", "a later connection to a sane server does "
                                      "not come up");
        else {
            wire_marker = got_marker = 0;
            xmpp_send_raw_string(c.conn, "<message id='probe'/>");
            srv.send("<message id='probe-in'/>");
            c.settle(20000);
            if (!wire_marker || !got_marker)
                mc::fail("again:use", "a later connection is not usable (%d sent, "
                                      "%d received)",
                         wire_marker, got_marker);
        }
        if (mc::choose(2, "released while connected") && c.up) {
            srv.close();
            c.settle(6);
        }
        release();
    }
    void release()
    {
        c.release();
        if (c.al && !mc::failed())
            c.al->report_leaks("leak");
    }
};
int pick_kind()
{
    return mc::choose(NKINDS, "configuration");
}
void chunking(Att &a, int k)
{
    if (k)
        a.srv.chunker = [k](const std::string &s) {
            return s.size() > 6000 ? bytes_of(s, 1000) : bytes_of(s, k);
        };
}
// any reply is replaced, preceded or followed by something else
void replies(bool full)
{
    sim::reset();
    Att a;
    static const int pk[] = {K_SCRAM256_ZLIB_SM, K_RESUME, K_COMPONENT, K_TLS_SCRAM1};
    bool thr = mc::thorough();
    a.kind = full || thr ? pick_kind() : pk[mc::choose(4, "configuration")];
    bool byt = a.kind == K_PLAIN || a.kind == K_COMPONENT || a.kind == K_SCRAM256_ZLIB_SM;
    chunking(a, full && (thr || byt) ? mc::choose(2, "bytes") : 0);
    a.attack = [full, thr](Att &a, const std::string &x) -> std::string {
        auto &g = generic();
        static const int few[] = {0,  1,  3,  4,  29, 34, 39, 43, 49, 56, 63,
                                  67, 70, 73, 76, 85, 88, 92, 97};
        static const int fewer[] = {0, 4, 34, 43, 56, 70, 85};
        int ng = full ? g.size() : thr ? sizeof few / sizeof *few : sizeof fewer / sizeof *fewer;
        auto sp = specific(a.last, a.srv.cfg);
        if (!full)
            sp.resize(std::min<size_t>(sp.size(), 3));
        int k = bigdeviate(1 + 3 * ng + (int)sp.size(), "reply");
        if (!k)
            return x;
        k--;
        if (k < (int)sp.size())
            return sp[k];
        k -= sp.size();
        const std::string &s = g[full ? k / 3 : thr ? few[k / 3] : fewer[k / 3]];
        switch (k % 3) {
        case 0:
            return s;
        case 1:
            return x + s;
        default:
            return s + x;
        }
    };
    a.session();
    a.verdict();
}
void large_items()
{
    sim::reset();
    mc::allow_secs(20);
    Att a;
    static const int ks[] = {K_PLAIN, K_SCRAM256_ZLIB_SM, K_DIGEST, K_COMPONENT,
                             K_RESUME, K_TLS_SCRAM1};
    a.kind = ks[mc::choose(6, "configuration")];
    bool both = mc::thorough() || a.kind == K_SCRAM256_ZLIB_SM;
    int c = both ? mc::choose(2, "chunks") : 0;
    chunking(a, c ? 7 : 0);
    a.attack = [](Att &, const std::string &x) -> std::string {
        int k = mc::deviate(1 + large().size(), "reply");
        return k ? large()[k - 1] : x;
    };
    a.session();
    a.verdict();
}
// every byte of every reply
void bytes()
{
    sim::reset();
    Att a;
    static const int pk[] = {K_SCRAM256_ZLIB_SM, K_RESUME, K_COMPONENT,
                             K_TLS_SCRAM1,       K_ANON,   K_DIGEST};
    a.kind = mc::thorough() ? pick_kind() : pk[mc::choose(6, "configuration")];
    int which = mc::choose(12, "reply number");
    bool hit = false;
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.sent != which || a.odd)
            return x;
        hit = true;
        size_t p = bigchoose(x.size(), "byte");
        int op = mc::choose(mc::thorough() ? 14 : 6, "change");
        std::string y = x;
        static const char rc[] = {'<', '\0', '"', (char)0xff, '>', '&',
                                  ' ', '/',  '9', (char)0xc3};
        switch (op) {
        case 0:
            return x.substr(0, p) + EOF_;
        case 1:
            y.erase(p, 1);
            return y;
        case 2:
            y.insert(p, 1, y[p]);
            return y;
        case 3: // said twice from here
            return x.substr(0, p) + x;
        default:
            y[p] = rc[op - 4];
            return y;
        }
    };
    a.session();
    if (!hit)
        return a.release();
    a.verdict();
}
// all splits of one reply into two reads, and rests coalesced with the next
void splits()
{
    sim::reset();
    Att a;
    a.kind = pick_kind();
    int which = mc::choose(12, "reply number");
    bool hit = false;
    a.srv.chunker = [&](const std::string &s) -> std::vector<std::string> {
        if (a.sent - 1 != which || hit)
            return {s};
        hit = true;
        size_t p = bigchoose(s.size(), "byte");
        return {s.substr(0, p), s.substr(p)};
    };
    a.session();
    if (!hit)
        return a.release();
    if (!a.c.up && !mc::failed())
        mc::fail("split:not-up", "a split reply breaks the negotiation");
    a.verdict();
}
// short strings over the characters XML is made of
void tokens()
{
    sim::reset();
    static const char *tk[] = {"<", ">", "/", "a", " ", "='1'", "\"", "'", "&", ";",
                               "!--", "]]>", "![CDATA[", "?", "xmlns", ":",
                               "stream:stream", "message"};
    int n = mc::thorough() ? 4 : 3;
    Att a;
    static const int ks[] = {K_PLAIN, K_COMPONENT, K_RESUME};
    a.kind = ks[mc::thorough() ? mc::choose(3, "configuration") : 0];
    static const int at[] = {0, 1, 6, 7};
    int which = at[mc::choose(4, "reply number")];
    int ch = mc::choose(2, "bytes");
    chunking(a, ch);
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.sent != which || a.odd)
            return x;
        std::string s;
        for (int i = 0; i < n; i++)
            s += tk[mc::choose(sizeof tk / sizeof *tk, "token")];
        return s;
    };
    a.session();
    a.verdict();
}
std::string chal(const std::string &s)
{
    return "<challenge xmlns='" NS_SASL_ "'>" + ref::b64(s) + "</challenge>";
}
// SCRAM: every combination of odd fields in the first message of the server
void scram_first()
{
    sim::reset();
    mc::allow_secs(20);
    Att a;
    static const int ks[] = {K_TLS_SCRAM1, K_SCRAM256_ZLIB_SM, K_SCRAM512_SESSION, K_PLUS};
    a.kind = ks[mc::choose(4, "mechanism")];
    int r = mc::choose(8, "nonce"), s = mc::choose(11, "salt"), i = mc::choose(13, "iterations"),
        o = mc::choose(5, "arrangement"),
        e = o && !mc::thorough() ? 0 : mc::choose(3, "afterwards");
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.last.step == S_RESPONSE && a.odd && e) {
            // whatever comes after
            return e == 1 ? "<success xmlns='" NS_SASL_ "'/>" : chal("v=AAAA");
        }
        if (a.last.step != S_AUTH || a.odd)
            return x;
        std::string cn;
        size_t p = a.srv.scram_cfb.find("r=");
        if (p != std::string::npos)
            cn = a.srv.scram_cfb.substr(p + 2);
        std::string R, S, I;
        switch (r) {
        case 0: R = "r=" + cn + "srv"; break;
        case 1: R = "r=" + cn; break;
        case 2: R = "r=other"; break;
        case 3: R = "r="; break;
        case 4: R = ""; break;
        case 5: R = "r=" + cn + std::string(3000, 'x'); break;
        case 6: R = "r"; break;
        case 7: R = "r=" + cn.substr(0, 3); break;
        }
        static const int sl[] = {4, 16, 64, 123, 124, 125, 128, 200, 4000};
        if (s < 9)
            S = "s=" + ref::b64(std::string(sl[s], 'S'));
        else
            S = s == 9 ? "s=" : "s=!*";
        static const char *iv[] = {"2", "1", "0", "-1", "", "x", "3x", " 2", "00002",
                                   "+2", "2.5", "-2147483648", "4097"};
        I = std::string("i=") + iv[i];
        switch (o) {
        case 0: return chal(R + "," + S + "," + I);
        case 1: return chal(S + "," + R + "," + I);
        case 2: return chal("m=x," + R + "," + S + "," + I + ",x=y");
        case 3: return chal(R + "," + I);
        default: return chal(R + "," + S + "," + I + "," + R + "," + S + ",");
        }
    };
    a.session();
    a.verdict(false);
}
// SCRAM: the end of the exchange
void scram_final()
{
    sim::reset();
    Att a;
    static const int ks[] = {K_TLS_SCRAM1, K_SCRAM256_ZLIB_SM, K_SCRAM512_SESSION, K_PLUS};
    a.kind = ks[mc::choose(4, "mechanism")];
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.last.step != S_RESPONSE)
            return x;
        static const char *pay[] = {"", "v=", "v", "v=AAAA", "v=!!", "e=other-error", "x=1,v=AAAA",
                                    ",", "v=AAAA,v=AAAA", "r=a,s=QQ==,i=1"};
        int k = mc::deviate(1 + 3 * 11, "final message");
        if (!k)
            return x;
        k--;
        std::string b = k % 11 < 10 ? ref::b64(pay[k % 11]) : ref::b64("v=" + std::string(5000, 'A'));
        static const char *el[] = {"success", "challenge", "failure"};
        return strf("<%s xmlns='" NS_SASL_ "'>", el[k / 11]) + b +
               strf("</%s>", el[k / 11]);
    };
    a.session();
    a.verdict(false);
}
// DIGEST-MD5: strings over the tokens of its grammar
void digest()
{
    sim::reset();
    Att a;
    a.kind = K_DIGEST;
    static const char *tk[] = {"nonce", "=", "\"", "x", "\\", ",", "qop", "auth",
                               "realm", "charset", " ", "rspauth"};
    bool second = mc::choose(2, "challenge");
    bool prefix = mc::choose(2, "after a proper nonce");
    int n = mc::thorough() ? 5 : 4;
    std::string s = prefix ? "nonce=\"abc\"," : "";
    for (int i = 0; i < n; i++) {
        int k = mc::choose(sizeof tk / sizeof *tk + 1, "token");
        if (!k)
            break;
        s += tk[k - 1];
    }
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.last.step != (second ? S_RESPONSE : S_AUTH) || a.odd)
            return x;
        return chal(s);
    };
    a.session();
    a.verdict(false);
}
void digest_fields()
{
    sim::reset();
    Att a;
    a.kind = K_DIGEST;
    std::string s;
    auto f = [&](const char *name, std::vector<std::string> v) {
        std::string x = v[mc::choose(v.size(), name)];
        if (x == "-")
            return;
        s += (s.empty() ? "" : ",") + std::string(name) + x;
    };
    std::string big(3000, 'b');
    f("realm", {"=\"r\"", "-", "=\"\"", "=r", "=\"" + big + "\"", "=\"a\\\"b\"",
                "=\"a\",realm=\"b\"", "=\""});
    f("nonce", {"=\"n\"", "-", "=\"\"", "=", "=\"" + big + "\"", "", "=\"a"});
    f("qop", {"=\"auth\"", "-", "=\"auth,auth-int\"", "=\"\"", "=auth-conf", "=\"x\"",
              "=\"auth-int\"", "=\",auth\""});
    f("charset", {"=utf-8", "-", "=", "=\"utf-8\"", "=iso"});
    f("algorithm", {"=md5-sess", "-", "=x"});
    a.attack = [&](Att &a, const std::string &x) -> std::string {
        if (a.last.step != S_AUTH || a.odd)
            return x;
        return chal(s);
    };
    a.session();
    a.verdict(false);
}
// compressed streams that are not what they should be
void zlib()
{
    sim::reset();
    mc::allow_secs(20);
    Att a;
    a.kind = K_SCRAM256_ZLIB_SM;
    int chunk = mc::choose(4, "chunks");
    int what = mc::choose(12, "compressed data");
    size_t pos = what < 4 ? mc::choose(mc::thorough() ? 160 : 60, "byte") : 0;
    int when = mc::choose(2, "when");
    bool done = false;
    a.srv.chunker = [&](const std::string &s) -> std::vector<std::string> {
        std::string d = s;
        if (a.srv.comp && !done && a.srv.streams >= 3 - 1 &&
            (when == 0 || a.c.up)) {
            done = true;
            switch (what) {
            case 0:
                if (pos < d.size())
                    d[pos] ^= 0x55;
                break;
            case 1:
                d = d.substr(0, std::min(pos, d.size()));
                break;
            case 2:
                if (pos < d.size())
                    d.insert(pos, 1, (char)0x55);
                break;
            case 3:
                if (pos < d.size())
                    d.erase(pos, 1);
                break;
            case 4:
                d = std::string("\0", 1);
                break;
            case 5:
                d += a.srv.zdeflate("", Z_FINISH); // end of the deflate stream
                break;
            case 6:
                d += a.srv.zdeflate("", Z_FINISH) + "trailing";
                break;
            case 7:
                d += a.srv.zdeflate("", Z_SYNC_FLUSH) + a.srv.zdeflate("", Z_FULL_FLUSH);
                break;
            case 8:
                d += a.srv.zdeflate(std::string(300000, ' '), Z_SYNC_FLUSH);
                break;
            case 9:
                d += a.srv.zdeflate("<message><body>" + std::string(200000, 'z') +
                                        "</body></message>",
                                    Z_SYNC_FLUSH);
                break;
            case 10:
                d = std::string(5000, '\xff');
                break;
            case 11:
                d = "<message/>";
                break;
            }
        }
        static const int sz[] = {0, 1, 2, 4096};
        return chunk ? bytes_of(d, sz[chunk]) : std::vector<std::string>{d};
    };
    a.session();
    a.srd_ok = false;
    a.srv.chunker = nullptr;
    a.verdict();
}
// the handshake of TLS in every outcome, and what follows it
void tls()
{
    sim::reset();
    Att a;
    static const int ks[] = {K_TLS_SCRAM1, K_SSL, K_EXTERNAL, K_PLUS};
    a.kind = ks[mc::choose(4, "configuration")];
    int hs = mc::choose(4, "handshake");
    sim::W->on_handshake = [hs](Sock &, int n) {
        return hs == 0 ? 1 : hs == 1 ? 0 : hs == 2 ? (n < 3 ? -1 : 1) : (n < 2 ? -1 : 0);
    };
    a.attack = [](Att &a, const std::string &x) -> std::string {
        static const std::string v[] = {EOF_, RST_, "", "\x16\x03\x01", "<a/>"};
        int k = mc::deviate(11, "reply");
        (void)a;
        return !k ? x : k < 6 ? v[k - 1] : x + v[k - 6];
    };
    a.session();
    sim::W->on_handshake = nullptr;
    a.verdict();
}
} // namespace
void register_scenarios()
{
#ifdef C01_ALLOC // for C12: the same servers, every block is counted
    Client::track_all = true;
    mc::add("hostile-replies", []() { replies(true); }, 1, 1);
    mc::add("hostile-pairs", []() { replies(false); }, 1, 2);
    mc::add("hostile-large", large_items, 1, 1);
    mc::add("hostile-scram-final", scram_final, 1, 1);
    mc::add("hostile-digest-fields", digest_fields, 0, 0);
    mc::add("hostile-zlib", zlib, 0, 0);
    mc::add("hostile-tls", tls, 1, 1);
    return;
#endif
    mc::add("replies", []() { replies(true); }, 1, 1);
    mc::add("pairs", []() { replies(false); }, 2, 3);
    mc::add("large", large_items, 1, 1);
    mc::add("bytes", bytes, 0, 0);
    mc::add("splits", splits, 0, 0);
    mc::add("tokens", tokens, 0, 0);
    mc::add("scram-first", scram_first, 0, 0);
    mc::add("scram-final", scram_final, 1, 1);
    mc::add("digest", digest, 0, 0);
    mc::add("digest-fields", digest_fields, 0, 0);
    mc::add("zlib", zlib, 0, 0);
    mc::add("tls", tls, 1, 2);
}
