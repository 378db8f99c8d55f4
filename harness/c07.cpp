// C07: SASL responses are what the RFCs say, for every credential and challenge.
//
// The peer of every connection is an independent implementation of the server
// side (RFC 5802/7677/9266/5929, RFC 2831, RFC 4616, RFC 4422, RFC 4505,
// XEP-0078, XEP-0114): it parses each message of the client with the strict
// grammar of the mechanism and recomputes what it must contain.
#include "world.h"
#include <algorithm>
#include <memory>
#include <strings.h>
using namespace world;
using std::string;
typedef std::vector<string> Strs;

#ifdef C07_MINI
static const bool TLS_BUILD = false;
#else
static const bool TLS_BUILD = true;
#endif

static string certdir()
{
    string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/certs/";
}
static string P(const string &s) { return mc::printable(s, 120); }
// ISO 8859-1 form of a UTF-8 string; false if there is none
static bool latin1(const string &s, string &o)
{
    o.clear();
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c < 0x80) {
            o += c;
        } else if ((c == 0xc2 || c == 0xc3) && i + 1 < s.size()) {
            o += (char)((c & 3) << 6 | (s[++i] & 0x3f));
        } else
            return false;
    }
    return true;
}
static string hashform(const string &s)
{
    string o;
    return latin1(s, o) ? o : s;
}
enum { T_NONE, T_12, T_13, T_12R, NT }; // TLS 1.2, 1.3, resumed 1.2
static const char *tname[] = {"clear", "TLS 1.2", "TLS 1.3", "resumed TLS 1.2"};
static string seq(int n, int base)
{
    string r;
    for (int i = 0; i < n; i++)
        r += (char)(base + i);
    return r;
}
static string cb_type(int tls) { return tls == T_13 ? "tls-exporter" : "tls-unique"; }
static string cb_data(int tls) // what the simulated TLS library hands out
{
    return tls == T_13 ? seq(32, 0x80 + 'E')
                       : tls == T_12R ? seq(12, 0x60) : seq(12, 0x20);
}
// list of directives of a DIGEST-MD5 response: strict grammar
struct Dir {
    string name, value, raw;
    bool quoted;
};
static bool directives(const string &s, std::vector<Dir> &v)
{
    static const string sep = "()<>@,;:\\\"/[]?={} \t";
    size_t i = 0;
    while (1) {
        Dir d;
        while (i < s.size() && (unsigned char)s[i] > 32 && s[i] != 127 &&
               sep.find(s[i]) == string::npos)
            d.name += s[i++];
        if (d.name.empty() || i >= s.size() || s[i++] != '=')
            return false;
        d.quoted = i < s.size() && s[i] == '"';
        if (d.quoted) {
            for (i++; i < s.size() && s[i] != '"'; i++) {
                if (s[i] == '\\') {
                    d.raw += s[i++];
                    if (i >= s.size())
                        return false;
                }
                d.raw += s[i];
                d.value += s[i];
            }
            if (i++ >= s.size())
                return false;
        } else {
            while (i < s.size() && (unsigned char)s[i] > 32 && s[i] != 127 &&
                   sep.find(s[i]) == string::npos)
                d.value += s[i++];
            d.raw = d.value;
            if (d.value.empty())
                return false;
        }
        v.push_back(d);
        if (i == s.size())
            return true;
        if (s[i++] != ',')
            return false;
    }
}
struct Md5Ch {
    string text;       // the challenge
    Strs realms;       // offered (unescaped)
    string nonce, nonce_raw;
    Strs realms_raw;
    bool utf8 = true, auth = true;
    Md5Ch() {}
    Md5Ch(const string &realm, const string &n, bool u = true)
        : text("realm=\"" + realm + "\",nonce=\"" + n + "\",qop=\"auth\"," +
               (u ? "charset=utf-8," : "") + "algorithm=md5-sess"),
          realms{realm}, nonce(n), nonce_raw(n), realms_raw{realm}, utf8(u)
    {
    }
};
enum Must { M_YES, M_ANY, M_NO };
struct Sasl {
    Client c;
    Server srv;
    string node = "user", domain = "example.org", resource = "r", pass = "secret";
    bool has_node = true, has_res = true;
    int tls = T_NONE, cert = -1; // -1: none, otherwise client<n>.pem
    long flags = 0;
    Must must = M_YES; // is the challenge answered (and accepted)?
    bool judge_md5 = true;
    string prepped; // SASLprep of the password if it differs
    // SCRAM challenge
    string salt = "salt", snonce = "srv", ext;
    long iter = 2;
    std::function<string(const string &cn)> first; // instead of the regular one
    string challenge_b64; // instead of everything else
    Md5Ch md5{"example.org", "OA6MG9tEQGm2hh"};
    int refuse = 0; // attempts that are answered by a failure
    // --- seen
    string mech, gs2, cfb, cn, sfirst;
    bool waiting = false, answered = false, ok = false, rspauth = false;
    int attempts = 0, oks = 0;
    Strs nonces, mechs;
    Strs plus_tried;

    Sasl() : c(false)
    {
        srv.intercept = [this](Server &, Msg &m) { return on_msg(m); };
        srv.install();
    }
    string bare() const { return (has_node ? node + "@" : "") + domain; }
    string jid() const { return bare() + (has_res ? "/" + resource : ""); }
    void setup(const Strs &mechs)
    {
        srv.cfg.mechs = mechs;
        srv.cfg.starttls = tls != T_NONE;
        srv.cfg.domain = domain;
        sim::W->tls_version = tls == T_13 ? 0x0304 : 0x0303;
        sim::W->tls_reused = tls == T_12R;
        xmpp_conn_set_jid(c.conn, jid().c_str());
        xmpp_conn_set_pass(c.conn, pass.c_str());
        if (cert >= 0) {
            string f = certdir() + mc::fmt("client%d", cert);
            xmpp_conn_set_client_cert(c.conn, (f + ".pem").c_str(),
                                      (f + ".key").c_str());
        }
        xmpp_conn_set_flags(c.conn, flags);
    }
    void go()
    {
        mc::trace("client %s, password %s, %s", P(jid()).c_str(), P(pass).c_str(),
                  tname[tls]);
        waiting = answered = ok = rspauth = false;
        c.connect("h", 5222);
        c.settle(80);
        mc::evaluated(1);
    }
    void bad(const char *key, const char *f, ...)
        __attribute__((format(printf, 3, 4)))
    {
        char b[2000];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        mc::fail(key, "%s: %s", mech.c_str(), b);
    }
    void succeed(const string &data = "")
    {
        ok = true;
        oks++;
        if (refuse > 0) {
            refuse--;
            srv.send("<failure xmlns='" NS_SASL_ "'><not-authorized/></failure>");
            return;
        }
        srv.authed = true;
        srv.send("<success xmlns='" NS_SASL_ "'" +
                 (data.empty() ? "/>" : ">" + ref::b64(data) + "</success>"));
    }
    void challenge(const string &t)
    {
        waiting = true;
        srv.send("<challenge xmlns='" NS_SASL_ "'>" +
                 (challenge_b64.empty() ? ref::b64(t) : challenge_b64) +
                 "</challenge>");
    }
    bool plain_element(const Node &n, const char *what)
    {
        for (auto &k : n.kids)
            if (!k.text) {
                bad("shape", "<%s/> has a child element", what);
                return false;
            }
        return true;
    }
    bool on_msg(Msg &m)
    {
        if (m.step == S_AUTH) {
            on_auth(m.node);
            return true;
        }
        if (m.step == S_RESPONSE) {
            on_response(m.node);
            return true;
        }
        if (m.step == S_LEGACY) {
            on_legacy(m.node);
            return true;
        }
        if (m.step == S_HANDSHAKE) {
            on_handshake(m.node);
            return true;
        }
        return false;
    }
    bool plus_offered() const
    {
        for (auto &x : srv.cfg.mechs)
            if (x.size() > 5 && x.substr(x.size() - 5) == "-PLUS" &&
                ref::scram_md(x))
                return true;
        return false;
    }
    void on_auth(const Node &n)
    {
        attempts++;
        mech = n.attr("mechanism");
        mechs.push_back(mech);
        ok = answered = waiting = rspauth = false;
        if (std::find(srv.cfg.mechs.begin(), srv.cfg.mechs.end(), mech) ==
            srv.cfg.mechs.end())
            return bad("mechanism", "was not offered");
        if (!plain_element(n, "auth"))
            return;
        string text = n.alltext(), t;
        bool dec = text == "=" || ref::unb64(text, t);
        if (!dec)
            return bad("base64", "the initial response '%s' is not base64",
                       P(text).c_str());
        if (mech == "PLAIN") {
            string e = string(1, 0) + node + string(1, 0) + pass;
            if (t != e || text != ref::b64(e))
                return bad("plain", "message is '%s', not NUL user NUL password "
                                    "('%s')",
                           P(t).c_str(), P(e).c_str());
            succeed();
        } else if (mech == "ANONYMOUS") {
            if (!t.empty())
                return bad("anonymous", "carries '%s'", P(t).c_str());
            succeed();
        } else if (mech == "EXTERNAL") {
            if (text.empty())
                return bad("external", "no initial response (it must be '=' or "
                                       "an identity)");
            // the certificate alone tells who it is only if it names the
            // address and nothing else
            bool implied = cert == 0 || (cert == 1 && bare() == "user@example.org");
            if (text == "=" && !implied)
                return bad("external", "no identity though the certificate does "
                                       "not name exactly %s",
                           P(bare()).c_str());
            if (text != "=" && t != bare())
                return bad("external", "the identity is '%s' instead of the bare "
                                       "address %s",
                           P(t).c_str(), P(bare()).c_str());
            succeed();
        } else if (mech == "DIGEST-MD5") {
            if (!t.empty() || !text.empty())
                return bad("md5-initial", "has an initial response");
            challenge(md5.text);
        } else if (ref::scram_md(mech)) {
            scram_first(t);
        } else
            bad("mechanism", "unknown");
    }
    // gs2-header client-first-message-bare
    void scram_first(const string &t)
    {
        bool plus = mech.size() > 5 && mech.substr(mech.size() - 5) == "-PLUS";
        size_t i = 0;
        string flag;
        auto upto = [&](char ch) {
            string r;
            while (i < t.size() && t[i] != ch)
                r += t[i++];
            return r;
        };
        flag = upto(',');
        if (i >= t.size())
            return bad("gs2", "client-first '%s' has no gs2 header", P(t).c_str());
        i++;
        string authz = upto(',');
        if (i >= t.size() || !authz.empty())
            return bad("gs2", "client-first '%s': authorization identity is not "
                              "empty",
                       P(t).c_str());
        i++;
        gs2 = t.substr(0, i);
        cfb = t.substr(i);
        if (plus) {
            if (tls == T_NONE)
                return bad("plus-clear", "used without TLS");
            if (flag != "p=" + cb_type(tls))
                return bad("gs2", "flag '%s' on %s instead of 'p=%s'",
                           P(flag).c_str(), tname[tls], cb_type(tls).c_str());
        } else if (tls == T_NONE) {
            if (flag != "n")
                return bad("gs2", "flag '%s' without TLS, there is no channel to "
                                  "bind to",
                           P(flag).c_str());
        } else if (!plus_offered()) {
            if (flag != "y")
                return bad("gs2", "flag '%s' instead of 'y': the client supports "
                                  "channel binding and the server does not "
                                  "offer it",
                           P(flag).c_str());
        } else if (flag != "y" && flag != "n")
            return bad("gs2", "flag '%s'", P(flag).c_str());
        // n=saslname,r=c-nonce
        i = 0;
        if (cfb.compare(0, 2, "n=") != 0)
            return bad("first-bare", "'%s' does not start with n=", P(cfb).c_str());
        string user;
        for (i = 2; i < cfb.size() && cfb[i] != ','; i++) {
            if (cfb[i] != '=') {
                user += cfb[i];
                continue;
            }
            string e = cfb.substr(i, 3);
            if (e != "=2C" && e != "=3D")
                return bad("saslname", "'%s': '=' in the user name is not '=2C' or "
                                       "'=3D'",
                           P(cfb).c_str());
            user += e == "=2C" ? ',' : '=';
            i += 2;
        }
        if (user != node)
            return bad("saslname", "the user name reads '%s' in '%s' instead of "
                                   "'%s'",
                       P(user).c_str(), P(cfb).c_str(), P(node).c_str());
        if (cfb.compare(i, 3, ",r=") != 0)
            return bad("first-bare", "no r= after the user name in '%s'",
                       P(cfb).c_str());
        cn = cfb.substr(i + 3);
        if (cn.empty() || !printable(cn))
            return bad("nonce", "the nonce '%s' is not printable", P(cn).c_str());
        fresh(cn);
        string f = first ? first(cn)
                         : "r=" + cn + snonce + ",s=" + ref::b64(salt) + ",i=" +
                               std::to_string(iter) + ext;
        sfirst = f;
        challenge(f);
    }
    static bool printable(const string &s)
    {
        for (unsigned char ch : s)
            if (ch < 0x21 || ch > 0x7e || ch == ',')
                return false;
        return true;
    }
    void fresh(const string &n)
    {
        for (auto &o : nonces)
            if (o == n)
                return bad("nonce-reused", "nonce '%s' was used before",
                           P(n).c_str());
        nonces.push_back(n);
    }
    void on_response(const Node &n)
    {
        if (!plain_element(n, "response"))
            return;
        string text = n.alltext(), t;
        if (!ref::unb64(text, t))
            return bad("base64", "the response '%s' is not base64", P(text).c_str());
        if (!waiting && !rspauth)
            return bad("unsolicited", "response '%s' without a challenge",
                       P(t).c_str());
        if (rspauth) {
            rspauth = false;
            if (!text.empty() && text != "=")
                return bad("md5-final", "the answer to rspauth carries '%s'",
                           P(t).c_str());
            return succeed();
        }
        waiting = false;
        answered = true;
        if (must == M_NO)
            return bad("bad-challenge-answered",
                       "the challenge '%s' must not be answered but the client "
                       "sent '%s'",
                       P(mech == "DIGEST-MD5" ? md5.text : sfirst).c_str(),
                       P(t).c_str());
        if (mech == "DIGEST-MD5")
            md5_response(t);
        else
            scram_final(t);
    }
    void scram_final(const string &t)
    {
        const EVP_MD *md = ref::scram_md(mech);
        string nonce = cn + snonce;
        string c = ref::b64(gs2 + (gs2[0] == 'p' ? cb_data(tls) : string()));
        string wop = "c=" + c + ",r=" + nonce;
        if (t.compare(0, wop.size() + 3, wop + ",p=") != 0) {
            string k = t.compare(0, 3 + c.size(), "c=" + c + ",") != 0
                           ? "channel-binding"
                           : "client-final";
            return bad(k.c_str(), "client-final is '%s' instead of '%s,p=...'",
                       P(t).c_str(), P(wop).c_str());
        }
        string proof, want;
        if (!ref::unb64(t.substr(wop.size() + 3), proof))
            return bad("client-final", "the proof in '%s' is not base64",
                       P(t).c_str());
        string am = cfb + "," + sfirst + "," + wop;
        const string &pw = prepped.empty() ? pass : prepped;
        string salted = ref::pbkdf2(md, pw, salt, iter);
        want = ref::scram_proof(md, salted, am);
        if (proof != want)
            return bad(prepped.empty() ? "proof" : ("saslprep " + P(pass)).c_str(),
                       "the proof does not verify (user %s, password %s of %zu "
                       "bytes, salt of %zu bytes, i=%ld, challenge %s)",
                       P(node).c_str(), P(pass).c_str(), pass.size(), salt.size(),
                       iter, P(sfirst).c_str());
        succeed("v=" + ref::b64(ref::scram_server_sig(md, salted, am)));
    }
    void md5_response(const string &t)
    {
        std::vector<Dir> v;
        if (!directives(t, v))
            return bad("md5-syntax", "'%s' is not a list of directives (challenge "
                                     "'%s')",
                       P(t).c_str(), P(md5.text).c_str());
        std::map<string, Dir> m;
        for (auto &d : v) {
            if (m.count(d.name))
                return bad("md5-syntax", "'%s' repeats %s", P(t).c_str(),
                           d.name.c_str());
            m[d.name] = d;
        }
        static const char *q[] = {"username", "realm", "nonce", "cnonce",
                                  "digest-uri"},
                          *u[] = {"nc", "qop", "response", "charset"};
        for (auto k : q) {
            if (!m.count(k) && strcmp(k, "realm"))
                return bad("md5-directive", "%s is missing in '%s'", k, P(t).c_str());
            if (m.count(k) && !m[k].quoted)
                return bad("md5-syntax", "%s is not quoted in '%s'", k,
                           P(t).c_str());
        }
        for (auto k : u) {
            if (!m.count(k) && (!strcmp(k, "nc") || !strcmp(k, "response")))
                return bad("md5-directive", "%s is missing in '%s'", k, P(t).c_str());
            if (m.count(k) && m[k].quoted)
                return bad("md5-syntax", "%s is quoted in '%s'", k, P(t).c_str());
        }
        for (auto &d : v)
            if (d.name == "authzid" || d.name == "cipher")
                return bad("md5-directive", "'%s' has %s", P(t).c_str(),
                           d.name.c_str());
        bool u8 = m.count("charset");
        if (u8 && (!md5.utf8 || strcasecmp(m["charset"].value.c_str(), "utf-8")))
            return bad("md5-charset", "'%s' answers '%s'", P(t).c_str(),
                       P(md5.text).c_str());
        string wire = node, l1;
        if (!u8 && !latin1(node, wire))
            return; // there is no right answer
        if (!u8 && !latin1(pass, l1))
            return;
        if (m["username"].value != wire)
            return bad("md5-user", "username is '%s' instead of '%s'",
                       P(m["username"].value).c_str(), P(wire).c_str());
        if (m["nonce"].value != md5.nonce)
            return bad("md5-nonce", "nonce is '%s' instead of '%s'",
                       P(m["nonce"].value).c_str(), P(md5.nonce).c_str());
        if (m["nc"].value != "00000001")
            return bad("md5-nc", "nc is '%s'", P(m["nc"].value).c_str());
        if (m.count("qop") && m["qop"].value != "auth")
            return bad("md5-qop", "qop is '%s', no security layer can follow "
                                  "(challenge '%s')",
                       P(m["qop"].value).c_str(), P(md5.text).c_str());
        if (m["digest-uri"].value != "xmpp/" + domain)
            return bad("md5-uri", "digest-uri is '%s'",
                       P(m["digest-uri"].value).c_str());
        string realm = m.count("realm") ? m["realm"].value : "";
        Strs rs = md5.realms;
        if (rs.size() == 1 && rs[0].empty()) // an empty one stands for none
            rs.clear();
        if (!rs.empty() && std::find(rs.begin(), rs.end(), realm) == rs.end())
            return bad("md5-realm", "realm is '%s', challenge '%s'",
                       P(realm).c_str(), P(md5.text).c_str());
        string cnon = m["cnonce"].value;
        if (cnon.empty())
            return bad("nonce", "cnonce is empty");
        fresh(cnon);
        Strs rc{realm, hashform(realm), m.count("realm") ? m["realm"].raw : ""},
            nc{m["nonce"].value, m["nonce"].raw};
        const string &got = m["response"].value;
        bool eq = false;
        for (auto &r : rc)
            for (auto &x : nc)
                eq = eq || got == ref::md5_response({}, hashform(node), r,
                                                    hashform(pass), x, cnon,
                                                    "00000001", "auth",
                                                    m["digest-uri"].value, "",
                                                    false);
        if (!eq)
            return bad("md5-response",
                       "response does not verify (user %s, password %s, "
                       "challenge '%s', answer '%s')",
                       P(node).c_str(), P(pass).c_str(), P(md5.text).c_str(),
                       P(t).c_str());
        if (refuse > 0)
            return succeed();
        rspauth = true;
        srv.send("<challenge xmlns='" NS_SASL_ "'>" +
                 ref::b64("rspauth=" + ref::md5_response({}, hashform(node), realm,
                                                         hashform(pass), md5.nonce,
                                                         cnon, "00000001", "auth",
                                                         "xmpp/" + domain, "",
                                                         true)) +
                 "</challenge>");
    }
    void on_legacy(const Node &n)
    {
        attempts++;
        mech = "jabber:iq:auth";
        const Node *q = n.child("query", "jabber:iq:auth");
        if (n.attr("type") != "set" || n.attr("id").empty() || !q)
            return bad("legacy", "is not a request: %s", P(n.str()).c_str());
        std::map<string, string> m;
        for (auto &k : q->kids) {
            if (k.text)
                continue;
            if (m.count(k.name))
                return bad("legacy", "repeats %s", k.name.c_str());
            m[k.name] = k.alltext();
        }
        if (m["username"] != node)
            return bad("legacy", "username is '%s' instead of '%s'",
                       P(m["username"]).c_str(), P(node).c_str());
        if (m["resource"] != resource)
            return bad("legacy", "resource is '%s' instead of '%s'",
                       P(m["resource"]).c_str(), P(resource).c_str());
        if (m.count("digest")
                ? m["digest"] != ref::hex(ref::digest(EVP_sha1(), srv.cfg.sid + pass))
                : m["password"] != pass)
            return bad("legacy", "password is '%s' instead of '%s'",
                       P(m["password"]).c_str(), P(pass).c_str());
        ok = true;
        oks++;
        srv.send("<iq type='result' id='" + n.attr("id") + "'/>");
    }
    string sid;
    void on_handshake(const Node &n)
    {
        attempts++;
        mech = "handshake";
        if (!plain_element(n, "handshake"))
            return;
        string e = ref::hex(ref::digest(EVP_sha1(), sid + pass));
        if (n.alltext() != e)
            return bad("handshake", "is '%s' instead of SHA1('%s' '%s') = %s",
                       P(n.alltext()).c_str(), P(sid).c_str(), P(pass).c_str(),
                       e.c_str());
        ok = true;
        oks++;
        srv.send("<handshake/>");
    }
    void finish()
    {
        if (!mc::failed() && must == M_YES && !c.up)
            bad("not-authenticated",
                "the attempt did not succeed though nothing is wrong with it "
                "(user %s, password %s, %s, challenge '%s')",
                P(node).c_str(), P(pass).c_str(), tname[tls],
                P(mech == "DIGEST-MD5" ? md5.text : sfirst).c_str());
        if (!mc::failed() && must == M_NO && c.up)
            bad("bad-challenge-accepted", "connected");
        done();
    }
    void done()
    {
        mc::state(mc::fnv(mech + gs2) ^ mc::fnv(node) ^ mc::fnv(pass) * 3 ^
                  mc::fnv(sfirst) * 5 ^ mc::fnv(md5.text) * 7 ^ oks);
        mc::step(1);
        c.release();
    }
};
// ------------------------------------------------------------- the inputs
static string rep(const string &s, size_t n)
{
    string r;
    while (r.size() < n)
        r += s;
    return r.substr(0, n);
}
static Strs users()
{
    Strs v{"user", "u", ",", "=", "a,b", "a=b", "=2C", "=3D", ",,==", "a,", "=a",
           "a\\40b", "\\", "a\\5cb\\", "\xc3\xbc", "\xe6\x97\xa5\xe6\x9c\xac",
           "\xf0\x9f\x98\x80", "a\xc3\xa9,=", "p=tls-unique", "n=x", "r=y",
           "%s%n%d", "a b", "!#$%^*()_+-[]{}|;?~`"};
    for (int n : {20, 36, 40, 41, 255, 1023})
        v.push_back(rep("abcdefghij", n));
    v.push_back(rep(",=", 1022));
    if (mc::thorough())
        for (int c = 0x21; c < 0x7f; c++)
            if (!strchr("\"&'/:<>@", c))
                v.push_back(string(1, c));
    return v;
}
static Strs passwords()
{
    Strs v{"secret", "", "x", " ", "a b", ",", "=", "a,b=c", "\"", "a\"b", "\\",
           "a\\b", "<&>", "]]>", "\xc3\xbc", "p\xc3\xa9\xc3\xbf", "\xe6\x97\xa5",
           "\xc3\xa9\xe6\x97\xa5", "%s%n", ":", "a:b:c", "\xf0\x9f\x98\x80"};
    for (int n : {19, 20, 21, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 119, 120,
                  127, 128, 129, 255, 256, 257, 1000})
        v.push_back(rep("Pa5s%w0rd", n));
    if (mc::thorough()) {
        for (int c = 0x20; c < 0x7f; c++)
            v.push_back(string(1, c));
        for (int n = 2; n < 300; n++)
            v.push_back(rep("qW3", n));
        v.push_back(rep("long ", 5000));
    }
    return v;
}
struct MT {
    const char *mech;
    int tls;
};
static std::vector<MT> scrams()
{
    std::vector<MT> v;
    static const char *n[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"},
                      *p[] = {"SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS",
                              "SCRAM-SHA-512-PLUS"};
    for (auto m : n)
        v.push_back({m, T_NONE});
    if (TLS_BUILD) {
        for (auto m : n)
            for (int t : {T_12, T_13})
                v.push_back({m, t});
        for (auto m : p)
            for (int t : {T_12, T_13, T_12R})
                v.push_back({m, t});
    }
    return v;
}
template <class T> static T pick(const std::vector<T> &v, const char *what)
{
    int k = 0, n = v.size();
    while (n > 200) { // the explorer takes up to 250 alternatives at once
        int h = mc::choose((n + 199) / 200, what);
        k = h * 200;
        n = std::min<int>(200, v.size() - k);
    }
    return v[k + mc::choose(n, what)];
}
// -------------------------------------------------------------- scenarios
static void scram_users()
{
    sim::reset();
    Sasl s;
    MT m = pick(scrams(), "mechanism");
    s.node = pick(users(), "user");
    s.tls = m.tls;
    s.pass = mc::choose(2, "password") ? "a,=b" : "secret";
    s.setup({m.mech});
    s.go();
    s.finish();
}
static void scram_passwords()
{
    sim::reset();
    Sasl s;
    MT m = pick(scrams(), "mechanism");
    s.pass = pick(passwords(), "password");
    s.tls = m.tls;
    s.setup({m.mech});
    s.go();
    s.finish();
}
static void scram_challenges()
{
    sim::reset();
    Sasl s;
    MT m = pick(scrams(), "mechanism");
    s.tls = m.tls;
    std::vector<string> salts{"salt", string(1, 0), string("\0\xff\0", 3), "ab",
                              "abcd"};
    for (int n : {5, 16, 47, 48, 51, 52, 59, 60, 61, 63, 64, 65, 123, 124, 125,
                  128, 256})
        salts.push_back(rep(string("\x00\x01\xfe\x80salt", 8), n));
    Strs non{"srv", "s", "=", "r=", "=s=x;i=1", "!~",
             rep("0123456789abcdef", 64), rep("%s%d", 300)};
    std::vector<long> it{1, 2, 3, 100};
    if (mc::thorough()) {
        it.push_back(4096);
        it.push_back(10001);
        for (int n = 1; n < 130; n++)
            salts.push_back(rep("zyx", n));
    }
    s.salt = pick(salts, "salt");
    s.snonce = pick(non, "server nonce");
    s.iter = pick(it, "iterations");
    Strs ex{"", ",x=1", ",foo", ",a=b,c=d=e,f="};
    s.ext = pick(ex, "extensions");
    s.setup({m.mech});
    s.go();
    s.finish();
}
static void scram_iterations()
{
    sim::reset();
    mc::allow_secs(20);
    Sasl s;
    auto all = scrams();
    std::vector<MT> ms(all.begin(), all.begin() + 3);
    MT m = pick(ms, "mechanism");
    s.tls = m.tls;
    std::vector<long> it{4096, 10000, 65535, 65536, 65537};
    if (mc::thorough()) {
        it.push_back(100000);
        it.push_back(1000000);
    } else
        it.push_back(100000);
    s.iter = pick(it, "iterations");
    s.setup({m.mech});
    s.go();
    s.finish();
}
// challenges that must not be answered (or only correctly)
static void scram_bad()
{
    sim::reset();
    Sasl s;
    MT m = pick(scrams(), "mechanism");
    s.tls = m.tls;
    int k = mc::choose(34, "challenge");
    s.must = M_NO;
    string S = ref::b64(s.salt);
    auto sub = [&](std::function<string(string)> f) { s.first = f; };
    switch (k) {
    case 0: sub([=](string n) { return "r=other" + string("srv,s=") + S + ",i=2"; }); break;
    case 1: sub([=](string n) { return "r=" + n.substr(1) + "srv,s=" + S + ",i=2"; }); break;
    case 2: sub([=](string n) { return "r=" + n.substr(0, n.size() - 1) + "#srv,s=" + S + ",i=2"; }); break;
    case 3: sub([=](string n) { return "r=" + n.substr(0, n.size() - 1) + ",s=" + S + ",i=2"; }); break;
    case 4: sub([=](string n) { return "r=srv" + n + ",s=" + S + ",i=2"; }); break;
    case 5: sub([=](string n) { return "r=,s=" + S + ",i=2"; }); break;
    case 6: sub([=](string n) { return "s=" + S + ",i=2"; }); break;
    case 7: sub([=](string n) { return "r=" + n + "srv,i=2"; }); break;
    case 8: sub([=](string n) { return "r=" + n + "srv,s=" + S; }); break;
    case 9: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i="; }); break;
    case 10: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=0"; }); break;
    case 11: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=-1"; }); break;
    case 12: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=2x"; }); break;
    case 13: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=x"; }); break;
    case 14: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=0x2"; }); break;
    case 15: sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=99999999999999999999999"; }); break;
    case 16: sub([=](string n) { return "r=" + n + "srv,s=!!!!,i=2"; }); break;
    case 17: sub([=](string n) { return "r=" + n + "srv,s=c2Fsd,i=2"; }); break;
    case 18: sub([=](string n) { return "m=ext,r=" + n + "srv,s=" + S + ",i=2"; }); break;
    case 19: sub([=](string n) { return "e=invalid-encoding"; }); break;
    case 20: sub([=](string n) { return ""; }); break;
    case 21: sub([=](string n) { return ",,,"; }); break;
    case 22: sub([=](string n) { return n; }); break;
    case 23: sub([=](string n) { return "r=" + n; }); break;
    case 24: sub([=](string n) { return "R=" + n + "srv,S=" + S + ",I=2"; }); break;
    case 25: s.challenge_b64 = "!!!!"; break;
    case 26: s.challenge_b64 = "cj1h="; break;
    case 27: s.challenge_b64 = ref::b64(string("r=\0x,s=AA==,i=1", 15)); break;
    case 28: // equal to the client's nonce: nothing of the server's in it
        s.snonce = "";
        s.must = M_ANY;
        break;
    case 29: // other order: not the grammar, but it may be read
        s.must = M_ANY;
        sub([=](string n) { return "s=" + S + ",r=" + n + "srv,i=2"; });
        break;
    case 30:
        s.must = M_ANY;
        sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=02"; });
        break;
    case 31:
        s.must = M_ANY;
        sub([=](string n) { return "r=" + n + "srv,s=" + S + ",i=2,"; });
        break;
    case 32:
        s.must = M_ANY;
        sub([=](string n) { return ",r=" + n + "srv,,s=" + S + ",i=2"; });
        break;
    case 33: // a nonce with the other letter case is another nonce
        sub([=](string n) {
            string o = n;
            for (auto &ch : o)
                if (isalpha((unsigned char)ch)) {
                    ch ^= 0x20;
                    break;
                }
            return (o == n ? "r=#" : "r=") + o + "srv,s=" + S + ",i=2";
        });
        break;
    }
    s.setup({m.mech});
    s.go();
    s.finish();
}
// every set of offers, all attempts refused: header of each fallback
static void scram_offers()
{
    sim::reset();
    Sasl s;
    static const char *all[] = {"SCRAM-SHA-1",        "SCRAM-SHA-256",
                                "SCRAM-SHA-512",      "SCRAM-SHA-1-PLUS",
                                "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS",
                                "DIGEST-MD5",         "PLAIN"};
    int set = mc::choose(128, "offers");
    int pl = mc::choose(2, "PLAIN");
    s.tls = mc::choose(TLS_BUILD ? (int)NT : 1, "TLS");
    s.must = M_ANY;
    s.refuse = 100;
    Strs o;
    for (int i = 0; i < 7; i++)
        if (set >> i & 1)
            o.push_back(all[i]);
    if (pl)
        o.push_back("PLAIN");
    if (mc::choose(2, "last accepted"))
        s.refuse = std::max(0, (int)o.size() - 1);
    s.setup(o);
    s.go();
    size_t usable = 0;
    for (auto &x : o)
        if (s.tls != T_NONE || x.find("-PLUS") == string::npos)
            usable++;
    std::set<string> uniq(s.mechs.begin(), s.mechs.end());
    if (!mc::failed() && uniq.size() != s.mechs.size())
        s.bad("repeated", "a mechanism is tried twice");
    if (!mc::failed() && s.oks != s.attempts)
        s.bad("incomplete", "%d of %d attempts complete", s.oks, s.attempts);
    mc::sample(mc::fmt("%s: %d offers, %d attempts", tname[s.tls], (int)o.size(),
                       s.attempts));
    s.done();
}
static void saslprep()
{
    sim::reset();
    Sasl s;
    static const char *in[] = {"I\xc2\xadX", "a\xc2\xa0z", "\xe2\x85\xa8",
                               "\xc2\xaa"},
                      *out[] = {"IX", "a z", "IX", "a"};
    auto all = scrams();
    std::vector<MT> ms(all.begin(), all.begin() + 3);
    MT m = pick(ms, "mechanism");
    int k = mc::choose(4, "password");
    s.pass = in[k];
    s.prepped = out[k];
    s.must = M_ANY;
    s.setup({m.mech});
    s.go();
    s.finish();
}
static void md5_creds()
{
    sim::reset();
    Sasl s;
    Strs u = users(), p = passwords();
    if (!mc::thorough() && p.size() > 26)
        p.resize(26);
    s.node = pick(u, "user");
    s.pass = pick(p, "password");
    bool u8 = mc::choose(2, "charset") == 0;
    s.md5 = Md5Ch("example.org", "OA6MG9tEQGm2hh", u8);
    string x;
    if (!u8 && (!latin1(s.node, x) || !latin1(s.pass, x)))
        s.must = M_ANY;
    s.setup({"DIGEST-MD5"});
    s.go();
    s.finish();
}
static void md5_challenges()
{
    sim::reset();
    Sasl s;
    Md5Ch d;
    int hard = mc::choose(3, "credentials");
    if (hard == 1) {
        s.node = "a\\b";
        s.pass = "p\"\\:";
    } else if (hard == 2) {
        s.node = "\xc3\xbc";
        s.pass = "\xc3\xa9";
    }
    struct V {
        string raw, val;
    };
    auto Q = [](const string &r) { return "\"" + r + "\""; };
    std::vector<V> nonces{{"OA6MG9tEQGm2hh", "OA6MG9tEQGm2hh"},
                          {"a\\\"b\\\\c", "a\"b\\c"},
                          {"a,b=c; d", "a,b=c; d"},
                          {"'x'", "'x'"},
                          {rep("0123456789", 300), rep("0123456789", 300)}},
        realms{{"example.org", "example.org"},
               {"", ""},
               {"a \\\"b\\\" c", "a \"b\" c"},
               {"x,y=\\\\z", "x,y=\\z"},
               {"it's", "it's"},
               {"\xc3\xbc", "\xc3\xbc"}};
    V no = nonces[mc::choose(nonces.size(), "nonce")];
    int nr = mc::choose(8, "realms");
    static const char *sepv[] = {",", ", ", " , ", ",\t", ",,", " ,\r\n "};
    string sep = sepv[mc::choose(6, "separator")];
    int qop = mc::choose(9, "qop");
    int cs = mc::choose(4, "charset");
    int order = mc::choose(3, "order");
    static const char *extra[] = {"",
                                  "maxbuf=65536",
                                  "stale=true",
                                  "cipher=\"3des,rc4\"",
                                  "username=\"evil\"",
                                  "cnonce=\"evil\"",
                                  "nc=00000007",
                                  "digest-uri=\"xmpp/evil\"",
                                  "response=00000000000000000000000000000000",
                                  "authzid=\"evil\"",
                                  "x-param=\"a\\\"b,nonce=evil\"",
                                  "x=y"};
    // unknown directives with the first separators and plain credentials only
    int ex = hard == 0 && sep.size() < 2 ? mc::choose(12, "extra") : 0;
    Strs parts;
    d.nonce = no.val;
    d.nonce_raw = no.raw;
    Strs rp;
    auto add = [&](const V &v) {
        rp.push_back("realm=" + Q(v.raw));
        d.realms.push_back(v.val);
        d.realms_raw.push_back(v.raw);
    };
    if (nr < 6)
        add(realms[nr]);
    else if (nr == 7) {
        add({"one", "one"});
        add({"two", "two"});
    }
    static const char *qv[] = {"qop=\"auth\"",
                               nullptr,
                               "qop=\"auth,auth-int\"",
                               "qop=\"auth-int,auth\"",
                               "qop=\"auth-int, auth ,auth-conf\"",
                               "qop=auth",
                               "qop=\"auth-int\"",
                               "qop=\"auth-conf,auth-int\"",
                               "qop=\"x-auth,auth\""};
    if (qop == 6 || qop == 7)
        s.must = M_NO;
    static const char *cv[] = {"charset=utf-8", nullptr, "charset=UTF-8",
                               "charset=\"utf-8\""};
    d.utf8 = cs != 1;
    if (order == 2) { // names in another letter case
        for (auto &x : rp)
            x.replace(0, 5, "Realm");
    }
    string np = (order == 2 ? "NONCE=" : "nonce=") + Q(no.raw);
    Strs tail;
    if (qv[qop])
        tail.push_back(qv[qop]);
    if (cv[cs])
        tail.push_back(cv[cs]);
    if (ex)
        tail.push_back(extra[ex]);
    tail.push_back("algorithm=md5-sess");
    if (order == 1) {
        parts = tail;
        parts.push_back(np);
        parts.insert(parts.end(), rp.begin(), rp.end());
    } else {
        parts = rp;
        parts.push_back(np);
        parts.insert(parts.end(), tail.begin(), tail.end());
    }
    for (size_t i = 0; i < parts.size(); i++)
        d.text += (i ? sep : "") + parts[i];
    if (nr == 5 && !d.utf8) // the realm is not in the charset: no right answer
        s.must = s.must == M_NO ? M_NO : M_ANY, d.realms.clear();
    s.md5 = d;
    s.setup({"DIGEST-MD5"});
    s.go();
    s.finish();
}
static void md5_bad()
{
    sim::reset();
    Sasl s;
    int k = mc::choose(14, "challenge");
    s.must = M_NO;
    Md5Ch &d = s.md5;
    switch (k) {
    case 0: d.text = "realm=\"example.org\",qop=\"auth\",charset=utf-8,algorithm=md5-sess"; break;
    case 1: d.text = ""; break;
    case 2: d.text = "nonce"; break;
    case 3: d.text = ",,,"; break;
    case 4: s.challenge_b64 = "!!!!"; break;
    case 5: s.challenge_b64 = "bm9uY2U9"; s.must = M_ANY; s.judge_md5 = false; break;
    case 6: d.text = "xnonce=\"abc\",qop=\"auth\",algorithm=md5-sess"; break;
    case 7: d.text = "x=\"nonce=abc\",qop=\"auth\",algorithm=md5-sess"; break;
    case 8: d.text = "x=\"a\\\",nonce=\\\"evil\",qop=\"auth\",algorithm=md5-sess"; break;
    case 9: d.text = "realm=\"a\",nonce=\"abc\",qop=\"auth-int\",algorithm=md5-sess"; break;
    case 10: d.text = "realm=\"a\",nonce=\"abc\",qop=\"\",algorithm=md5-sess"; s.must = M_ANY; break;
    case 11: d.text = "realm=\"a\",nonce=\"abc\",qop=\"auth-integrity,xauth\",algorithm=md5-sess"; break;
    case 12: d.text = "realm=\"a\",nonce=\"abc\",qop=\"AUTHX auth-x\",algorithm=md5-sess"; break;
    case 13: s.challenge_b64 = ref::b64(string("nonce=\"a\0b\",qop=\"auth\"", 22)); break;
    }
    d.realms = {"a"};
    d.nonce = "abc";
    if (k == 5) {
        d.realms.clear();
        d.nonce = "";
    }
    s.setup({"DIGEST-MD5"});
    s.go();
    s.finish();
}
static void plain()
{
    sim::reset();
    Sasl s;
    s.node = pick(users(), "user");
    s.pass = pick(passwords(), "password");
    if (TLS_BUILD)
        s.tls = mc::choose(2, "TLS") ? T_13 : T_NONE;
    s.setup({"PLAIN"});
    s.go();
    s.finish();
}
static void legacy()
{
    sim::reset();
    Sasl s;
    s.node = pick(users(), "user");
    s.pass = pick(passwords(), "password");
    Strs r{"r", "a b", "<&>\"'", "a/b@c", "\xe6\x97\xa5", rep("res", 1023)};
    s.resource = pick(r, "resource");
    s.flags = XMPP_CONN_FLAG_LEGACY_AUTH;
    int how = mc::choose(TLS_BUILD ? 3 : 2, "server");
    s.srv.cfg.features = how != 1;
    if (how == 2)
        s.tls = T_13;
    s.setup({});
    s.go();
    if (how == 1) // the client waits for features
        s.c.run_for(16500);
    s.finish();
}
static void external()
{
    sim::reset();
    Sasl s;
    s.cert = mc::choose(3, "certificate");
    int j = mc::choose(5, "address");
    s.node = j == 1 ? "other" : j == 2 ? "third" : j == 3 ? "\xc3\xbc" : "user";
    s.has_node = j != 4;
    s.has_res = mc::choose(2, "resource");
    s.tls = mc::choose(2, "TLS") ? T_13 : T_NONE;
    int more = mc::choose(3, "others");
    s.setup(more == 0   ? Strs{"EXTERNAL"}
            : more == 1 ? Strs{"EXTERNAL", "PLAIN"}
                        : Strs{"EXTERNAL", "SCRAM-SHA-1"});
    if (mc::choose(2, "password"))
        xmpp_conn_set_pass(s.c.conn, nullptr);
    s.go();
    s.finish();
}
static void anonymous()
{
    sim::reset();
    Sasl s;
    s.has_node = false;
    s.has_res = mc::choose(2, "resource");
    if (TLS_BUILD)
        s.tls = mc::choose(2, "TLS") ? T_13 : T_NONE;
    int more = mc::choose(3, "others");
    s.setup(more == 0   ? Strs{"ANONYMOUS"}
            : more == 1 ? Strs{"PLAIN", "ANONYMOUS"}
                        : Strs{"SCRAM-SHA-1", "ANONYMOUS", "DIGEST-MD5"});
    if (mc::choose(2, "password"))
        xmpp_conn_set_pass(s.c.conn, nullptr);
    s.go();
    if (!mc::failed() && (s.mechs.empty() || s.mechs[0] != "ANONYMOUS"))
        s.bad("anonymous", "not used");
    s.finish();
}
static void component()
{
    sim::reset();
    Sasl s;
    Strs ids{"s1", "3E2A", "a&b", "<x>", "it's", "\"q\"", "\xc3\xbc", "a b",
             rep("0123456789abcdef", 55), rep("x", 56), rep("x", 63),
             rep("x", 64), rep("y", 65), rep("z", 500), rep("&", 300)};
    s.sid = pick(ids, "stream id");
    s.srv.cfg.sid.clear();
    s.pass = pick(passwords(), "secret");
    s.srv.cfg.component = true;
    for (char ch : s.sid)
        s.srv.cfg.sid += ch == '\'' ? "&apos;" : xml_escape(string(1, ch));
    s.srv.cfg.domain = "comp.example.org";
    xmpp_conn_set_jid(s.c.conn, "comp.example.org");
    xmpp_conn_set_pass(s.c.conn, s.pass.c_str());
    s.c.connect_component("h", 0);
    s.c.settle(80);
    mc::evaluated(1);
    s.finish();
}
// the credentials of the second attempt are those set last
static void again()
{
    sim::reset();
    Sasl s;
    Strs ms{"PLAIN", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256",
            "SCRAM-SHA-512"};
    if (TLS_BUILD) {
        ms.push_back("SCRAM-SHA-1-PLUS");
        ms.push_back("SCRAM-SHA-512-PLUS");
    }
    string m1 = pick(ms, "first mechanism"), m2 = pick(ms, "second mechanism");
    auto tls = [&](const string &m) {
        return m.find("PLUS") != string::npos ? 1 + mc::choose(3, "TLS")
               : TLS_BUILD && mc::choose(2, "TLS") ? (int)T_13
                                                   : (int)T_NONE;
    };
    s.tls = tls(m1);
    s.setup({m1});
    int r = mc::choose(3, "first attempt");
    s.refuse = r == 1;
    s.must = M_ANY;
    if (r == 2) {
        s.challenge_b64 = "!!!!";
        s.md5.text = "x";
    }
    s.go();
    xmpp_disconnect(s.c.conn);
    s.srv.close();
    s.c.settle(40);
    s.c.run_for(2500);
    if (mc::failed())
        return s.done();
    s.challenge_b64 = "";
    s.refuse = 0;
    s.node = "second";
    s.pass = "other,=";
    s.salt = "pepper";
    s.iter = 5;
    s.md5 = Md5Ch("realm2", "n2");
    s.must = M_YES;
    s.tls = tls(m2);
    s.setup({m2});
    s.go();
    s.finish();
}
// nonces: every attempt of one connection, of reconnects, of several contexts
static void nonces()
{
    sim::reset();
    mc::allow_secs(20);
    Sasl s;
    int kind = mc::choose(4, "kind");
    int ms = mc::choose(3, "pause");
    Strs offers{"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "DIGEST-MD5"};
    if (kind == 1)
        offers = {"DIGEST-MD5"};
    if (kind == 2)
        offers = {"SCRAM-SHA-1"};
    if (kind == 3) { // several contexts
        std::vector<std::unique_ptr<Sasl>> v;
        Strs seen;
        for (int i = 0; i < 6; i++) {
            v.emplace_back(new Sasl());
            v.back()->nonces = seen;
            v.back()->setup({i % 2 ? "DIGEST-MD5" : "SCRAM-SHA-1"});
            v.back()->go();
            seen = v.back()->nonces;
            if (mc::failed())
                break;
            xmpp_disconnect(v.back()->c.conn);
            v.back()->srv.close();
            v.back()->c.run_for(2500);
        }
        for (auto &x : v)
            x->c.release();
        s.done();
        return;
    }
    int n = mc::thorough() ? 1200 : 150;
    s.must = M_ANY;
    for (int i = 0; i < n && !mc::failed(); i++) {
        s.refuse = offers.size() - 1;
        s.setup(offers);
        s.go();
        if (!mc::failed() && !s.c.up)
            s.bad("not-authenticated", "attempt %d", i);
        xmpp_disconnect(s.c.conn);
        s.srv.close();
        s.c.settle(40);
        if (!s.c.disconnected())
            s.c.run_for(2100);
        if (ms)
            sim::W->now_us += ms == 1 ? 1000 : 60000000;
    }
    mc::sample(mc::fmt("%zu distinct nonces", s.nonces.size()));
    s.done();
}
void register_scenarios()
{
    mc::add("scram-users", scram_users, 0, 0);
    mc::add("scram-passwords", scram_passwords, 0, 0);
    mc::add("scram-challenges", scram_challenges, 0, 0);
    mc::add("scram-iterations", scram_iterations, 0, 0);
    mc::add("scram-bad", scram_bad, 0, 0);
    mc::add("offers", scram_offers, 0, 0);
    mc::add("saslprep", saslprep, 0, 0);
    mc::add("md5-credentials", md5_creds, 0, 0);
    mc::add("md5-challenges", md5_challenges, 0, 0);
    mc::add("md5-bad", md5_bad, 0, 0);
    mc::add("plain", plain, 0, 0);
    mc::add("legacy", legacy, 0, 0);
    if (TLS_BUILD)
        mc::add("external", external, 0, 0);
    mc::add("anonymous", anonymous, 0, 0);
    mc::add("component", component, 0, 0);
    mc::add("again", again, 0, 0);
    mc::add("nonces", nonces, 0, 0);
}
