// C08: a TLS session is only trusted if the certificate verifies or the user
// said so. The library's client talks to a real OpenSSL server in the same
// process; certificates are made as needed.
#include "world.h"
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <strings.h>
using namespace world;

// ------------------------------------------------------------ randomness
static uint64_t rs;
static int r_bytes(unsigned char *b, int n)
{
    for (int i = 0; i < n; i++) {
        rs ^= rs << 13;
        rs ^= rs >> 7;
        rs ^= rs << 17;
        b[i] = rs >> 24;
    }
    return 1;
}
static int r_status() { return 1; }
static void fixed_random()
{
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    static const RAND_METHOD m = {nullptr, r_bytes, nullptr,
                                  nullptr, r_bytes, r_status};
    RAND_set_rand_method(&m);
#pragma GCC diagnostic pop
    rs = 0x9e3779b97f4a7c15ull;
}
// ------------------------------------------------------------ certificates
static std::string certdir()
{
    std::string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/certs/";
}
static std::string slurp(const std::string &f)
{
    std::string r;
    if (FILE *h = fopen(f.c_str(), "rb")) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, h)) > 0)
            r.append(b, n);
        fclose(h);
    }
    return r;
}
static X509 *pem_cert(const std::string &t)
{
    BIO *b = BIO_new_mem_buf(t.data(), t.size());
    X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    return x;
}
static EVP_PKEY *pem_key(const std::string &f)
{
    std::string t = slurp(certdir() + f);
    BIO *b = BIO_new_mem_buf(t.data(), t.size());
    EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    return k;
}
static std::string digest(X509 *x)
{
    unsigned char d[64];
    unsigned n = 0;
    X509_digest(x, EVP_sha256(), d, &n);
    return std::string((char *)d, n);
}

enum Issuer {
    I_ROOT,
    I_OTHER,   // a CA the client does not know
    I_SELF,    // self-signed
    I_INTER,   // an intermediate below root
    I_XINTER,  // an expired one
    I_FINTER,  // one that is not valid yet
    I_NONCA,   // "issued" by a server certificate
    I_UINTER,  // an intermediate below the unknown CA
    I_FORGED,  // names root as the issuer, signed with another key
    I_TAMPERED // issued by root, then the signature was damaged
};
static const char *iname[] = {"root",          "unknown CA",
                              "itself",        "intermediate",
                              "expired interm.", "future interm.",
                              "a non-CA cert", "unknown's interm.",
                              "forged root",   "root, damaged"};
enum When { NOW, EXPIRED, FUTURE };
struct Spec {
    std::string cn;
    std::vector<std::string> dns;
    Issuer issuer = I_ROOT;
    When when = NOW;
    bool chain = true; // the intermediates (or the unknown CA) are sent too
    std::string key() const
    {
        std::string k = cn + "|";
        for (auto &d : dns)
            k += d + ",";
        return k + mc::fmt("|%d|%d|%d", issuer, when, chain);
    }
    std::string str() const
    {
        std::string k;
        for (auto &d : dns)
            k += (k.empty() ? "" : " ") + mc::printable(d);
        return mc::fmt("CN=%s SAN=[%s] issued by %s%s%s", mc::printable(cn).c_str(),
                       k.c_str(), iname[issuer],
                       when == EXPIRED  ? ", expired"
                       : when == FUTURE ? ", not yet valid"
                                        : "",
                       chain ? "" : ", sent alone");
    }
};
static void times(X509 *x, When w)
{
    const char *a = "20200101000000Z", *z = "21200101000000Z";
    if (w == EXPIRED)
        z = "20210101000000Z";
    if (w == FUTURE)
        a = "21000101000000Z";
    ASN1_TIME_set_string(X509_getm_notBefore(x), a + 0);
    ASN1_TIME_set_string(X509_getm_notAfter(x), z + 0);
}
static void ext(X509 *x, X509 *issuer, int nid, const char *v)
{
    X509V3_CTX c;
    X509V3_set_ctx_nodb(&c);
    X509V3_set_ctx(&c, issuer, x, nullptr, nullptr, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &c, nid, v);
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
}
static X509 *make(const std::string &cn, const std::vector<std::string> &dns,
                  bool ca, When w, EVP_PKEY *key, X509 *issuer, EVP_PKEY *ikey,
                  long serial)
{
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    times(x, w);
    X509_NAME *n = X509_get_subject_name(x);
    X509_NAME_add_entry_by_NID(n, NID_commonName, MBSTRING_UTF8,
                               (const unsigned char *)cn.data(), cn.size(), -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n);
    X509_set_pubkey(x, key);
    ext(x, issuer ? issuer : x, NID_basic_constraints,
        ca ? "critical,CA:TRUE" : "critical,CA:FALSE");
    if (ca) {
        ext(x, issuer ? issuer : x, NID_key_usage, "critical,keyCertSign,cRLSign");
        ext(x, issuer ? issuer : x, NID_subject_key_identifier, "hash");
    }
    if (!dns.empty()) {
        GENERAL_NAMES *g = sk_GENERAL_NAME_new_null();
        for (auto &d : dns) {
            GENERAL_NAME *e = GENERAL_NAME_new();
            ASN1_IA5STRING *s = ASN1_IA5STRING_new();
            ASN1_STRING_set(s, d.data(), d.size());
            GENERAL_NAME_set0_value(e, GEN_DNS, s);
            sk_GENERAL_NAME_push(g, e);
        }
        X509_add1_ext_i2d(x, NID_subject_alt_name, g, 0, 0);
        GENERAL_NAMES_free(g);
    }
    X509_sign(x, ikey, EVP_sha256());
    return x;
}
struct Made {
    X509 *leaf = nullptr;
    std::vector<X509 *> more;
};
struct Pki {
    EVP_PKEY *leafkey, *rootkey, *otherkey, *interkey, *ncakey;
    X509 *root, *other, *inter, *xinter, *finter, *uinter, *nonca;
    std::map<std::string, Made> made;
    std::map<std::string, SSL_CTX *> ctxs;
    Pki()
    {
        leafkey = pem_key("good.key");
        rootkey = pem_key("root.key");
        otherkey = pem_key("other.key");
        interkey = pem_key("inter.key");
        ncakey = pem_key("sub.key");
        root = pem_cert(slurp(certdir() + "root.pem"));
        other = pem_cert(slurp(certdir() + "other.pem"));
        inter = make("Int", {}, true, NOW, interkey, root, rootkey, 11);
        xinter = make("Int", {}, true, EXPIRED, interkey, root, rootkey, 12);
        finter = make("Int", {}, true, FUTURE, interkey, root, rootkey, 13);
        uinter = make("Int", {}, true, NOW, interkey, other, otherkey, 14);
        nonca = make("NonCA", {"sub.example.org"}, false, NOW, ncakey, root,
                     rootkey, 15);
    }
    const Made &get(const Spec &s)
    {
        Made &m = made[s.key()];
        if (m.leaf)
            return m;
        X509 *is = root;
        EVP_PKEY *ik = rootkey;
        switch (s.issuer) {
        case I_ROOT:
        case I_TAMPERED:
            break;
        case I_OTHER:
            is = other, ik = otherkey;
            m.more = {other};
            break;
        case I_SELF:
            is = nullptr, ik = leafkey;
            break;
        case I_INTER:
            is = inter, ik = interkey;
            m.more = {inter};
            break;
        case I_XINTER:
            is = xinter, ik = interkey;
            m.more = {xinter};
            break;
        case I_FINTER:
            is = finter, ik = interkey;
            m.more = {finter};
            break;
        case I_UINTER:
            is = uinter, ik = interkey;
            m.more = {uinter, other};
            break;
        case I_NONCA:
            is = nonca, ik = ncakey;
            m.more = {nonca};
            break;
        case I_FORGED:
            ik = otherkey;
            break;
        }
        if (!s.chain)
            m.more.clear();
        long sn = 1000 + mc::fnv(s.key()) % 100000;
        m.leaf = make(s.cn, s.dns, false, s.when, leafkey, is, ik, sn);
        if (s.issuer == I_TAMPERED) {
            const ASN1_BIT_STRING *sig;
            X509_get0_signature(&sig, nullptr, m.leaf);
            sig->data[sig->length - 1] ^= 1;
            // the cached encoding of the signed part stays valid
        }
        return m;
    }
    // version 12, 13; anon: no certificate at all
    SSL_CTX *server(const Spec &s, int version, bool anon)
    {
        SSL_CTX *&c = ctxs[s.key() + mc::fmt("/%d/%d", version, anon)];
        if (c)
            return c;
        c = SSL_CTX_new(TLS_server_method());
        SSL_CTX_set_min_proto_version(c, version == 12 ? TLS1_2_VERSION
                                                       : TLS1_3_VERSION);
        SSL_CTX_set_max_proto_version(c, version == 12 ? TLS1_2_VERSION
                                                       : TLS1_3_VERSION);
        if (anon) {
            SSL_CTX_set_security_level(c, 0);
            SSL_CTX_set_cipher_list(c, "aNULL:@SECLEVEL=0");
            SSL_CTX_set_dh_auto(c, 1);
            return c;
        }
        const Made &m = get(s);
        SSL_CTX_use_certificate(c, m.leaf);
        SSL_CTX_use_PrivateKey(c, leafkey);
        for (auto x : m.more)
            SSL_CTX_add1_chain_cert(c, x);
        SSL_CTX_set_mode(c, SSL_MODE_NO_AUTO_CHAIN);
        return c;
    }
};
static Pki &pki()
{
    static Pki *p = new Pki;
    return *p;
}
// ------------------------------------------------------------ the oracle
enum Ans { NO, MAYBE, YES };
static bool same(const std::string &a, const std::string &b)
{
    return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()) &&
           a.find('\0') == std::string::npos;
}
// does one presented identifier cover the domain?
static Ans covers(const std::string &pat, const std::string &dom)
{
    if (dom.empty())
        return NO;
    if (same(pat, dom))
        return pat[0] == '*' ? MAYBE : YES;
    std::string d = dom, p = pat;
    auto dot = [](std::string &s) {
        if (!s.empty() && s.back() == '.')
            s.pop_back();
    };
    dot(d), dot(p);
    if ((d != dom || p != pat) && same(p, d))
        return MAYBE; // a trailing dot does not change the name
    if (p.size() > 2 && p.compare(0, 2, "*.") == 0 &&
        p.find('*', 1) == std::string::npos) {
        size_t q = d.find('.');
        if (q == std::string::npos || q == 0)
            return NO; // nothing, or no label, left of the dot
        if (!same(p.substr(1), d.substr(q)))
            return NO;
        // "*.org" and the like may be refused, and so may labels in ACE form
        bool wide = p.find('.', 2) == std::string::npos;
        bool ace = !strncasecmp(d.c_str(), "xn--", 4);
        return wide || ace || d != dom || p != pat ? MAYBE : YES;
    }
    return NO;
}
static Ans names(const Spec &s, const std::string &dom)
{
    Ans r = NO;
    for (auto &d : s.dns)
        r = std::max(r, covers(d, dom));
    if (s.dns.empty()) // the common name may be used in that case
        r = std::min<Ans>(MAYBE, covers(s.cn, dom));
    return r;
}
enum Ca {
    CA_FILE,   // the root
    CA_PATH,   // the root, in a directory
    CA_SYS,    // nothing set, the system has the root
    CA_BOTH,   // file with the unknown CA, directory with the root
    CA_NONE,   // nothing set, the system has nothing
    CA_WRONG,  // file with another CA
    CA_WSYS,   // file with another CA, the system has the root
    CA_MISSING, // no such file
    NCA
};
static const char *caname[] = {"file",     "directory",      "system's",
                               "file+dir", "none",           "wrong file",
                               "wrong file, system's", "missing file"};
static Ans trusted(const Spec &s, Ca ca)
{
    bool root = ca == CA_FILE || ca == CA_PATH || ca == CA_SYS || ca == CA_BOTH;
    bool maybe = ca == CA_WSYS;
    bool other = ca == CA_WRONG || ca == CA_WSYS || ca == CA_BOTH;
    switch (s.issuer) {
    case I_ROOT:
        return root ? YES : maybe ? MAYBE : NO;
    case I_INTER:
        return !s.chain ? NO : root ? YES : maybe ? MAYBE : NO;
    case I_OTHER:
        return other ? YES : NO;
    case I_UINTER:
        return !s.chain ? NO : other ? YES : NO;
    default:
        return NO;
    }
}
enum Policy {
    P_NONE,    // no callback
    P_TRUST,   // the trust flag
    P_ACCEPT,  // the callback takes everything
    P_REJECT,
    P_FIRST,   // it takes the first one only
    P_NOTLEAF, // it takes everything but the server's own certificate
    P_LEAF,    // it takes the server's own certificate only
    P_SECOND,  // it rejects the first one only
    P_TRUSTREJ, // the trust flag and a callback that rejects
    NPOLICY
};
static const char *pname[] = {
    "no callback",        "trust flag",
    "callback accepts",   "callback rejects",
    "accepts the first",  "accepts all but the leaf",
    "accepts the leaf",   "rejects the first",
    "trust flag, callback rejects"};
enum Entry { E_STARTTLS, E_SSL, E_RAW, NENTRY };
static const char *ename[] = {"STARTTLS", "legacy SSL", "raw"};

struct Set { // what one connection attempt is made with
    Spec cert;
    Policy pol = P_NONE;
    Entry entry = E_STARTTLS;
    Ca ca = CA_FILE;
    bool mandatory = false;
    int version = 13;
    bool anon = false;
    bool offer = true; // the server offers STARTTLS
    std::string jid = "user@example.org/r", domain = "example.org";
    std::string host = "h";
    int clientcert = 0; // 1 PEM files, 2 PKCS#12, 3 encrypted key
    size_t frag = 0;
    long cut = -1, flip = -1;
    int mask = 1;
    std::string garbage; // instead of the server's TLS records
    bool eof_on_fail = true;
    bool raw_goes_on = false; // the user ignores what tls_start returned
};
struct Call {
    std::string cert;
    bool accepted;
};

struct Run;
static Run *cur;
struct Run {
    Client c;
    Server srv;
    Set s;
    std::vector<Call> calls;
    std::string leaf;
    int start_ret = 1;
    bool start_called = false, in_cb = false, secured_seen = false;
    int fd0 = -1;
    size_t note0 = 0;

    Run()
    {
        cur = this;
        srv.install();
        c.on_note = [this](const Note &n) { note(n); };
    }
    ~Run() { cur = nullptr; }
    sim::RealTls *rt()
    {
        sim::Sock *k = sim::last_sock();
        return k ? k->rt.get() : nullptr;
    }
    static int certfail(const xmpp_tlscert_t *cert, const char *msg)
    {
        Run &r = *cur;
        Call x;
        if (!msg || !*msg)
            mc::fail("callback:message", "no reason is given");
        const char *pem = xmpp_tlscert_get_pem(cert);
        X509 *y = pem ? pem_cert(pem) : nullptr;
        if (!y)
            mc::fail("callback:certificate", "no certificate is handed over");
        else
            x.cert = digest(y);
        X509_free(y);
        bool leaf = x.cert == r.leaf;
        if (xmpp_conn_is_secured(r.c.conn))
            mc::fail("secured:during-verification",
                     "is_secured in the certificate callback");
        switch (r.s.pol) {
        case P_ACCEPT:
            x.accepted = true;
            break;
        case P_FIRST:
            x.accepted = r.calls.empty();
            break;
        case P_SECOND:
            x.accepted = !r.calls.empty();
            break;
        case P_NOTLEAF:
            x.accepted = !leaf;
            break;
        case P_LEAF:
            x.accepted = leaf;
            break;
        default:
            x.accepted = false;
        }
        mc::trace("  == certfail(%s certificate, %s) -> %s",
                  leaf ? "the leaf" : "another", msg,
                  x.accepted ? "accept" : "reject");
        r.calls.push_back(x);
        return x.accepted;
    }
    bool trust() const { return s.pol == P_TRUST || s.pol == P_TRUSTREJ; }
    bool callback() const { return s.pol != P_NONE && s.pol != P_TRUST; }
    bool startable() const { return s.ca != CA_MISSING; }

    Ans chain() const { return trusted(s.cert, s.ca); }
    Ans name() const { return names(s.cert, s.domain); }
    Ans valid() const
    {
        if (s.anon || s.cert.when != NOW)
            return NO;
        return std::min(chain(), name());
    }
    bool accepted(const std::string &d) const
    {
        for (auto &x : calls)
            if (x.accepted && x.cert == d)
                return true;
        return false;
    }
    // may this session be used, given what the callback said?
    bool may(std::string &why) const
    {
        if (s.anon) {
            why = "the server has no certificate";
            return false;
        }
        if (trust())
            return true;
        if (valid() != NO)
            return true;
        if (chain() == NO)
            why += " no trust anchor;";
        if (name() == NO)
            why += " does not name " + mc::printable(s.domain) + ";";
        if (s.cert.when != NOW)
            why += " outside its validity period;";
        if (!callback()) {
            why += " no callback";
            return false;
        }
        if (calls.empty()) {
            why += " the callback was not asked";
            return false;
        }
        for (auto &x : calls)
            if (!x.accepted) {
                why += " the callback rejected it";
                return false;
            }
        if ((name() == NO || s.cert.when != NOW) && !accepted(leaf)) {
            why += " the callback was not asked about this certificate";
            return false;
        }
        if (s.cert.issuer == I_XINTER && s.cert.chain && chain() == NO &&
            s.ca <= CA_SYS && !accepted(digest(pki().xinter))) {
            why += " the callback was not asked about the expired issuer";
            return false;
        }
        if (s.cert.issuer == I_FINTER && s.cert.chain && s.ca <= CA_SYS &&
            !accepted(digest(pki().finter))) {
            why += " the callback was not asked about the issuer";
            return false;
        }
        return true;
    }
    bool disturbed() const
    {
        return s.cut >= 0 || s.flip >= 0 || !s.garbage.empty() || s.anon;
    }
    // the session has to be established
    bool must() const
    {
        if (disturbed() || !startable())
            return false;
        if (s.entry != E_RAW && !s.offer)
            return false;
        if (s.pol == P_TRUST || s.pol == P_ACCEPT)
            // what does not verify cryptographically may be refused anyway
            return s.cert.issuer != I_TAMPERED;
        return valid() == YES;
    }
    void note(const Note &n)
    {
        if (n.event == XMPP_CONN_RAW_CONNECT && s.entry == E_RAW) {
            look("RAW_CONNECT");
            start_called = true;
            start_ret = xmpp_conn_tls_start(c.conn);
            mc::trace("  == xmpp_conn_tls_start -> %d", start_ret);
            bool sec = xmpp_conn_is_secured(c.conn);
            if ((start_ret == XMPP_EOK) != sec)
                mc::fail("start:result", "xmpp_conn_tls_start returned %d and "
                                         "is_secured is %d",
                         start_ret, sec);
            look("after xmpp_conn_tls_start");
            if (start_ret == XMPP_EOK || s.raw_goes_on)
                xmpp_conn_open_stream_default(c.conn);
            if (start_ret != XMPP_EOK && s.raw_goes_on)
                xmpp_send_raw_string(c.conn, "<message to='x'/>");
            return;
        }
        look(n.name());
    }
    void look(const char *where)
    {
        bool sec = c.conn && xmpp_conn_is_secured(c.conn);
        sim::Sock *k = sim::last_sock();
        sim::RealTls *t = rt();
        if (sec) {
            secured_seen = true;
            if (!t)
                mc::fail("secured:no-tls", "is_secured at %s without a TLS "
                                           "session of this connection",
                         where);
            std::string why;
            if (t && !may(why))
                mc::fail("secured:unverified",
                         "is_secured at %s, but:%s [%s; %s; %s; CA: %s; domain %s]",
                         where, why.c_str(), s.cert.str().c_str(), pname[s.pol],
                         ename[s.entry], caname[s.ca], s.domain.c_str());
        }
        if (t && !t->app.empty()) {
            std::string why;
            if (!may(why))
                mc::fail("data:unverified",
                         "data was sent over TLS, but:%s [%s; %s; %s; CA: %s]: %s",
                         why.c_str(), s.cert.str().c_str(), pname[s.pol],
                         ename[s.entry], caname[s.ca],
                         mc::printable(t->app, 60).c_str());
        }
        if (t && k) {
            // what followed in the clear
            std::string o;
            size_t n = 0;
            for (auto &x : k->out) {
                if (x.layer == sim::CLEAR)
                    o += n + x.data.size() > k->clear_at_tls
                             ? x.data.substr(n < k->clear_at_tls
                                                 ? k->clear_at_tls - n
                                                 : 0)
                             : "";
                n += x.data.size();
            }
            if (!o.empty() && o != "</stream:stream>")
                mc::fail("clear:after-handshake",
                         "after the handshake began this was sent in the clear: %s",
                         mc::printable(o, 80).c_str());
        }
        if (k && !t && s.entry == E_SSL && k->out_total)
            mc::fail("clear:instead-of-tls",
                     "legacy SSL connection sends in the clear: %s",
                     mc::printable(k->out_since(sim::CLEAR), 60).c_str());
    }
    bool attempt(const Set &x)
    {
        s = x;
        fixed_random();
        ERR_clear_error();
        calls.clear();
        start_ret = 1;
        start_called = secured_seen = false;
        note0 = c.notes.size();
        leaf = s.anon ? "" : digest(pki().get(s.cert).leaf);
        mc::trace("attempt: %s; %s%s; %s; CA %s; TLS 1.%d; jid %s%s",
                  s.anon ? "anonymous server" : s.cert.str().c_str(),
                  pname[s.pol], s.mandatory ? ", TLS mandatory" : "",
                  ename[s.entry], caname[s.ca], s.version - 10, s.jid.c_str(),
                  s.clientcert ? "; client certificate" : "");
        sim::W->real_tls = [this](sim::Sock &k) {
            auto t = std::make_shared<sim::RealTls>();
            t->ssl = SSL_new(pki().server(s.cert, s.version, s.anon));
            SSL_set_accept_state(t->ssl);
            SSL_set_bio(t->ssl, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem()));
            BIO_set_mem_eof_return(SSL_get_rbio(t->ssl), -1);
            t->frag = s.frag;
            t->cut = s.cut;
            t->flip = s.flip;
            t->mask = s.mask;
            t->eof_on_fail = s.eof_on_fail;
            if (!s.garbage.empty()) {
                t->s2c = s.garbage;
                t->failed = true;
                k.eof = true;
            }
            return t;
        };
        sim::W->sys_ca = "";
        std::string d = certdir();
        const char *file = nullptr;
        std::string f;
        switch (s.ca) {
        case CA_FILE:
            f = d + "root.pem";
            break;
        case CA_BOTH:
        case CA_WRONG:
        case CA_WSYS:
            f = d + "other.pem";
            break;
        case CA_MISSING:
            f = d + "no-such-file.pem";
            break;
        default:
            break;
        }
        if (s.ca == CA_SYS || s.ca == CA_WSYS)
            sim::W->sys_ca = d + "root.pem";
        if (!f.empty())
            file = f.c_str();
        std::string dir = d + "hash";
        bool path = s.ca == CA_PATH || s.ca == CA_BOTH;
        if (file || used_ca)
            xmpp_conn_set_cafile(c.conn, file ? file : (d + "root.pem").c_str());
        if (path || used_path)
            xmpp_conn_set_capath(c.conn, dir.c_str());
        used_ca |= file != nullptr;
        used_path |= path;
        xmpp_conn_set_jid(c.conn, s.jid.c_str());
        xmpp_conn_set_pass(c.conn, "secret");
        xmpp_conn_set_certfail_handler(c.conn, callback() ? certfail : nullptr);
        if (s.clientcert == 1)
            xmpp_conn_set_client_cert(c.conn, (d + "client1.pem").c_str(),
                                      (d + "client1.key").c_str());
        else if (s.clientcert == 2)
            xmpp_conn_set_client_cert(c.conn, nullptr,
                                      (d + "client1.p12").c_str());
        else if (s.clientcert == 3)
            xmpp_conn_set_client_cert(c.conn, (d + "client1.pem").c_str(),
                                      (d + "client1enc.key").c_str());
        else
            xmpp_conn_set_client_cert(c.conn, nullptr, nullptr);
        if (s.clientcert >= 2)
            xmpp_conn_set_password_callback(
                c.conn,
                [](char *pw, size_t max, xmpp_conn_t *, void *) {
                    if (max < 3)
                        return -1;
                    strcpy(pw, "pw");
                    return 2;
                },
                nullptr);
        long fl = 0;
        if (trust())
            fl |= XMPP_CONN_FLAG_TRUST_TLS;
        if (s.mandatory)
            fl |= XMPP_CONN_FLAG_MANDATORY_TLS;
        if (s.entry == E_SSL)
            fl |= XMPP_CONN_FLAG_LEGACY_SSL;
        if (xmpp_conn_set_flags(c.conn, fl) != XMPP_EOK)
            mc::fail("harness:flags", "flags %ld", fl);
        srv.cfg.starttls = s.entry == E_STARTTLS && s.offer;
        srv.cfg.mechs = {"SCRAM-SHA-1"};
        srv.cfg.domain = s.domain;
        int r = s.entry == E_RAW
                    ? c.connect_raw(s.host.empty() ? nullptr : s.host.c_str(), 5222)
                    : c.connect(s.host.empty() ? nullptr : s.host.c_str(), 5222);
        if (r != XMPP_EOK) {
            mc::trace("connect returns %d", r);
            return false;
        }
        size_t seen = 0;
        for (int i = 0; i < 25; i++) {
            c.step();
            look("an iteration");
            if (c.disconnected())
                break;
            if (s.frag && rt() && rt()->arrived != seen) {
                seen = rt()->arrived; // piece by piece
                i = 0;
            }
        }
        return true;
    }
    bool used_ca = false, used_path = false;
    // the outcome of the attempt
    void check()
    {
        sim::RealTls *t = rt();
        bool connect = false, disconnect = false;
        for (size_t i = note0; i < c.notes.size(); i++) {
            connect |= c.notes[i].event == XMPP_CONN_CONNECT;
            disconnect |= c.notes[i].event == XMPP_CONN_DISCONNECT;
        }
        std::string why;
        if (t && !secured_seen) { // the handshake did not succeed
            if (connect)
                mc::fail("failed:connect-reported",
                         "XMPP_CONN_CONNECT after a failed handshake");
            if (!disconnect || !c.disconnected())
                mc::fail("failed:not-torn-down",
                         "the handshake failed and the connection was not torn "
                         "down [%s; %s; %s]",
                         s.cert.str().c_str(), pname[s.pol], ename[s.entry]);
            if (must())
                mc::fail("refused:acceptable",
                         "the handshake fails [%s; %s; %s; CA: %s; domain %s]",
                         s.cert.str().c_str(), pname[s.pol], ename[s.entry],
                         caname[s.ca], s.domain.c_str());
        }
        if (!t && must())
            mc::fail("refused:not-tried", "no handshake [%s; %s; %s; CA: %s]",
                     s.cert.str().c_str(), pname[s.pol], ename[s.entry],
                     caname[s.ca]);
        if (secured_seen && !disturbed()) {
            if (!connect && s.jid.find('@') < s.jid.find('/'))
                mc::fail("secured:no-connect", "secured but never connected");
            if (!t || t->app.empty())
                mc::fail("secured:no-data", "secured but no data over TLS");
        }
        if (!t && secured_seen)
            mc::fail("secured:no-handshake", "secured without a handshake");
        mc::state(mc::fnv(mc::fmt("%d%d%d%d%d%d%zu", s.pol, s.entry, s.ca,
                                  secured_seen, connect, disconnect,
                                  calls.size())) ^
                  mc::fnv(s.cert.key()));
    }
    void finish()
    {
        if (!c.disconnected()) {
            xmpp_disconnect(c.conn);
            if (rt())
                rt()->frag = 0;
            for (int i = 0; i < 20 && !c.disconnected(); i++) {
                c.step(100);
                look("closing");
            }
            if (!c.disconnected())
                c.run_for(4000);
        }
        if (c.conn && c.disconnected() && xmpp_conn_is_secured(c.conn) &&
            !secured_seen)
            mc::fail("secured:after", "is_secured after the end");
    }
    void whole(const Set &x)
    {
        if (attempt(x)) {
            check();
            finish();
        }
    }
};
static std::vector<Spec> catalogue()
{
    std::vector<Spec> v;
    auto add = [&](std::vector<std::string> dns, Issuer i = I_ROOT, When w = NOW,
                   bool chain = true, const char *cn = "server") {
        Spec s;
        s.dns = dns;
        s.issuer = i;
        s.when = w;
        s.chain = chain;
        s.cn = cn;
        v.push_back(s);
    };
    add({"example.org"});                          // 0 good
    add({"evil.example"});                         // 1 another name
    add({"ex*.org"});                              // 2 partial wildcard
    add({"example.org"}, I_ROOT, EXPIRED);         // 3
    add({"example.org"}, I_ROOT, FUTURE);          // 4
    add({"example.org"}, I_OTHER);                 // 5
    add({"example.org"}, I_SELF);                  // 6
    add({"*.org"});                                // 7
    add({"chat.example.org"});                     // 8
    add({"*.example.org"});                        // 9
    add({}, I_ROOT, NOW, true, "example.org");     // 10 common name only
    add({"evil.example"}, I_ROOT, NOW, true, "example.org"); // 11
    add({"evil.example", "example.org"});          // 12
    add({"example.org"}, I_INTER);                 // 13
    add({"example.org"}, I_INTER, NOW, false);     // 14
    add({"example.org"}, I_XINTER);                // 15
    add({"example.org"}, I_FINTER);                // 16
    add({"example.org"}, I_NONCA);                 // 17
    add({"example.org"}, I_UINTER);                // 18
    add({"example.org"}, I_FORGED);                // 19
    add({"example.org"}, I_TAMPERED);              // 20
    add({"example.org"}, I_OTHER, NOW, false);     // 21
    add({"evil.example"}, I_OTHER);                // 22 two failing ones
    add({"evil.example"}, I_ROOT, EXPIRED);        // 23
    add({"example.org"}, I_OTHER, EXPIRED);        // 24
    add({"evil.example"}, I_SELF, EXPIRED);        // 25
    add({"example.org"}, I_SELF, FUTURE);          // 26
    add({"evil.example"}, I_XINTER);               // 27
    add({"example.org"}, I_XINTER, EXPIRED);       // 28
    add({"evil.example"}, I_UINTER, FUTURE);       // 29
    add({std::string("example.org\0.evil.example", 25)}); // 30
    add({"EXAMPLE.ORG"});                          // 31
    return v;
}
static const std::vector<Spec> &cat()
{
    static std::vector<Spec> *v = new std::vector<Spec>(catalogue());
    return *v;
}
// every combination of certificate, policy, way of starting and trust store
static void table()
{
    sim::reset();
    Run r;
    Set s;
    s.cert = cat()[mc::choose(cat().size(), "certificate")];
    s.pol = (Policy)mc::choose(NPOLICY, "policy");
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    s.ca = (Ca)mc::choose(NCA, "trust store");
    if (mc::thorough() || s.pol == P_NONE || s.pol == P_ACCEPT)
        s.version = 12 + mc::choose(2, "TLS version");
    if (s.entry == E_STARTTLS || mc::thorough())
        s.mandatory = mc::choose(2, "TLS mandatory");
    if (s.pol == P_NONE || s.pol == P_REJECT || mc::thorough()) {
        if (s.entry == E_RAW)
            s.raw_goes_on = mc::choose(2, "the user goes on");
        else
            s.eof_on_fail = mc::choose(2, "the server goes on") == 0;
    }
    r.whole(s);
    r.c.release();
}
// how names in the certificate relate to the domain
static void patterns()
{
    sim::reset();
    static const char *doms[] = {"example.org",     "EXAMPLE.org",
                                 "a.example.org",   "a.b.example.org",
                                 "org",             "example.org.",
                                 "xn--a.example.org", "",
                                 ".example.org",    "*.example.org",
                                 "example",         "aexample.org",
                                 "192.0.2.1",       "example.org.evil.example"};
    static const char *pats[] = {
        "example.org",   "Example.Org",    "*.example.org",    "*.org",
        "*",             "a*.example.org", "*a.example.org",   "e*.org",
        "ex*le.org",     "*e.org",         "a.*.org",          "a.example.*",
        "*.*.org",       "*.*.example.org", "a.b.*.org",       "*example.org",
        "**.example.org", "evil.example",  "example.org.evil.example",
        "evil.example.org", ".example.org", "*..org",          "org",
        "*.",            "a.example.org",  "example.org.",     "*.b.example.org",
        "a.*.example.org", "xn--*.example.org", "192.0.2.1",   "",
        "example.org ",  "xexample.org",   "example.orgx",     "exampleXorg"};
    Run r;
    Set s;
    int d = mc::choose(sizeof doms / sizeof *doms, "domain");
    s.domain = doms[d];
    s.jid = "user@" + s.domain;
    const int np = sizeof pats / sizeof *pats;
    s.cert.dns = {pats[mc::choose(np, "name")]};
    int two = mc::choose(mc::thorough() ? np + 1 : 4, "second name");
    static const int few[] = {2, 7, 17}; // full, partial wildcard, unrelated
    if (two)
        s.cert.dns.push_back(pats[mc::thorough() ? two - 1 : few[two - 1]]);
    s.cert.cn = mc::choose(2, "common name") ? "example.org" : "server";
    s.entry = mc::thorough() ? (Entry)mc::choose(NENTRY, "entry") : E_SSL;
    s.version = 12 + mc::choose(2, "TLS version");
    r.whole(s);
    r.c.release();
}
// the common name stands in where there is no other
static void common()
{
    sim::reset();
    static const char *doms[] = {"example.org", "a.example.org", "", ".example.org"};
    static const char *pats[] = {"example.org", "*.example.org", "ex*.org",
                                 "a*.example.org", "evil.example", "*"};
    Run r;
    Set s;
    s.domain = doms[mc::choose(4, "domain")];
    s.jid = "user@" + s.domain;
    s.cert.cn = pats[mc::choose(6, "common name")];
    s.cert.issuer = mc::choose(2, "issuer") ? I_OTHER : I_ROOT;
    s.pol = (Policy)mc::choose(4, "policy");
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    r.whole(s);
    r.c.release();
}
// where the connection goes has no say in whom it is meant for
static void hosts()
{
    sim::reset();
    static const char *jids[] = {"user@example.org", "user@example.org/r",
                                 "example.org", "example.org/evil.example",
                                 "evil.example@example.org",
                                 "user@example.org/x@evil.example",
                                 "user@evil.example"};
    static const char *hs[] = {"evil.example", "h", "example.org", "10.1.2.3"};
    static const char *names_[] = {"example.org", "evil.example", "h", "10.1.2.3",
                                   "user", "localhost"};
    Run r;
    Set s;
    int j = mc::choose(7, "jid");
    s.jid = jids[j];
    s.domain = j == 6 ? "evil.example" : "example.org";
    s.host = hs[mc::choose(4, "host")];
    s.cert.dns = {names_[mc::choose(6, "name")]};
    s.pol = (Policy)mc::choose(4, "policy");
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    r.whole(s);
    r.c.release();
}
static Set few(int i, int version)
{
    static const int cs[] = {0, 1, 0, 5, 6, 5, 3};
    static const Policy ps[] = {P_NONE,   P_NONE,   P_ACCEPT, P_NONE,
                                P_ACCEPT, P_REJECT, P_TRUST};
    Set s;
    s.cert = cat()[cs[i]];
    s.pol = ps[i];
    s.version = version;
    return s;
}
// the records come in pieces, stop, or are damaged
static void wire()
{
    sim::reset();
    Run r;
    int what = mc::choose(3, "disturbance");
    Set s = few(mc::choose(what == 0 ? 7 : 4, "case"),
                12 + mc::choose(2, "TLS version"));
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    if (what == 0) {
        static const size_t fr[] = {1, 2, 3, 5, 6, 64, 500};
        s.frag = fr[mc::choose(7, "piece size")];
        mc::allow_secs(20);
    } else {
        int hi = mc::choose(10, "position / 100");
        int lo = mc::choose(mc::thorough() ? 100 : 50, "position");
        long at = hi * 100 + lo * (mc::thorough() ? 1 : 2);
        if (what == 1)
            s.cut = at;
        else {
            s.flip = at;
            s.mask = mc::choose(2, "mask") ? 0x80 : 1;
        }
    }
    r.whole(s);
    r.c.release();
}
// servers that do not do it properly
static void servers()
{
    sim::reset();
    static const std::string g[] = {
        std::string("\x15\x03\x03\x00\x02\x02\x28", 7), // an alert
        "<stream:error/>",
        "<?xml version='1.0'?><stream:stream xmlns='jabber:client' "
        "xmlns:stream='http://etherx.jabber.org/streams' id='x' version='1.0'>"
        "<stream:features><mechanisms xmlns='urn:ietf:params:xml:ns:xmpp-sasl'>"
        "<mechanism>PLAIN</mechanism></mechanisms></stream:features>",
        std::string("\x16\x03\x03\x40\x00", 5),
        std::string("\x17\x03\x03\x00\x01x", 6),
        std::string("\0", 1),
    };
    Run r;
    Set s;
    s.pol = (Policy)mc::choose(4, "policy");
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    s.version = 12 + mc::choose(2, "TLS version");
    s.mandatory = mc::choose(2, "TLS mandatory");
    s.eof_on_fail = mc::choose(2, "the server goes on") == 0;
    if (s.entry == E_RAW)
        s.raw_goes_on = mc::choose(2, "the user goes on");
    int w = mc::choose(8, "server");
    if (w == 0) {
        s.anon = true;
        s.version = 12;
    } else if (w == 7)
        s.cut = 0;
    else
        s.garbage = g[w - 1];
    r.whole(s);
    r.c.release();
}
// a connection object is used again with other settings
static void again()
{
    sim::reset();
    Run r;
    bool th = mc::thorough();
    for (int i = 0; i < 2; i++) {
        Set s;
        static const int cs[] = {0, 1, 5, 3, 6};
        s.cert = cat()[cs[mc::choose(th ? 5 : 3, "certificate")]];
        static const Policy ps[] = {P_NONE, P_TRUST, P_ACCEPT, P_REJECT};
        s.pol = ps[mc::choose(4, "policy")];
        static const Entry es[] = {E_STARTTLS, E_RAW, E_SSL};
        s.entry = es[mc::choose(th ? 3 : 2, "entry")];
        s.ca = (th || !i) && mc::choose(2, "trust store") ? CA_WRONG : CA_FILE;
        if (mc::choose(2, "domain")) {
            s.domain = "evil.example";
            s.jid = "user@evil.example";
        }
        if (s.entry == E_STARTTLS)
            s.offer = mc::choose(2, "STARTTLS not offered") == 0;
        r.whole(s);
        if (!r.c.disconnected())
            break;
    }
    r.c.release();
}
// several connections of one context, made and released in turn or at once
static void others()
{
    sim::reset();
    Run r;
    std::vector<xmpp_conn_t *> old;
    bool keep = mc::choose(2, "the first one is kept");
    for (int i = 0; i < 2; i++) {
        Set s;
        static const int cs[] = {0, 1, 5};
        s.cert = cat()[cs[mc::choose(3, "certificate")]];
        static const Policy ps[] = {P_NONE, P_TRUST, P_ACCEPT, P_REJECT};
        s.pol = ps[mc::choose(4, "policy")];
        s.entry = (Entry)mc::choose(NENTRY, "entry");
        s.version = 12 + mc::choose(2, "TLS version");
        r.whole(s);
        if (!r.c.disconnected())
            break;
        if (!i) {
            if (keep)
                old.push_back(r.c.conn);
            else
                xmpp_conn_release(r.c.conn);
            r.c.conn = xmpp_conn_new(r.c.ctx);
        }
    }
    for (auto o : old)
        xmpp_conn_release(o);
    r.c.release();
}
// the client has a certificate of its own
static void own()
{
    sim::reset();
    Run r;
    Set s;
    s.clientcert = 1 + mc::choose(3, "client certificate");
    bool th = mc::thorough();
    s.cert = cat()[mc::choose(th ? cat().size() : 12, "certificate")];
    s.pol = (Policy)mc::choose(th ? NPOLICY : 4, "policy");
    s.entry = (Entry)mc::choose(NENTRY, "entry");
    static const Ca ca[] = {CA_FILE, CA_NONE, CA_SYS, CA_PATH};
    s.ca = th ? (Ca)mc::choose(NCA, "trust store")
              : ca[mc::choose(4, "trust store")];
    r.whole(s);
    r.c.release();
}
void register_scenarios()
{
    mc::add("table", table, 0, 0);
    mc::add("patterns", patterns, 0, 0);
    mc::add("common", common, 0, 0);
    mc::add("hosts", hosts, 0, 0);
    mc::add("wire", wire, 0, 0);
    mc::add("servers", servers, 0, 0);
    mc::add("again", again, 0, 0);
    mc::add("others", others, 0, 0);
    mc::add("own", own, 0, 0);
}
