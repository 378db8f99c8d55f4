#include "sasl_ref.h"
#include <cstdio>
#include <cstring>
namespace ref {
static const char AL[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string &s)
{
    std::string r;
    size_t i = 0;
    for (; i + 2 < s.size(); i += 3) {
        unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 |
                     (unsigned char)s[i + 2];
        for (int k = 18; k >= 0; k -= 6)
            r += AL[v >> k & 63];
    }
    if (s.size() - i == 1) {
        unsigned v = (unsigned char)s[i] << 16;
        r += AL[v >> 18 & 63];
        r += AL[v >> 12 & 63];
        r += "==";
    } else if (s.size() - i == 2) {
        unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8;
        r += AL[v >> 18 & 63];
        r += AL[v >> 12 & 63];
        r += AL[v >> 6 & 63];
        r += "=";
    }
    return r;
}
bool unb64(const std::string &s, std::string &out)
{
    out.clear();
    if (s.size() % 4)
        return false;
    unsigned acc = 0;
    int bits = 0;
    size_t n = s.size();
    int pad = 0;
    while (n && pad < 2 && s[n - 1] == '=') {
        n--;
        pad++;
    }
    for (size_t i = 0; i < n; i++) {
        const char *p = s[i] ? strchr(AL, s[i]) : nullptr;
        if (!p)
            return false;
        acc = acc << 6 | (p - AL);
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            out += (char)(acc >> bits);
            acc &= (1u << bits) - 1;
        }
    }
    return n % 4 != 1;
}
std::string hex(const std::string &s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) {
        snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r;
}
std::string digest(const EVP_MD *md, const std::string &s)
{
    unsigned char o[64];
    unsigned l = 0;
    EVP_Digest(s.data(), s.size(), o, &l, md, nullptr);
    return std::string((char *)o, l);
}
std::string hmac(const EVP_MD *md, const std::string &k, const std::string &t)
{
    unsigned char o[64];
    unsigned l = 0;
    HMAC(md, k.data(), k.size(), (const unsigned char *)t.data(), t.size(), o, &l);
    return std::string((char *)o, l);
}
std::string pbkdf2(const EVP_MD *md, const std::string &pw,
                   const std::string &salt, int i)
{
    unsigned char o[64];
    int n = EVP_MD_get_size(md);
    PKCS5_PBKDF2_HMAC(pw.data(), pw.size(), (const unsigned char *)salt.data(),
                      salt.size(), i, md, n, o);
    return std::string((char *)o, n);
}
const EVP_MD *scram_md(const std::string &m)
{
    if (m == "SCRAM-SHA-1" || m == "SCRAM-SHA-1-PLUS")
        return EVP_sha1();
    if (m == "SCRAM-SHA-256" || m == "SCRAM-SHA-256-PLUS")
        return EVP_sha256();
    if (m == "SCRAM-SHA-512" || m == "SCRAM-SHA-512-PLUS")
        return EVP_sha512();
    return nullptr;
}
std::string xor_(const std::string &a, const std::string &b)
{
    std::string r = a;
    for (size_t i = 0; i < r.size() && i < b.size(); i++)
        r[i] ^= b[i];
    return r;
}
std::string scram_proof(const EVP_MD *md, const std::string &salted,
                        const std::string &auth)
{
    std::string ck = hmac(md, salted, "Client Key");
    return xor_(ck, hmac(md, digest(md, ck), auth));
}
std::string scram_server_sig(const EVP_MD *md, const std::string &salted,
                             const std::string &auth)
{
    return hmac(md, hmac(md, salted, "Server Key"), auth);
}
bool md5_parse(const std::string &s, std::map<std::string, std::string> &m)
{
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && (s[i] == ',' || s[i] == ' '))
            i++;
        size_t e = s.find('=', i);
        if (e == std::string::npos)
            return i >= s.size();
        std::string k = s.substr(i, e - i), v;
        i = e + 1;
        if (i < s.size() && s[i] == '"') {
            i++;
            while (i < s.size() && s[i] != '"') {
                if (s[i] == '\\' && i + 1 < s.size())
                    i++;
                v += s[i++];
            }
            if (i >= s.size())
                return false;
            i++;
        } else {
            while (i < s.size() && s[i] != ',')
                v += s[i++];
        }
        if (m.count(k))
            return false;
        m[k] = v;
        if (i < s.size() && s[i] != ',')
            return false;
    }
    return true;
}
std::string md5_response(const std::map<std::string, std::string> &,
                         const std::string &user, const std::string &realm,
                         const std::string &pass, const std::string &nonce,
                         const std::string &cnonce, const std::string &nc,
                         const std::string &qop, const std::string &uri,
                         const std::string &authzid, bool server)
{
    const EVP_MD *md = EVP_md5();
    std::string a1 = digest(md, user + ":" + realm + ":" + pass) + ":" + nonce +
                     ":" + cnonce;
    if (!authzid.empty())
        a1 += ":" + authzid;
    std::string a2 = (server ? ":" : "AUTHENTICATE:") + uri;
    if (qop == "auth-int" || qop == "auth-conf")
        a2 += ":00000000000000000000000000000000";
    return hex(digest(md, hex(digest(md, a1)) + ":" + nonce + ":" + nc + ":" +
                              cnonce + ":" + qop + ":" + hex(digest(md, a2))));
}
} // namespace ref
