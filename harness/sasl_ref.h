// Independent SASL mathematics (OpenSSL primitives, RFC 5802/7677/2831/4616).
#pragma once
#include <map>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <string>

namespace ref {
std::string b64(const std::string &s);
bool unb64(const std::string &s, std::string &out);
std::string hex(const std::string &s);
std::string digest(const EVP_MD *md, const std::string &s);
std::string hmac(const EVP_MD *md, const std::string &k, const std::string &t);
std::string pbkdf2(const EVP_MD *md, const std::string &pw,
                   const std::string &salt, int i);
const EVP_MD *scram_md(const std::string &mech); // null if not a SCRAM name
std::string scram_proof(const EVP_MD *md, const std::string &salted,
                        const std::string &auth);
std::string scram_server_sig(const EVP_MD *md, const std::string &salted,
                             const std::string &auth);
std::string xor_(const std::string &a, const std::string &b);
// attr=value,attr="value" list (RFC 2831); false if malformed
bool md5_parse(const std::string &s, std::map<std::string, std::string> &m);
std::string md5_response(const std::map<std::string, std::string> &m,
                         const std::string &user, const std::string &realm,
                         const std::string &pass, const std::string &nonce,
                         const std::string &cnonce, const std::string &nc,
                         const std::string &qop, const std::string &uri,
                         const std::string &authzid, bool server);
} // namespace ref
