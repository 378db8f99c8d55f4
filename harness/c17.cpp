// C17: digests against OpenSSL for every length and every split.
#include "fast.h"
#include "sim.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/mman.h>
extern "C" {
#include "md5.h"
#include "scram.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
}

struct Algo {
    const char *name;
    size_t dlen;
    const EVP_MD *(*evp)();
};
static const Algo ALG[] = {{"sha1", 20, EVP_sha1},
                           {"sha256", 32, EVP_sha256},
                           {"sha512", 64, EVP_sha512},
                           {"md5", 16, EVP_md5},
                           {"xmpp_sha1", 20, EVP_sha1}};
enum { SHA1, SHA256, SHA512, MD5, XSHA1, NALG };

static FastCtx *F;
static FastCtx &fx()
{
    if (!F)
        F = new FastCtx;
    return *F;
}

struct Hash {
    int a;
    SHA1_CTX s1;
    sha256_context s2;
    sha512_context s5;
    MD5Context m;
    xmpp_sha1_t *x = nullptr;
    explicit Hash(int a_) : a(a_)
    {
        memset(&s1, 0xA5, sizeof s1);
        memset(&s2, 0xA5, sizeof s2);
        memset(&s5, 0xA5, sizeof s5);
        memset(&m, 0xA5, sizeof m);
        switch (a) {
        case SHA1: crypto_SHA1_Init(&s1); break;
        case SHA256: sha256_init(&s2); break;
        case SHA512: sha512_init(&s5); break;
        case MD5: MD5Init(&m); break;
        case XSHA1: x = xmpp_sha1_new(fx().ctx); break;
        }
    }
    void up(const unsigned char *d, size_t n)
    {
        switch (a) {
        case SHA1: crypto_SHA1_Update(&s1, d, n); break;
        case SHA256: sha256_process(&s2, d, n); break;
        case SHA512: sha512_process(&s5, d, n); break;
        case MD5: MD5Update(&m, d, n); break;
        case XSHA1: xmpp_sha1_update(x, d, n); break;
        }
    }
    std::string fin()
    {
        unsigned char o[64 + 8];
        memset(o, 0xEE, sizeof o);
        switch (a) {
        case SHA1: crypto_SHA1_Final(&s1, o); break;
        case SHA256: sha256_done(&s2, o); break;
        case SHA512: sha512_done(&s5, o); break;
        case MD5: MD5Final(o, &m); break;
        case XSHA1: {
            xmpp_sha1_final(x);
            xmpp_sha1_to_digest(x, o);
            std::string hex;
            for (int i = 0; i < 20; i++)
                hex += mc::fmt("%02x", o[i]);
            char *s = xmpp_sha1_to_string_alloc(x);
            if (!s || hex != s)
                mc::fail("sha1-api:string", "to_string_alloc %s, digest %s",
                         s ? s : "NULL", hex.c_str());
            xmpp_free(fx().ctx, s);
            char b[48];
            memset(b, 'Z', sizeof b);
            if (!xmpp_sha1_to_string(x, b, 41) || hex != b || b[41] != 'Z')
                mc::fail("sha1-api:string", "to_string gives %.41s", b);
            memset(b, 'Z', sizeof b);
            if (xmpp_sha1_to_string(x, b, 40) || b[40] != 'Z')
                mc::fail("sha1-api:string", "to_string accepts a 40 byte buffer");
            xmpp_sha1_free(x);
            break;
        }
        }
        for (size_t i = ALG[a].dlen; i < sizeof o; i++)
            if (o[i] != 0xEE)
                mc::fail("digest:overrun", "%s writes past its digest",
                         ALG[a].name);
        return std::string((char *)o, ALG[a].dlen);
    }
};

static std::string ref(int a, const unsigned char *d, size_t n)
{
    unsigned char o[64];
    unsigned l = 0;
    static EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, ALG[a].evp(), nullptr);
    EVP_DigestUpdate(c, d, n);
    EVP_DigestFinal_ex(c, o, &l);
    return std::string((char *)o, l);
}
static std::string hex(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
        r += mc::fmt("%02x", c);
    return r;
}
static void fill(std::string &s, size_t n, int pat)
{
    s.resize(n);
    uint32_t x = 12345 + n * 7 + pat;
    for (size_t i = 0; i < n; i++) {
        x = x * 1664525 + 1013904223;
        s[i] = pat == 0 ? 0 : pat == 1 ? (char)0xff : (char)(x >> 24);
    }
}
static void cmp(int a, const std::string &got, const std::string &want,
                const char *how, size_t n)
{
    if (got != want)
        mc::fail(mc::fmt("digest:%s", ALG[a].name),
                 "%s of a %zu byte message %s: %s, standard says %s",
                 ALG[a].name, n, how, hex(got).c_str(), hex(want).c_str());
}

// one length: at once, all two-way splits, uniform steps
static void lengths(int a, size_t n, int pat)
{
    std::string m;
    fill(m, n, pat);
    std::string want = ref(a, (unsigned char *)m.data(), n);
    Exact x(m);
    const unsigned char *d = (unsigned char *)x.p;
    uint64_t c = 0;
    {
        Hash h(a);
        h.up(d, n);
        cmp(a, h.fin(), want, "in one update", n);
        c++;
    }
    if (a == XSHA1) {
        unsigned char o[21];
        o[20] = 0xEE;
        xmpp_sha1_digest(d, n, o);
        cmp(a, std::string((char *)o, 20), want, "by xmpp_sha1_digest", n);
        char *s = xmpp_sha1(fx().ctx, d, n);
        if (!s || hex(want) != s)
            mc::fail("digest:xmpp_sha1", "xmpp_sha1() of %zu bytes: %s", n,
                     s ? s : "NULL");
        xmpp_free(fx().ctx, s);
    } else {
        unsigned char o[64];
        if (a == SHA1)
            crypto_SHA1(d, n, o);
        else if (a == SHA256)
            sha256_hash(d, n, o);
        else if (a == SHA512)
            sha512_hash(d, n, o);
        if (a != MD5)
            cmp(a, std::string((char *)o, ALG[a].dlen), want,
                "by the one-call function", n);
    }
    for (size_t i = 0; i <= n; i++) {
        Hash h(a);
        h.up(d, i);
        h.up(d + i, n - i);
        cmp(a, h.fin(), want, mc::fmt("split at %zu", i).c_str(), n);
        c++;
    }
    if (mc::thorough() || n <= 300)
    for (size_t st = 1; st <= 140 && st <= n; st += n > 300 ? 7 : 1) {
        Hash h(a);
        for (size_t i = 0; i < n; i += st)
            h.up(d + i, std::min(st, n - i));
        h.up(d, 0);
        cmp(a, h.fin(), want, mc::fmt("%zu bytes at a time", st).c_str(), n);
        c++;
    }
    if (memcmp(d, m.data(), n))
        mc::fail("digest:input", "%s modifies its input", ALG[a].name);
    mc::evaluated(c);
    mc::step(c);
    mc::state(mc::fnv(want) + n);
}
// all three-way splits
static void three(int a, size_t n)
{
    std::string m;
    fill(m, n, 2);
    std::string want = ref(a, (unsigned char *)m.data(), n);
    Exact x(m);
    const unsigned char *d = (unsigned char *)x.p;
    uint64_t c = 0;
    for (size_t i = 0; i <= n; i++)
        for (size_t j = i; j <= n; j++) {
            Hash h(a);
            h.up(d, i);
            h.up(d + i, j - i);
            h.up(d + j, n - j);
            std::string g = h.fin();
            c++;
            if (g != want)
                cmp(a, g, want, mc::fmt("split at %zu,%zu", i, j).c_str(), n);
        }
    mc::evaluated(c);
    mc::step(c);
    mc::state(mc::fnv(want) * 31 + n);
}

static void huge(int a, size_t n, size_t chunk)
{
    // zero pages: no memory is used
    mc::allow_secs(n >> 32 ? 300 : 60);
    unsigned char *z = (unsigned char *)mmap(
        nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1,
        0);
    if (z == MAP_FAILED)
        return;
    std::string want = ref(a, z, n);
    Hash h(a);
    if (chunk)
        for (size_t i = 0; i < n; i += chunk)
            h.up(z + i, std::min(chunk, n - i));
    else
        h.up(z, n);
    cmp(a, h.fin(), want, chunk ? "in large chunks" : "at once", n);
    munmap(z, n);
    mc::evaluated(1);
    mc::step(n >> 20);
    mc::state(mc::fnv(want));
}

static const hash_alg *find_alg(const char *n)
{
    for (size_t i = 0; i < scram_algs_num; i++)
        if (!strcmp(scram_algs[i]->scram_name, n))
            return scram_algs[i];
    return nullptr;
}
static std::string hmac(const EVP_MD *md, const std::string &k,
                        const std::string &t)
{
    unsigned char o[64];
    unsigned l = 0;
    HMAC(md, k.data(), k.size(), (unsigned char *)t.data(), t.size(), o, &l);
    return std::string((char *)o, l);
}
static void hmacs()
{
    static const char *names[] = {"SCRAM-SHA-1",        "SCRAM-SHA-256",
                                  "SCRAM-SHA-512",      "SCRAM-SHA-1-PLUS",
                                  "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"};
    int w = mc::choose(6, "alg");
    const hash_alg *al = find_alg(names[w]);
    if (!al) {
        mc::fail("hmac:missing", "%s is not implemented", names[w]);
        return;
    }
    const EVP_MD *md = ALG[w % 3].evp();
    size_t dl = ALG[w % 3].dlen;
    int mode = mc::choose(3, "mode");
    uint64_t c = 0;
    if (mode == 0) {
        // HMAC key = password, every length over two block sizes
        for (size_t kl = 0; kl <= 300; kl++)
            for (size_t sl : {0, 1, 8, 59, 60, 100, 124}) {
                std::string pw, salt;
                fill(pw, kl, 2);
                fill(salt, sl, 2);
                Exact xp(pw), xs(salt);
                for (uint32_t it = 1; it <= (kl % 16 == 0 ? 5 : 2); it++) {
                    unsigned char got[64 + 4], sp[64];
                    memset(got, 0xEE, sizeof got);
                    SCRAM_ClientKey(al, (uint8_t *)xp.p, kl, (uint8_t *)xs.p,
                                    sl, it, got);
                    PKCS5_PBKDF2_HMAC(pw.data(), kl, (unsigned char *)salt.data(),
                                      sl, it, md, dl, sp);
                    std::string want =
                        hmac(md, std::string((char *)sp, dl), "Client Key");
                    if (want != std::string((char *)got, dl))
                        mc::fail("hmac:value",
                                 "%s: HMAC with a %zu byte key, %zu byte text, "
                                 "%u rounds differs from RFC 2104",
                                 names[w], kl, sl + 4, it);
                    for (size_t i = dl; i < sizeof got; i++)
                        if (got[i] != 0xEE)
                            mc::fail("hmac:overrun", "%s", names[w]);
                    c++;
                }
            }
    } else if (mode == 1) {
        for (size_t tl = 0; tl <= 600; tl++) {
            std::string k, t;
            fill(k, dl, 2);
            fill(t, tl, 2);
            Exact xk(k), xt(t);
            unsigned char got[64];
            SCRAM_ClientSignature(al, (uint8_t *)xk.p, (uint8_t *)xt.p, tl, got);
            std::string want =
                hmac(md, ref(w % 3, (unsigned char *)k.data(), dl), t);
            if (want != std::string((char *)got, dl))
                mc::fail("hmac:value", "%s: HMAC of a %zu byte text", names[w],
                         tl);
            c++;
        }
    } else {
        std::string k, s;
        fill(k, dl, 2);
        fill(s, dl, 1);
        unsigned char got[64];
        SCRAM_ClientProof(al, (uint8_t *)k.data(), (uint8_t *)s.data(), got);
        for (size_t i = 0; i < dl; i++)
            if (got[i] != (unsigned char)(k[i] ^ s[i]))
                mc::fail("hmac:proof", "%s proof", names[w]);
        c++;
    }
    mc::evaluated(c);
    mc::step(c);
    mc::state(w * 3 + mode + 1);
}

void register_scenarios()
{
    for (int a = 0; a < NALG; a++) {
        mc::add(mc::fmt("%s-lengths", ALG[a].name), [a] {
            int top = mc::thorough() ? 1100 : 420;
            int hi = mc::choose(top / 10, "length/10");
            for (int k = 0; k < 10; k++)
                for (int p = 0; p < 3; p++)
                    lengths(a, hi * 10 + k, p);
            mc::sample(mc::fmt("%s lengths %d..%d", ALG[a].name, hi * 10,
                               hi * 10 + 9));
        }, 0);
        mc::add(mc::fmt("%s-three-way", ALG[a].name), [a] {
            static const int q[] = {1, 63, 64, 65, 119, 120, 128, 129, 137};
            if (mc::thorough())
                three(a, mc::choose(250, "length") + 1);
            else
                three(a, q[mc::choose(9, "length")]);
        }, 0);
        if (a != XSHA1)
            mc::add(mc::fmt("%s-huge", ALG[a].name), [a] {
                // the 32 bit length counters carry at 2^29 bytes (2^32 bits)
                int m = mc::choose(a == SHA1 || a == MD5 ? 2 : 1, "how");
                size_t n = ((size_t)1 << 29) + 77;
                if (m == 0)
                    huge(a, n, 1000003);
                else
                    huge(a, n, 0);
            }, 0);
        if (mc::thorough() && a != XSHA1)
            mc::add(mc::fmt("%s-over-4GiB", ALG[a].name), [a] {
                size_t n = ((size_t)1 << 32) + 77;
                if (a == MD5) // takes a 32 bit length
                    huge(a, n, 1 << 30);
                else
                    huge(a, n, mc::choose(2) ? 0 : (1 << 30) + 1);
            }, 0);
    }
    mc::add("hmac", hmacs, 0);
}
