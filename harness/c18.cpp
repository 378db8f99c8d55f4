// C18: base64 codec, bounded-exhaustive against an independent RFC 4648 codec.
#include "fast.h"
#include "sim.h"

static const char AL[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ref_enc(const unsigned char *d, size_t n)
{
    std::string r;
    unsigned long acc = 0;
    int bits = 0;
    for (size_t i = 0; i < n; i++) {
        acc = (acc << 8) | d[i];
        bits += 8;
        while (bits >= 6) {
            bits -= 6;
            r += AL[(acc >> bits) & 63];
        }
        acc &= (1ul << bits) - 1;
    }
    if (bits)
        r += AL[(acc << (6 - bits)) & 63];
    while (r.size() % 4)
        r += '=';
    return r;
}
static int val(unsigned char c)
{
    if (c >= 'A' && c <= 'Z')
        return c - 'A';
    if (c >= 'a' && c <= 'z')
        return c - 'a' + 26;
    if (c >= '0' && c <= '9')
        return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
// 1: valid, 0: invalid, 2: valid but with non-zero pad bits (either verdict)
static int ref_dec(const char *s, size_t n, std::string &out)
{
    out.clear();
    if (n % 4)
        return 0;
    size_t body = n;
    int pad = 0;
    while (pad < 2 && body > 0 && s[body - 1] == '=') {
        body--;
        pad++;
    }
    unsigned long acc = 0;
    int bits = 0;
    for (size_t i = 0; i < body; i++) {
        int v = val(s[i]);
        if (v < 0)
            return 0;
        acc = (acc << 6) | v;
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            out += (char)((acc >> bits) & 255);
            acc &= (1ul << bits) - 1;
        }
    }
    if (body % 4 == 1)
        return 0;
    return acc ? 2 : 1;
}

static FastCtx *F;
static FastCtx &F_()
{
    if (!F)
        F = new FastCtx;
    return *F;
}

static void check_enc(const unsigned char *d, size_t n)
{
    FastCtx &f = F_();
    std::string want = ref_enc(d, n);
    char *e = xmpp_base64_encode(f.ctx, d, n);
    if (!e || want != e) {
        mc::fail("b64:encode", "encode(%s) = %s, want %s",
                 mc::printable(std::string((char *)d, n)).c_str(),
                 e ? mc::printable(e).c_str() : "NULL", want.c_str());
    }
    if (e)
        xmpp_free(f.ctx, e);
    unsigned char *o = (unsigned char *)1;
    size_t ol = 77;
    xmpp_base64_decode_bin(f.ctx, want.data(), want.size(), &o, &ol);
    if (n && (!o || ol != n || memcmp(o, d, n)))
        mc::fail("b64:roundtrip", "decode_bin(%s) does not give back the %zu bytes",
                 want.c_str(), n);
    if (!n && ol != 0)
        mc::fail("b64:roundtrip", "decode_bin(\"\") reports length %zu", ol);
    if (o)
        xmpp_free(f.ctx, o);
}

static bool lax_seen, strict_seen;
static void check_dec(const char *s, size_t n)
{
    FastCtx &f = F_();
    std::string want, got[2];
    int v = ref_dec(s, n, want);
    bool acc[2];
    for (int k = 0; k < 2; k++) {
        f.a.fill = k ? 0x5A : 0xA5;
        unsigned char *o = (unsigned char *)1;
        size_t ol = 77;
        xmpp_base64_decode_bin(f.ctx, s, n, &o, &ol);
        acc[k] = o != nullptr;
        if (!o && ol != 0)
            mc::fail("b64:outlen", "decode_bin(%s) fails but reports length %zu",
                     mc::printable(std::string(s, n)).c_str(), ol);
        if (o) {
            got[k].assign((char *)o, ol);
            xmpp_free(f.ctx, o);
        }
    }
    if (acc[0] != acc[1] || got[0] != got[1]) {
        mc::fail("b64:uninitialised",
                 "decode_bin(%s) returns uninitialised memory",
                 mc::printable(std::string(s, n)).c_str());
        return;
    }
    if (n == 0) {
        // the empty value: NULL with length 0 and "" are both the empty string
    } else if (v == 0 && acc[0]) {
        mc::fail("b64:accepts-invalid", "decode_bin accepts %s and returns %s",
                 mc::printable(std::string(s, n)).c_str(),
                 mc::printable(got[0]).c_str());
    } else if (v == 1 && !acc[0]) {
        mc::fail("b64:rejects-valid", "decode_bin rejects %s",
                 mc::printable(std::string(s, n)).c_str());
    } else if (acc[0] && got[0] != want) {
        mc::fail("b64:value", "decode_bin(%s) = %s (%zu), want %s (%zu)",
                 mc::printable(std::string(s, n)).c_str(),
                 mc::printable(got[0]).c_str(), got[0].size(),
                 mc::printable(want).c_str(), want.size());
    }
    f.a.fill = 0xA5;
    char *d = xmpp_base64_decode_str(f.ctx, s, n);
    bool nul = want.find('\0') != std::string::npos;
    if (v == 0 && d)
        mc::fail("b64:str-accepts-invalid", "decode_str accepts %s",
                 mc::printable(std::string(s, n)).c_str());
    else if (d && nul)
        mc::fail("b64:str-nul", "decode_str returns a value containing NUL for %s",
                 mc::printable(std::string(s, n)).c_str());
    else if (v == 1 && !nul && !d)
        mc::fail("b64:str-rejects-valid", "decode_str rejects %s",
                 mc::printable(std::string(s, n)).c_str());
    else if (d && want != d)
        mc::fail("b64:str-value", "decode_str(%s) = %s",
                 mc::printable(std::string(s, n)).c_str(),
                 mc::printable(d).c_str());
    if (d)
        xmpp_free(f.ctx, d);
}

// all strings over `al` of length n; the first symbols come from choose() so
// that the work is spread over the workers
static void each(const std::string &al, size_t n, size_t outer,
                 void (*cb)(const char *, size_t))
{
    char *b = (char *)malloc(n ? n : 1); // exact size: over-reads are caught
    if (outer > n)
        outer = n;
    for (size_t i = 0; i < outer; i++)
        b[i] = al[mc::choose((int)al.size(), "symbol")];
    std::vector<size_t> ix(n, 0);
    for (size_t i = outer; i < n; i++)
        b[i] = al[0];
    uint64_t c = 0;
    uint64_t h = 0;
    while (1) {
        cb(b, n);
        c++;
        h = mc::fnv(b, n, h ^ 1469598103934665603ull);
        size_t k = n;
        while (k > outer) {
            k--;
            if (++ix[k] < al.size()) {
                b[k] = al[ix[k]];
                break;
            }
            ix[k] = 0;
            b[k] = al[0];
            if (k == outer)
                goto done;
        }
        if (n == outer)
            break;
    }
done:
    mc::evaluated(c);
    mc::step(c);
    mc::state(h);
    mc::sample(mc::fmt("len%zu over %zu symbols, last %s", n, al.size(),
                       mc::printable(std::string(b, n)).c_str()));
    free(b);
    if (F && F->a.live != 0) {
        static long base = F->a.live;
        if (F->a.live > base)
            mc::fail("b64:leak", "%ld blocks leaked", F->a.live - base);
    }
}
static void enc_cb(const char *b, size_t n)
{
    check_enc((const unsigned char *)b, n);
}

static std::string all256()
{
    std::string r;
    for (int i = 0; i < 256; i++)
        r += (char)i;
    return r.substr(0, 250) + r.substr(250);
}

void register_scenarios()
{
    static std::string full = all256();
    for (int n = 0; n <= 2; n++)
        mc::add(mc::fmt("encode-all-%d", n), [n] { each(full, n, 0, enc_cb); }, 0);
    mc::add("encode-all-3", [] {
        // 256^3 = every three byte group
        int a = mc::choose(128, "hi");
        unsigned char *b = (unsigned char *)malloc(3);
        int step = mc::thorough() ? 1 : 5;
        uint64_t c = 0;
        for (int lo = 0; lo < 2; lo++)
            for (int x = 0; x < 256; x++)
                for (int y = 0; y < 256; y += step) {
                    b[0] = a * 2 + lo;
                    b[1] = x;
                    b[2] = y;
                    check_enc(b, 3);
                    c++;
                }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(b, 3) + a);
        free(b);
    }, 0);
    static std::string e5("\x00\x01\x7f\x80\xff\xfb", 6);
    for (int n = 4; n <= 7; n++)
        mc::add(mc::fmt("encode-len%d", n), [n] { each(e5, n, 2, enc_cb); }, 0);
    mc::add("encode-long", [] {
        int n = mc::choose(200, "length") + 5;
        int k = mc::choose(4, "pattern");
        std::string s;
        for (int i = 0; i < n; i++)
            s += (char)(k == 0 ? 0 : k == 1 ? 255 : k == 2 ? i * 7 : i * 131 + n);
        Exact x(s);
        check_enc((unsigned char *)x.p, n);
        std::string e = ref_enc((unsigned char *)x.p, n);
        Exact y(e);
        check_dec(y.p, y.n);
        // damage one character at a time
        for (size_t i = 0; i < e.size(); i++)
            for (char c : std::string("=-\n\x80\0A", 6)) {
                std::string z = e;
                z[i] = c;
                Exact w(z);
                check_dec(w.p, w.n);
                mc::evaluated(1);
            }
        for (size_t i = 0; i < e.size(); i++) {
            Exact w(e.substr(0, i)), w2(e.substr(i));
            check_dec(w.p, w.n);
            check_dec(w2.p, w2.n);
        }
        mc::step(e.size() * 8);
        mc::state(mc::fnv(s));
    }, 0);
    // decoding: every text of up to three arbitrary bytes (never valid) ...
    for (int n = 0; n <= 2; n++)
        mc::add(mc::fmt("decode-any-%d", n),
                [n] { each(full, n, 0, check_dec); }, 0);
    // ... every quartet over the alphabet, '=' and three foreign bytes
    static std::string q = std::string(AL) + "=" + std::string("\0-\xff", 3);
    mc::add("decode-quartets", [] {
        if (mc::thorough())
            each(q, 4, 2, check_dec);
        else {
            // quick: a third of the alphabet, all pad-relevant values
            static std::string q2 =
                std::string("ABCDEIQRghvwxyz0456789+/") + "=" +
                std::string("\0-\xff", 3);
            each(q2, 4, 1, check_dec);
        }
    }, 0);
    // every single byte value at every position of valid groups
    mc::add("decode-foreign", [] {
        static const char *base[] = {"AAAA", "Zm9v", "Zm8=", "Zg==",
                                     "////Zg==", "AAAAAAAA", "Zm9vYmE="};
        std::string s = base[mc::choose(7, "base")];
        for (size_t i = 0; i < s.size(); i++)
            for (int c = 0; c < 256; c++) {
                std::string z = s;
                z[i] = (char)c;
                Exact w(z);
                check_dec(w.p, w.n);
            }
        mc::evaluated(s.size() * 256);
        mc::step(s.size() * 256);
        mc::state(mc::fnv(s));
    }, 0);
    static std::string d6("AQ/=!\0", 6);
    for (int n = 3; n <= 9; n++)
        mc::add(mc::fmt("decode-len%d", n), [n] {
            each(n < 9 ? d6 : d6.substr(0, mc::thorough() ? 6 : 4), n, 2, check_dec);
        }, 0);
    static std::string d4("AB=-", 4);
    mc::add("decode-len12", [] { each(mc::thorough() ? d4 : d4.substr(0, 3), 12, 3, check_dec); }, 0);
}
