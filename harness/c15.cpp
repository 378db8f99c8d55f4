// C15: DNS SRV decoding: structured well-formed responses, and all small
// damage (truncations, byte changes, pairs of changes) of them.
#include "fast.h"
#include "sim.h"
#include <algorithm>
extern "C" {
#include "resolver.h"
}

static FastCtx *F;
static FastCtx &fx()
{
    if (!F)
        F = new FastCtx;
    return *F;
}
struct Rec {
    int prio, weight, port;
    std::string target;
    bool operator<(const Rec &o) const
    {
        if (prio != o.prio)
            return prio < o.prio;
        if (weight != o.weight)
            return weight > o.weight;
        if (port != o.port)
            return port < o.port;
        return target < o.target;
    }
    bool operator==(const Rec &o) const
    {
        return prio == o.prio && weight == o.weight && port == o.port &&
               target == o.target;
    }
    std::string str() const
    {
        return mc::fmt("%d %d %d %s", prio, weight, port,
                       mc::printable(target, 260).c_str());
    }
};

// ------------------------------------------------- strict reference decoder
struct Ref {
    const std::string &p;
    bool odd = false;   // c-ares may refuse it
    bool chars = false; // unusual characters in a label
    explicit Ref(const std::string &s) : p(s) {}
    int u8(size_t o) { return o < p.size() ? (unsigned char)p[o] : -1; }
    int u16(size_t o)
    {
        return o + 1 < p.size() ? u8(o) << 8 | u8(o + 1) : -1;
    }
    // returns bytes used at o, 0 on error; wire counts the expanded length
    size_t name(size_t o, std::string &out, size_t &wire)
    {
        size_t i = o;
        while (1) {
            int l = u8(i);
            if (l < 0)
                return 0;
            i++;
            if (l == 0) {
                wire += 1;
                return wire <= 255 ? i - o : 0;
            }
            if (l < 64) {
                if (i + l > p.size())
                    return 0;
                for (int k = 0; k < l; k++) {
                    unsigned char c = p[i + k];
                    if (!(isalnum(c) || c == '-' || c == '_'))
                        chars = odd = true;
                }
                if (!out.empty())
                    out += '.';
                out.append(p, i, l);
                i += l;
                wire += l + 1;
                if (wire > 255)
                    return 0;
            } else if (l >= 192) {
                int b = u8(i);
                if (b < 0)
                    return 0;
                i++;
                size_t t = (l & 63) << 8 | b;
                if (t >= o || t < 12)
                    return 0;
                std::string rest;
                if (!name(t, rest, wire))
                    return 0;
                if (!rest.empty()) {
                    if (!out.empty())
                        out += '.';
                    out += rest;
                }
                return i - o;
            } else
                return 0;
        }
    }
    // -1: not a well-formed successful response (or ambiguous)
    int decode(std::vector<Rec> &r)
    {
        if (p.size() < 12)
            return -1;
        if (!(u8(2) & 0x80) || (u8(3) & 15) || (u8(2) & 0x78) || (u8(2) & 2))
            return -1;
        int n[4] = {u16(4), u16(6), u16(8), u16(10)};
        if (n[0] != 1)
            odd = true; // c-ares wants exactly one question
        size_t o = 12;
        for (int i = 0; i < n[0]; i++) {
            std::string s;
            size_t w = 0, l = name(o, s, w);
            if (!l)
                return -1;
            o += l + 4;
            if (o > p.size())
                return -1;
            if (u16(o - 4) != 33 || u16(o - 2) != 1)
                odd = true;
        }
        for (int sec = 1; sec < 4; sec++)
            for (int i = 0; i < n[sec]; i++) {
                std::string s;
                size_t w = 0, l = name(o, s, w);
                if (!l)
                    return -1;
                o += l;
                if (o + 10 > p.size())
                    return -1;
                int type = u16(o), cls = u16(o + 2), rdl = u16(o + 8);
                o += 10;
                if (o + rdl > p.size())
                    return -1;
                // c-ares also parses the data of other record types
                if (!((type == 33 && cls == 1) || (type == 1 && rdl == 4) ||
                      (type == 28 && rdl == 16) || type == 99) ||
                    cls != 1)
                    odd = true;
                if (type == 33 && cls == 1) {
                    std::string t;
                    size_t w2 = 0;
                    if (rdl < 7)
                        return -1;
                    size_t nl = name(o + 6, t, w2);
                    if (!nl || (int)nl + 6 != rdl)
                        return -1;
                    if (sec == 1)
                        r.push_back({u16(o), u16(o + 2), u16(o + 4), t});
                }
                o += rdl;
            }
        return o == p.size() ? (int)r.size() : -1;
    }
};

static uint64_t nwf, nfound;
static void run(const std::string &pkt, const char *what,
                const std::vector<Rec> *want = nullptr)
{
    FastCtx &f = fx();
    std::vector<Rec> exp;
    bool check = false;
    Ref ref(pkt);
    int d = ref.decode(exp);
#ifdef SIM_GNUTLS
    bool usable = d >= 0 && !ref.odd;
#else
    bool usable = d >= 0;
    if (ref.chars && usable)
        for (auto &r : exp) // a dot inside a label cannot be told apart
            if (r.target.find('\0') != std::string::npos)
                usable = false;
    if (usable && ref.chars)
        for (auto &r : exp)
            for (char c : r.target)
                if (!(isalnum((unsigned char)c) || c == '-' || c == '_' ||
                      c == '.'))
                    usable = false;
#endif
    if (usable) {
        check = true;
        nwf++;
    }
    if (want && d < 0)
        mc::fail("harness:c15", "generated packet is not well formed (%s)", what);
    std::sort(exp.begin(), exp.end());
    if (want) {
        std::vector<Rec> w2 = *want;
        std::sort(w2.begin(), w2.end());
        if (!(w2 == exp))
            mc::fail("harness:c15", "reference decoder disagrees (%s)", what);
    }
    long live = f.a.live;
    for (int k = 0; k < (want ? 2 : 1); k++) {
        f.a.fill = k ? 0x41 : 0xA5;
        Exact x(pkt);
        resolver_srv_rr_t *l = (resolver_srv_rr_t *)0x10;
        int r = resolver_srv_lookup_buf(f.ctx, (unsigned char *)x.p, x.n, &l);
        if (l == (resolver_srv_rr_t *)0x10) {
            mc::fail("srv:list-unset", "%s: result list not set", what);
            l = nullptr;
        }
        if ((r == XMPP_DOMAIN_FOUND) != (l != nullptr))
            mc::fail("srv:inconsistent", "%s: returns %d with%s list (%s)", what,
                     r, l ? " a" : "out", mc::printable(pkt, 400).c_str());
        std::vector<Rec> got;
        int n = 0;
        for (resolver_srv_rr_t *i = l; i; i = i->next) {
            if (++n > 70000) {
                mc::fail("srv:cyclic", "%s: endless list", what);
                return;
            }
            if (!memchr(i->target, 0, sizeof i->target)) {
                mc::fail("srv:unterminated", "%s: target not NUL-terminated (%s)",
                         what, mc::printable(pkt, 400).c_str());
                continue;
            }
            got.push_back({i->priority, i->weight, i->port, i->target});
        }
        for (size_t i = 1; i < got.size(); i++)
            if (got[i - 1].prio > got[i].prio ||
                (got[i - 1].prio == got[i].prio &&
                 got[i - 1].weight < got[i].weight))
                mc::fail("srv:order", "%s: %s listed before %s", what,
                         got[i - 1].str().c_str(), got[i].str().c_str());
        if (check) {
            std::vector<Rec> g = got;
            std::sort(g.begin(), g.end());
            if (!(g == exp)) {
                std::string a, b;
                for (auto &z : g)
                    a += " [" + z.str() + "]";
                for (auto &z : exp)
                    b += " [" + z.str() + "]";
                mc::fail("srv:records",
                         "%s: well-formed response decoded as%s, its IN/SRV "
                         "answers are%s; packet %s",
                         what, a.c_str(), b.c_str(),
                         mc::printable(pkt, 300).c_str());
            }
            nfound++;
        }
        if (l)
            resolver_srv_free(f.ctx, l);
    }
    if (f.a.live != live) {
        mc::fail("srv:leak", "%s: %ld blocks leaked (%s)", what, f.a.live - live,
                 mc::printable(pkt, 300).c_str());
        f.a.live = live;
    }
}

// ------------------------------------------------------------- generator
struct Gen {
    std::string p;
    std::vector<Rec> recs;
    size_t qname = 0, tail = 0, root = 0, last_target = 0;
    std::string qn = "_xmpp-client._tcp.ex.org";
    void u16(int v)
    {
        p += (char)(v >> 8);
        p += (char)v;
    }
    void labels(const std::string &n)
    {
        size_t i = 0;
        while (i < n.size()) {
            size_t e = n.find('.', i);
            if (e == std::string::npos)
                e = n.size();
            p += (char)(e - i);
            p.append(n, i, e - i);
            i = e + 1;
        }
    }
    void ptr(size_t o) { u16(0xc000 | o); }
    void header(int qd, int an, int ns, int ar, int fl = 0x8180)
    {
        u16(0xbeef);
        u16(fl);
        u16(qd);
        u16(an);
        u16(ns);
        u16(ar);
    }
    void question(bool second)
    {
        if (second && qname) {
            ptr(qname);
        } else {
            qname = p.size();
            labels("_xmpp-client._tcp");
            tail = p.size();
            labels("ex.org");
            root = p.size();
            p += '\0';
        }
        u16(33);
        u16(1);
    }
    void owner(int k)
    {
        if (k == 0 && qname)
            ptr(qname);
        else if (k == 2) {
            if (!root)
                root = p.size();
            p += '\0';
        } else {
            size_t at = p.size();
            labels("o1");
            size_t t = p.size();
            labels("ex.org");
            root = p.size();
            p += '\0';
            if (!tail)
                tail = t;
            (void)at;
        }
    }
    // target forms; returns false if not available in this packet
    static const int NT = 10;
    std::string target(int k)
    {
        size_t at = p.size();
        std::string t;
        switch (k) {
        case 0:
            t = "host1.ex.net";
            labels(t);
            p += '\0';
            break;
        case 1:
            t = "h";
            labels(t);
            p += '\0';
            break;
        case 2:
            p += '\0';
            break;
        case 3:
            if (!tail)
                return target(0);
            labels("b");
            ptr(tail);
            t = "b.ex.org";
            break;
        case 4:
            if (!last_target)
                return target(3);
            t = last;
            ptr(last_target);
            break;
        case 5:
            if (!last_target)
                return target(3);
            labels("c.d");
            ptr(last_target);
            t = last.empty() ? "c.d" : "c.d." + last;
            if (t.size() > 253) {
                p.resize(at);
                return target(0);
            }
            break;
        case 6:
            if (!root)
                return target(0);
            labels("e");
            ptr(root);
            t = "e";
            break;
        case 7:
            if (!root)
                return target(0);
            ptr(root);
            break;
        case 8: // the longest name: 255 bytes on the wire, 253 as text
            t = std::string(63, 'w') + "." + std::string(63, 'x') + "." +
                std::string(63, 'y') + "." + std::string(61, 'z');
            labels(t);
            p += '\0';
            break;
        case 9: // longest through a pointer
            if (!tail)
                return target(8);
            t = std::string(63, 'w') + "." + std::string(63, 'x') + "." +
                std::string(63, 'y') + "." + std::string(54, 'z');
            labels(t);
            ptr(tail);
            t += ".ex.org";
            break;
        }
        last_target = at;
        last = t;
        return t;
    }
    std::string last;
    void srv(int ow, int tf, int prio, int weight, int port, bool in_answer)
    {
        owner(ow);
        u16(33);
        u16(1);
        u16(0);
        u16(300);
        size_t l = p.size();
        u16(0);
        u16(prio);
        u16(weight);
        u16(port);
        std::string t = target(tf);
        size_t rd = p.size() - l - 2;
        p[l] = (char)(rd >> 8);
        p[l + 1] = (char)rd;
        if (in_answer)
            recs.push_back({prio, weight, port, t});
    }
    static const int NO = 8;
    void other(int ow, int k)
    {
        static const struct {
            int type, cls, len;
        } o[NO] = {{1, 1, 4},   {28, 1, 16}, {5, 1, 2},  {16, 1, 0},
                   {41, 512, 0}, {33, 3, 9},  {99, 1, 1}, {16, 1, 200}};
        owner(ow);
        u16(o[k].type);
        u16(o[k].cls);
        u16(0);
        u16(60);
        u16(o[k].len);
        if (k == 2 && qname)
            ptr(qname);
        else
            for (int i = 0; i < o[k].len; i++)
                p += (char)(k == 5 ? (i < 6 ? 1 : i == 6 ? 1 : i == 7 ? 'q' : 0)
                                   : i + 1);
    }
};

static const int PW[][3] = {{0, 0, 5222},      {10, 5, 1},   {10, 60, 65535},
                            {256, 1, 443},     {1, 256, 80}, {65535, 65535, 0},
                            {10, 5, 5269}};

static void answer(Gen &g, int &idx, int nkinds, bool full)
{
    int ow = full ? mc::choose(3, "owner") : idx % 3;
    int k = mc::choose(nkinds, "record");
    if (k < Gen::NT) {
        int pw = mc::choose(full ? 7 : 4, "priority/weight");
        g.srv(ow, k, PW[pw][0], PW[pw][1], PW[pw][2], true);
    } else
        g.other(ow, k - Gen::NT);
    idx++;
}

static void wellformed(int n, bool full)
{
    Gen g;
#ifdef SIM_GNUTLS
    int qd = 1;
#else
    int qd = full ? mc::choose(3, "questions") : 1;
#endif
    int extra = full ? mc::choose(4, "authority/additional") : 0;
    g.header(qd, n, extra & 1, extra >> 1);
    for (int i = 0; i < qd; i++)
        g.question(i > 0);
    int idx = 0;
    for (int i = 0; i < n; i++)
        answer(g, idx, Gen::NT + Gen::NO, full);
    if (extra & 1)
        g.other(0, 0);
    if (extra >> 1)
        g.srv(2, 0, 1, 1, 1, false);
    run(g.p, "generated response", &g.recs);
    mc::evaluated(1);
    mc::step(1);
    mc::state(mc::fnv(g.p));
    if (n)
        mc::sample(mc::fmt("%d answers: %s", n, mc::printable(g.p, 200).c_str()));
}

static Gen base(int k)
{
    Gen g;
    switch (k) {
    case 0:
        g.header(1, 1, 0, 0);
        g.question(false);
        g.srv(0, 1, 1, 2, 3, true);
        break;
    case 1:
        g.header(1, 2, 0, 0);
        g.question(false);
        g.srv(0, 0, 1, 2, 3, true);
        g.srv(0, 3, 1, 2, 3, true);
        break;
    case 2:
        g.header(1, 3, 0, 0);
        g.question(false);
        g.srv(0, 3, 30, 1, 1, true);
        g.other(0, 2);
        g.srv(1, 5, 20, 2, 2, true);
        break;
    case 3:
        g.header(1, 2, 0, 1);
        g.question(false);
        g.srv(0, 8, 1, 2, 3, true);
        g.srv(0, 5, 1, 3, 3, true);
        g.other(2, 4);
        break;
    case 4:
        g.header(1, 2, 0, 0);
        g.question(false);
        g.srv(0, 9, 1, 2, 3, true);
        g.srv(0, 2, 1, 2, 3, true);
        break;
    case 5:
        g.header(1, 1, 0, 0);
        g.question(false);
        g.other(0, 0);
        break;
    case 6:
        g.header(0, 1, 0, 0);
        g.srv(2, 1, 1, 2, 3, true);
        break;
    case 7: { // long pointer chain
        g.header(1, 1, 0, 0);
        g.question(false);
        g.srv(0, 1, 1, 2, 3, true);
        break;
    }
    }
    return g;
}
static const int NB = 7;

void register_scenarios()
{
    mc::add("wellformed-0", [] { wellformed(0, true); }, 0);
    mc::add("wellformed-1", [] { wellformed(1, true); }, 0);
    mc::add("wellformed-2", [] { wellformed(2, mc::thorough()); }, 0);
    mc::add("wellformed-2x", [] { // all owners, fewer priorities
        wellformed(2, false);
    }, 0);
    mc::add("wellformed-3", [] {
        // three answers: the third one by inner enumeration
        int a = mc::choose(Gen::NT + Gen::NO), b = mc::choose(Gen::NT + Gen::NO);
        uint64_t c = 0;
        for (int x = 0; x < Gen::NT + Gen::NO; x++)
            for (int pw = 0; pw < (mc::thorough() ? 343 : 64); pw++) {
                Gen g;
                g.header(1, 3, 0, 0);
                g.question(false);
                int k[3] = {a, b, x};
                int m = mc::thorough() ? 7 : 4;
                int q[3] = {pw % m, pw / m % m, pw / m / m};
                for (int i = 0; i < 3; i++)
                    if (k[i] < Gen::NT)
                        g.srv(i % 3 == 2 ? 1 : 0, k[i], PW[q[i]][0], PW[q[i]][1],
                              PW[q[i]][2], true);
                    else
                        g.other(i % 3, k[i] - Gen::NT);
                run(g.p, "three answers", &g.recs);
                c++;
            }
        mc::evaluated(c);
        mc::step(c);
        mc::state(a * 100 + b + 1);
    }, 0);
    mc::add("order", [] {
        // every sequence of up to six records over four (priority, weight) keys
        int n = 1 + mc::choose(6, "records");
        int tot = 1;
        for (int i = 0; i < n; i++)
            tot *= 5;
        static const int K[5][2] = {{0, 0}, {0, 7}, {5, 0}, {5, 300}, {300, 1}};
        for (int v = 0; v < tot; v++) {
            Gen g;
            g.header(1, n, 0, 0);
            g.question(false);
            int w = v;
            for (int i = 0; i < n; i++, w /= 5)
                g.srv(0, 1, K[w % 5][0], K[w % 5][1], 1000 + i, true);
            run(g.p, "ordering", &g.recs);
        }
        mc::evaluated(tot);
        mc::step(tot);
        mc::state(n + 5000);
    }, 0);
    mc::add("many", [] {
        static const int N[] = {10, 50, 255, 256, 257, 1000, 3000};
        int n = N[mc::choose(7, "answers")];
        int pat = mc::choose(3);
        Gen g;
        g.header(1, n, 0, 0);
        g.question(false);
        for (int i = 0; i < n; i++)
            g.srv(0, 1, pat == 0 ? i : pat == 1 ? n - i : i * 7 % 50, i % 9, i, true);
        run(g.p, "many answers", &g.recs);
        mc::step(1);
        mc::state(mc::fnv(g.p));
    }, 0);
    mc::add("truncation", [] {
        Gen g = base(mc::choose(NB, "packet"));
        for (size_t n = 0; n <= g.p.size(); n++)
            run(g.p.substr(0, n), "truncated response");
        for (size_t n = 1; n < 40; n++) {
            run(g.p + std::string(n, '\0'), "extended response");
            run(g.p + std::string(n, '\xff'), "extended response");
        }
        mc::evaluated(g.p.size());
        mc::step(g.p.size());
        mc::state(mc::fnv(g.p));
    }, 0);
    mc::add("one-byte", [] {
        Gen g = base(mc::choose(NB, "packet"));
        uint64_t c = 0;
        for (size_t i = 0; i < g.p.size(); i++)
            for (int v = 0; v < 256; v++) {
                std::string s = g.p;
                s[i] = (char)v;
                run(s, "response with one byte changed");
                c++;
            }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(g.p) + 1);
    }, 0);
    mc::add("one-byte-and-truncation", [] {
        Gen g = base(mc::choose(NB, "packet"));
        static const int V[] = {0, 1, 6, 12, 0x21, 0x3f, 0x40, 0x7f,
                                0x80, 0xbf, 0xc0, 0xff};
        uint64_t c = 0;
        for (size_t i = 0; i < g.p.size(); i++)
            for (int v : V)
                for (size_t n = i + 1; n <= g.p.size(); n++) {
                    std::string s = g.p.substr(0, n);
                    s[i] = (char)v;
                    run(s, "changed and truncated");
                    c++;
                }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(g.p) + 2);
    }, 0);
    mc::add("two-bytes", [] {
        int nb = mc::thorough() ? NB : 3;
        Gen g = base(mc::choose(nb, "packet"));
        int part = mc::choose(16, "part");
        static const int V[] = {0, 1, 6, 12, 0x21, 0x3f, 0x40,
                                0x80, 0xc0, 0xff, 16, 0x2b};
        uint64_t c = 0;
        for (size_t i = part; i < g.p.size(); i += 16)
            for (size_t j = i + 1; j < g.p.size(); j++)
                for (int v : V)
                    for (int w : V) {
                        std::string s = g.p;
                        s[i] = (char)v;
                        s[j] = (char)w;
                        run(s, "two bytes changed");
                        c++;
                    }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(g.p) + 3 + part);
    }, 0);
    mc::add("pointer-any", [] {
        // the target is a two byte pointer with every possible value, and the
        // owner as well
        int k = mc::choose(16, "high nibble");
        for (int lo = 0; lo < 1024; lo++)
            for (int wh = 0; wh < 2; wh++) {
                int v = 0xc000 | (k << 10 & 0x3c00) | lo;
                Gen g;
                g.header(1, 2, 0, 0);
                g.question(false);
                g.srv(0, 0, 1, 1, 1, true);
                if (wh)
                    g.u16(v);
                else
                    g.ptr(g.qname);
                g.u16(33);
                g.u16(1);
                g.u16(0);
                g.u16(1);
                g.u16(8);
                g.u16(9);
                g.u16(9);
                g.u16(9);
                if (wh)
                    g.ptr(g.tail);
                else
                    g.u16(v);
                run(g.p, "arbitrary pointer");
            }
        mc::evaluated(2048);
        mc::step(2048);
        mc::state(k + 9000);
    }, 0);
    mc::add("target-bytes", [] {
        // every target name of up to 6 bytes over length/pointer bytes
        static const int V[] = {0, 1, 2, 3, 0x3f, 0x40, 0x80, 0xc0, 0x0c, 0xff};
        int len = 1 + mc::choose(mc::thorough() ? 7 : 5, "len");
        int first = mc::choose(10, "first");
        uint64_t tot = 1;
        for (int i = 1; i < len; i++)
            tot *= 10;
        for (uint64_t v = 0; v < tot; v++) {
            Gen g;
            g.header(0, 1, 0, 0);
            g.p += '\0';
            g.u16(33);
            g.u16(1);
            g.u16(0);
            g.u16(1);
            g.u16(6 + len);
            g.u16(1);
            g.u16(2);
            g.u16(3);
            g.p += (char)V[first];
            uint64_t w = v;
            for (int i = 1; i < len; i++, w /= 10)
                g.p += (char)V[w % 10];
            run(g.p, "arbitrary target bytes");
        }
        mc::evaluated(tot);
        mc::step(tot);
        mc::state(len * 100 + first + 20000);
    }, 0);
    mc::add("counts", [] {
        // forged section counts and header flags
        static const int C[] = {0, 1, 2, 3, 255, 256, 0x7fff, 0xffff};
        Gen g = base(mc::choose(NB, "packet"));
        uint64_t c = 0;
        for (int q : C)
            for (int a : C)
                for (int fl : {0x8180, 0x0100, 0x8183, 0x8000, 0x8580, 0x0000,
                               0xffff, 0x8182})
                    for (int x : {0, 1, 0xffff}) {
                        std::string s = g.p;
                        auto set = [&](int o, int v) {
                            s[o] = (char)(v >> 8);
                            s[o + 1] = (char)v;
                        };
                        set(2, fl);
                        set(4, q);
                        set(6, a);
                        set(8, x);
                        set(10, x);
                        run(s, "forged counts");
                        c++;
                    }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(g.p) + 4);
    }, 0);
    mc::add("rdlength", [] {
        Gen g = base(mc::choose(NB, "packet"));
        // every 16 bit length in the first answer, sparsely above 600
        size_t o = g.p.find(std::string("\0\0\1\x2c", 4));
        if (o == std::string::npos)
            o = g.p.size() - 20;
        uint64_t c = 0;
        for (int v = 0; v < 65536; v += v < 600 ? 1 : 61) {
            std::string s = g.p;
            if (o + 5 < s.size()) {
                s[o + 4] = (char)(v >> 8);
                s[o + 5] = (char)v;
            }
            run(s, "forged rdlength");
            c++;
        }
        mc::evaluated(c);
        mc::step(c);
        mc::state(mc::fnv(g.p) + 5);
    }, 0);
    mc::add("chains", [] {
        // pointer chains of every depth to the top of the 14 bit range, over
        // many records
        static const int D[] = {1, 2, 10, 100, 1000, 4000, 8100};
        int d = D[mc::choose(7, "depth")];
        int an = mc::choose(2) ? 200 : 1;
        Gen g;
        g.header(0, an + 1, 0, 0);
        g.p += '\0';
        g.u16(16);
        g.u16(1);
        g.u16(0);
        g.u16(1);
        g.u16(d * 2 + 1);
        size_t at = g.p.size();
        g.p += '\0';
        for (int i = 0; i < d; i++) {
            size_t prev = i ? at + 1 + (i - 1) * 2 : at;
            g.ptr(prev);
        }
        for (int i = 0; i < an; i++) {
            g.p += '\0';
            g.u16(33);
            g.u16(1);
            g.u16(0);
            g.u16(1);
            g.u16(8);
            g.u16(1);
            g.u16(1);
            g.u16(i);
            g.ptr(at + 1 + (d - 1) * 2);
        }
        mc::allow_secs(60);
        run(g.p, "pointer chain");
        mc::step(1);
        mc::state(d + an * 100000);
    }, 0);
    mc::add("label-lengths", [] {
        // names whose expansion passes 255: k labels of every length + pointer
        int L = 1 + mc::choose(63, "label length");
        for (int n1 = 0; n1 <= 8; n1++)
            for (int n2 = 1; n2 <= 8; n2++)
                for (int n3 = 0; n3 <= 4; n3++) {
                    Gen g;
                    g.header(0, 2, 0, 0);
                    g.p += '\0';
                    g.u16(33);
                    g.u16(1);
                    g.u16(0);
                    g.u16(1);
                    g.u16(6 + n1 * (L + 1) + 1);
                    g.u16(1);
                    g.u16(1);
                    g.u16(1);
                    size_t t = g.p.size();
                    for (int i = 0; i < n1; i++)
                        g.labels(std::string(L, 'a' + i));
                    g.p += '\0';
                    g.p += '\0';
                    g.u16(33);
                    g.u16(1);
                    g.u16(0);
                    g.u16(1);
                    g.u16(6 + n2 * (L + 1) + n3 + (n3 ? 1 : 0) + 2);
                    g.u16(1);
                    g.u16(1);
                    g.u16(2);
                    for (int i = 0; i < n2; i++)
                        g.labels(std::string(L, 'k' + i));
                    if (n3)
                        g.labels(std::string(n3, '3'));
                    g.ptr(t);
                    run(g.p, "long names");
                    mc::evaluated(1);
                }
        mc::step(320);
        mc::state(L + 300000);
    }, 0);
}
