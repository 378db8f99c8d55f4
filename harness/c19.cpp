// C19: JID helpers on every short string and every combination of parts.
#include "fast.h"
#include "sim.h"

static FastCtx *F;
static FastCtx &fx()
{
    if (!F)
        F = new FastCtx;
    return *F;
}
struct Opt {
    bool has = false;
    std::string s;
    bool operator==(const Opt &o) const { return has == o.has && s == o.s; }
    std::string str() const { return has ? mc::printable(s, 60) : "(none)"; }
};
static Opt take(char *p)
{
    Opt o;
    if (p) {
        o.has = true;
        o.s = p;
        xmpp_free(fx().ctx, p);
    }
    return o;
}
static Opt some(const std::string &s)
{
    Opt o;
    o.has = true;
    o.s = s;
    return o;
}

static void split(const std::string &s)
{
    FastCtx &f = fx();
    size_t sl = s.find('/');
    std::string rest = s.substr(0, sl);
    size_t at = rest.find('@');
    Opt node, res;
    if (at != std::string::npos)
        node = some(rest.substr(0, at));
    Opt dom = some(at == std::string::npos ? rest : rest.substr(at + 1));
    if (sl != std::string::npos)
        res = some(s.substr(sl + 1));
    long live = f.a.live;
    Exact x(s + std::string(1, '\0'));
    Opt n[2], d[2], r[2], b[2];
    for (int k = 0; k < 2; k++) {
        f.a.fill = k ? 0x5A : 0xA5;
        n[k] = take(xmpp_jid_node(f.ctx, x.p));
        d[k] = take(xmpp_jid_domain(f.ctx, x.p));
        r[k] = take(xmpp_jid_resource(f.ctx, x.p));
        b[k] = take(xmpp_jid_bare(f.ctx, x.p));
    }
    std::string P = mc::printable(s, 80);
    if (!(n[0] == node) || !(n[1] == node))
        mc::fail("jid:node", "node of \"%s\" = %s, want %s", P.c_str(),
                 n[0].str().c_str(), node.str().c_str());
    if (!(d[0] == dom) || !(d[1] == dom))
        mc::fail("jid:domain", "domain of \"%s\" = %s, want %s", P.c_str(),
                 d[0].str().c_str(), dom.str().c_str());
    if (!(r[0] == res) || !(r[1] == res))
        mc::fail("jid:resource", "resource of \"%s\" = %s, want %s", P.c_str(),
                 r[0].str().c_str(), res.str().c_str());
    if (!(b[0] == some(rest)) || !(b[1] == some(rest)))
        mc::fail("jid:bare", "bare of \"%s\" = %s, want %s", P.c_str(),
                 b[0].str().c_str(), rest.c_str());
    if (memcmp(x.p, s.data(), s.size()))
        mc::fail("jid:input", "helper modifies its argument \"%s\"", P.c_str());
    if (f.a.live != live)
        mc::fail("jid:leak", "memory leaked for \"%s\"", P.c_str());
}

static void build(const Opt &n, const Opt &d, const Opt &r)
{
    FastCtx &f = fx();
    static const std::string bad = "\"&'/:<>@";
    bool refuse = !d.has || (n.has && n.s.find_first_of(bad) != std::string::npos) ||
                  (n.has && n.s.size() > 1023) || (d.has && d.s.size() > 1023) ||
                  (r.has && r.s.size() > 1023);
    std::string NN = n.s + std::string(1, '\0'), DD = d.s + std::string(1, '\0'),
                RR = r.s + std::string(1, '\0');
    Exact xn(NN), xd(DD), xr(RR);
    long live = f.a.live;
    f.a.fill = 0x5A;
    Opt j = take(xmpp_jid_new(f.ctx, n.has ? xn.p : nullptr,
                              d.has ? xd.p : nullptr, r.has ? xr.p : nullptr));
    if (f.a.live != live)
        mc::fail("jid:leak", "memory leaked by xmpp_jid_new");
    std::string what = "(" + n.str() + "," + d.str() + "," + r.str() + ")";
    if (refuse) {
        if (j.has)
            mc::fail("jid:new-accepts",
                     "xmpp_jid_new%s (sizes %zu,%zu,%zu) is not refused: %s",
                     what.c_str(), n.s.size(), d.s.size(), r.s.size(),
                     j.str().c_str());
        return;
    }
    bool clean = d.s.find_first_of("/@") == std::string::npos;
    if (!clean)
        return; // the statement says nothing about such domains
    if (d.s.empty() && !j.has)
        return; // an empty domain may count as missing
    std::string want = (n.has ? n.s + "@" : "") + d.s + (r.has ? "/" + r.s : "");
    if (!j.has || j.s != want) {
        mc::fail("jid:new", "xmpp_jid_new%s (sizes %zu,%zu,%zu) = %s",
                 what.c_str(), n.s.size(), d.s.size(), r.s.size(),
                 j.str().c_str());
        return;
    }
    Exact x(j.s + std::string(1, '\0'));
    if (!(take(xmpp_jid_node(f.ctx, x.p)) == n) ||
        !(take(xmpp_jid_domain(f.ctx, x.p)) == d) ||
        !(take(xmpp_jid_resource(f.ctx, x.p)) == r))
        mc::fail("jid:new-split", "splitting xmpp_jid_new%s gives other parts",
                 what.c_str());
    split(j.s);
}

static void each(const std::string &al, int n, int outer,
                 const std::function<void(const std::string &)> &cb)
{
    std::string b(n, al[0]);
    if (outer > n)
        outer = n;
    for (int i = 0; i < outer; i++)
        b[i] = al[mc::choose(al.size(), "symbol")];
    std::vector<size_t> ix(n, 0);
    uint64_t c = 0, h = 0;
    bool more = true;
    while (more) {
        cb(b);
        c++;
        h = mc::fnv(b, h ^ 1469598103934665603ull);
        more = false;
        for (int k = n - 1; k >= outer; k--) {
            if (++ix[k] < al.size()) {
                b[k] = al[ix[k]];
                more = true;
                break;
            }
            ix[k] = 0;
            b[k] = al[0];
        }
    }
    mc::evaluated(c);
    mc::step(c);
    mc::state(h);
    mc::sample(mc::fmt("len%d ... %s", n, mc::printable(b).c_str()));
}

static Opt part(int kind, int which)
{
    // kind 0: absent, otherwise a text
    static const char *t[] = {nullptr, "", "a", "Node", "x.y", "a b",
                              "\xc3\xa9", "0", "a\\20b", "%41"};
    Opt o;
    if (!t[kind])
        return o;
    return some(t[kind]);
}

void register_scenarios()
{
    static std::string al = "a@/.\xff:";
    static std::string al2 = "a@/";
    for (int n = 0; n <= 8; n++)
        mc::add(mc::fmt("split-len%d", n), [n] { each(al, n, n > 5 ? 2 : 0, split); },
                0);
    for (int n = 9; n <= 11; n++)
        mc::add(mc::fmt("split-len%d", n), [n] {
            each(mc::thorough() && n < 11 ? al : al2, n, 3, split);
        }, 0);
    mc::add("split-any-bytes", [] {
        static std::string all;
        if (all.empty())
            for (int i = 1; i < 256; i++)
                all += (char)i;
        uint64_t c = 0;
        for (char x : all)
            for (char y : all) {
                split(std::string(1, x) + y);
                split(std::string("n") + x + "@d" + y + "/r" + x + "@" + y);
                c += 2;
            }
        mc::evaluated(c);
        mc::step(c);
        mc::state(77);
    }, 0);
    mc::add("split-long", [] {
        int L = 1 + mc::choose(60, "len") * 37;
        std::string base(L, 'q');
        for (int i = 0; i < L; i += 13)
            for (int j = 0; j < L; j += 29)
                for (int k = 0; k < 2; k++) {
                    std::string s = base;
                    s[i] = '@';
                    s[j] = k ? '/' : '@';
                    split(s);
                    mc::evaluated(1);
                }
        mc::step(L);
        mc::state(L);
    }, 0);
    mc::add("build-parts", [] {
        Opt n = part(mc::choose(10, "node"), 0);
        for (int d = 0; d < 10; d++)
            for (int r = 0; r < 14; r++) {
                Opt res = r < 10 ? part(r, 2)
                                 : some(r == 10   ? "/"
                                        : r == 11 ? "a/b@c"
                                        : r == 12 ? "@"
                                                  : "<&>\"'");
                build(n, part(d, 1), res);
                mc::evaluated(1);
            }
        mc::step(140);
        mc::state(mc::fnv(n.s) + n.has);
    }, 0);
    mc::add("build-local-bytes", [] {
        // every byte at every position of local parts of length 1..4
        int L = 1 + mc::choose(4, "len");
        for (int p = 0; p < L; p++)
            for (int c = 1; c < 256; c++) {
                std::string s(L, 'l');
                s[p] = (char)c;
                build(some(s), some("d"), Opt());
                build(some(s), some("d"), some(s));
                build(Opt(), some("d"), some(s));
                if (c != '@' && c != '/')
                    build(some("n"), some(s), some("r"));
                mc::evaluated(4);
            }
        mc::step(L * 1020);
        mc::state(L);
    }, 0);
    mc::add("build-local-words", [] {
        int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "len");
        each("a\"&'/:<>@", n, 1, [](const std::string &s) {
            build(some(s), some("d"), some("r"));
        });
    }, 0);
    mc::add("build-lengths", [] {
        static const int L[] = {-1, 0, 1, 255, 256, 1022, 1023, 1024, 1025,
                                2047, 2048, 3071, 4096, 65536, 70000};
        int i = mc::choose(15, "node length");
        for (int j : L)
            for (int k : L) {
                auto mk = [](int l, char c) {
                    return l < 0 ? Opt() : some(std::string(l, c));
                };
                build(mk(L[i], 'n'), mk(j, 'd'), mk(k, 'r'));
                mc::evaluated(1);
            }
        mc::step(225);
        mc::state(i + 1);
    }, 0);
}
