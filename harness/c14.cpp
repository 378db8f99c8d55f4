// C14: every candidate is tried, in SRV order, before giving up.
#include "world.h"
#include <algorithm>
#include <set>
using namespace world;
using sim::ConnResult;

struct Target {
    std::string host;
    int prio, weight, port;
    int naddr = -1; // not asked yet
    bool open = true; // not finished
};
static std::string name(const std::string &s)
{
    std::string o, l;
    for (char c : s + ".")
        if (c == '.') {
            o += (char)l.size() + l;
            l.clear();
        } else
            l += c;
    return o + '\0';
}
static std::string u16(int v) { return {(char)(v >> 8), (char)v}; }
static std::string packet(const std::string &q, const std::vector<Target> &t)
{
    std::string p = u16(0x1234) + u16(0x8180) + u16(1) + u16(t.size()) + u16(0) +
                    u16(0) + name(q) + u16(33) + u16(1);
    for (auto &x : t) {
        std::string r = u16(x.prio) + u16(x.weight) + u16(x.port) + name(x.host);
        p += name(q) + u16(33) + u16(1) + std::string("\0\0\1\0", 4) + u16(r.size()) +
             r;
    }
    return p;
}
static const int errnos[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH,
                             ETIMEDOUT,    ECONNRESET,  EACCES};
enum Kind { K_CLIENT, K_RAW, K_SSL, K_COMPONENT };

struct Plan {
    Client c;
    Server srv;
    Kind kind = K_CLIENT;
    std::string jid = "user@example.org", domain = "example.org";
    bool srv_fail = true;
    std::vector<Target> srv_answer; // as in the packet
    bool bypass = false;            // SRV must not be used
    std::string host;               // explicit host
    int port = 0;                   // explicit port
    // --- the reference: what may come next
    std::vector<Target> todo; // remaining targets, sorted groups
    int cur = -1;             // target being tried
    int at = 0;               // next address of it
    bool accepted = false, accept_due = false, pending = false, failing = false;
    uint64_t pend_since = 0;
    int pend_kind = 0;
    uint64_t delay = 0;
    int ntried = 0;
    bool late_kinds = true;
    int maxaddr = 2;
    bool dev = true; // kinds of failure as deviations
    int cb_fail_at = -1, ncb = 0;
    unsigned long slice = 1000;
    std::set<int> skipped;

    static std::string addr(int t, int a)
    {
        return a % 2 ? strf("2001:db8::%d:%d", t + 1, a + 1)
                     : strf("192.0.%d.%d", t + 1, a + 1);
    }
    Plan() { c.lifecycle = false; }
    ~Plan()
    {
        c.release();
    }
    // all hosts known to the reference
    Target *find(const std::string &h)
    {
        for (auto &t : todo)
            if (t.host == h)
                return &t;
        return nullptr;
    }
    int index(const std::string &h)
    {
        for (size_t i = 0; i < todo.size(); i++)
            if (todo[i].host == h)
                return i;
        return -1;
    }
    void prepare()
    {
        todo.clear();
        if (!host.empty() || bypass || srv_fail || srv_answer.empty()) {
            Target t;
            t.host = host.empty() ? domain : host;
            t.prio = t.weight = 0;
            t.port = port                 ? port
                     : kind == K_SSL       ? 5223
                     : kind == K_COMPONENT ? 5347
                                           : 5222;
            todo.push_back(t);
        } else
            todo = srv_answer;
        cur = -1;
        at = 0;
        accepted = accept_due = pending = failing = false;
        ntried = 0;
        skipped.clear();
        sim::W->on_srv = [this](const std::string &q) {
            sim::DnsAnswer a;
            if (q != "_xmpp-client._tcp." + domain)
                mc::fail("srv:name", "asked for %s", q.c_str());
            if (!host.empty() || bypass)
                mc::fail("srv:not-bypassed", "SRV lookup with an explicit host");
            a.fail = srv_fail;
            a.packet = packet(q, srv_answer);
            return a;
        };
        sim::W->on_gai = [this](const std::string &h, int) {
            std::vector<std::string> v;
            Target *t = find(h);
            if (!t) {
                mc::fail("candidate:unknown", "resolves %s", h.c_str());
                return v;
            }
            naddr(*t);
            for (int i = 0; i < t->naddr; i++)
                v.push_back(addr(index(h), i));
            return v;
        };
        sim::W->on_connect = [this](const std::string &a, int p) {
            return attempt(a, p);
        };
        sim::W->connect_delay = [this](const std::string &, int) { return delay; };
    }
    void naddr(Target &t)
    {
        if (t.naddr < 0)
            t.naddr = mc::choose(maxaddr + 1, "addresses");
    }
    // is t the best of what is left?
    bool best(const Target &t)
    {
        for (auto &o : todo) {
            if (!o.open || &o == &t)
                continue;
            if (o.prio < t.prio || (o.prio == t.prio && o.weight > t.weight)) {
                // a better one remains; it may only be passed over if it has
                // no address
                naddr(o);
                if (o.naddr == 0) {
                    o.open = false;
                    continue;
                }
                mc::trace("better: %s prio %d weight %d", o.host.c_str(), o.prio,
                          o.weight);
                return false;
            }
        }
        return true;
    }
    void over(const char *how) // the candidate pending is finished
    {
        if (pending && pend_kind == 2 && sim::now_ms() < pend_since + 5000)
            mc::fail("candidate:early", "%s %llu ms after the attempt began", how,
                     (unsigned long long)(sim::now_ms() - pend_since));
        if (pending && accept_due)
            mc::fail("candidate:accepting", "%s although the endpoint accepts after "
                                            "%llu ms",
                     how, (unsigned long long)delay);
        pending = false;
    }
    ConnResult attempt(const std::string &a, int p)
    {
        if (accepted) {
            mc::fail("candidate:after-accept", "connects to %s although an endpoint "
                                               "accepted",
                     a.c_str());
            return sim::C_REFUSED_SYNC;
        }
        if (pending && sim::now_ms() > pend_since + 5000 + slice + 2)
            mc::fail("candidate:late", "moved on %llu ms after the attempt began",
                     (unsigned long long)(sim::now_ms() - pend_since));
        over("moved on");
        // a failed socket option callback takes the next candidates away
        while (true) {
            if (cur >= 0 && at >= todo[cur].naddr) {
                todo[cur].open = false;
                cur = -1;
            }
            if (cur < 0) {
                // which one?
                for (size_t i = 0; i < todo.size(); i++)
                    for (int k = 0; k < 8; k++)
                        if (a == addr(i, k))
                            cur = i;
                if (cur < 0 || !todo[cur].open) {
                    mc::fail("candidate:unknown", "connects to %s", a.c_str());
                    return sim::C_REFUSED_SYNC;
                }
                if (!best(todo[cur])) {
                    mc::fail("candidate:order", "connects to %s (%s) too early",
                             a.c_str(), todo[cur].host.c_str());
                    return sim::C_REFUSED_SYNC;
                }
                at = 0;
            }
            break;
        }
        if (a != addr(cur, at))
            mc::fail("candidate:order", "connects to %s, next is %s", a.c_str(),
                     addr(cur, at).c_str());
        if (p != todo[cur].port)
            mc::fail("candidate:port", "connects to port %d of %s, want %d", p,
                     todo[cur].host.c_str(), todo[cur].port);
        at++;
        ntried++;
        mc::step();
        delay = 0;
        accept_due = false;
        if (mc::choose(2, "accepts")) {
            int d = mc::deviate(3, "accepts how");
            delay = d == 1 ? 4900 : 0;
            pending = accept_due = true;
            pend_kind = 0;
            pend_since = sim::now_ms();
            if (d == 2) {
                return sim::C_OK_SYNC;
            }
            return sim::C_OK;
        }
        int k = dev ? mc::deviate(4, "fails how") : 0;
        pend_since = sim::now_ms();
        if (k == 0)
            return sim::C_REFUSED_SYNC;
        pending = true;
        if (k == 3) {
            pend_kind = 2;
            return sim::C_SILENT;
        }
        pend_kind = 1;
        delay = k == 1 ? 0 : 4500;
        return sim::C_REFUSED;
    }
    bool exhausted()
    {
        for (auto &t : todo) {
            if (!t.open)
                continue;
            if (cur >= 0 && &t == &todo[cur]) {
                if (at < t.naddr)
                    return false;
                continue;
            }
            naddr(t);
            if (t.naddr)
                return false;
        }
        return true;
    }
    void remaining(std::string &s)
    {
        for (auto &t : todo)
            if (t.open && !(cur >= 0 && &t == &todo[cur] && at >= t.naddr))
                s += " " + t.host;
    }
    void setup()
    {
        srv.cfg.component = kind == K_COMPONENT;
        srv.cfg.domain = domain;
        srv.install();
        xmpp_conn_set_jid(c.conn, jid.c_str());
        xmpp_conn_set_pass(c.conn, "secret");
        if (kind == K_SSL)
            xmpp_conn_set_flags(c.conn, XMPP_CONN_FLAG_LEGACY_SSL);
        else if (kind != K_COMPONENT)
            xmpp_conn_set_flags(c.conn, XMPP_CONN_FLAG_DISABLE_TLS);
    }
    // one attempt from the call to its outcome
    void run()
    {
        prepare();
        for (auto &t : todo)
            t.naddr = -1;
        size_t n0 = c.notes.size(), o0 = srv.count(S_OPEN);
        const char *h = host.empty() ? nullptr : host.c_str();
        int r = kind == K_COMPONENT ? c.connect_component(h ? h : "", port)
                : kind == K_RAW     ? c.connect_raw(h, port)
                                    : c.connect(h, port);
        bool raw_opened = false;
        if (r != XMPP_EOK) {
            over("gave up");
            std::string rem;
            remaining(rem);
            if (!exhausted())
                mc::fail("giveup:early", "connect returned %d, not tried:%s", r,
                         rem.c_str());
            if (!c.disconnected())
                mc::fail("giveup:state", "connect returned %d but the connection is "
                                         "not disconnected",
                         r);
            return;
        }
        uint64_t end = sim::now_ms() + 5100 * 12;
        int guard = 3000;
        while (guard-- > 0 && sim::now_ms() < end && !mc::failed()) {
            if (c.notes.size() > n0) {
                const Note &n = c.notes.back();
                if (n.event == XMPP_CONN_DISCONNECT) {
                    if (accepted)
                        mc::fail("accept:lost", "disconnected although an endpoint "
                                                "accepted");
                    over("gave up");
                    std::string rem;
                    remaining(rem);
                    if (!exhausted())
                        mc::fail("giveup:early", "disconnect notified, not tried:%s",
                                 rem.c_str());
                    if (!n.error)
                        mc::fail("giveup:no-error", "the disconnect notification "
                                                    "carries no error");
                    return;
                }
                if (n.event == XMPP_CONN_RAW_CONNECT && !raw_opened) {
                    raw_opened = true;
                    xmpp_conn_open_stream_default(c.conn);
                }
                if (n.event == XMPP_CONN_CONNECT)
                    break;
            }
            if ((size_t)srv.count(S_OPEN) > o0 && !accepted) {
                // the stream header went to the endpoint that accepted
                sim::Sock *s = srv.sk();
                if (!s || cur < 0 || s->addr != addr(cur, at - 1) ||
                    s->port != todo[cur].port)
                    mc::fail("accept:wrong", "the stream was opened elsewhere");
                const Msg *o = nullptr;
                for (auto &m : srv.log)
                    if (m.step == S_OPEN)
                        o = &m;
                if (o && o->node.attr("to") !=
                             (kind == K_COMPONENT ? jid : domain))
                    mc::fail("accept:to", "stream opened to '%s'",
                             o->node.attr("to").c_str());
                accepted = true;
                pending = accept_due = false;
            }
            c.step(slice);
        }
        if (mc::failed())
            return;
        if (!c.connected())
            mc::fail(accepted || accept_due ? "accept:unused" : "giveup:never",
                     "neither connected nor disconnected in the end");
    }
    void down()
    {
        if (!c.disconnected()) {
            sim::Sock *s = srv.sk();
            if (s)
                s->eof = true;
            for (int i = 0; i < 8 && !c.disconnected(); i++)
                c.step(1000);
            if (!c.disconnected())
                c.run_for(4000);
        }
    }
};
static void answer(Plan &p, int n, int nprio, int nweight)
{
    p.srv_fail = false;
    for (int i = 0; i < n; i++) {
        Target t;
        t.host = strf("t%d.example.net", i);
        t.prio = mc::choose(nprio, "priority") * 10;
        t.weight = mc::choose(nweight, "weight") * 5;
        t.port = 6000 + i;
        p.srv_answer.push_back(t);
    }
}
static void lists(int n, int np, int nw, int maxaddr)
{
    sim::reset();
    Plan p;
    answer(p, mc::choose(n, "targets") + 1, np, nw);
    p.maxaddr = maxaddr;
    p.slice = mc::choose(2, "slice") ? 1000 : 100;
    p.setup();
    p.run();
    if (!mc::failed() && mc::deviate(2, "again")) {
        p.down();
        p.run();
    }
}
// sort keys only: every endpoint refuses
static void order(int n)
{
    sim::reset();
    Plan p;
    static const int V[] = {0, 1, 255, 256, 32768, 65535};
    p.srv_fail = false;
    for (int i = 0; i < n; i++) {
        Target t;
        t.host = strf("t%d.example.net", i);
        t.prio = V[mc::choose(n > 3 ? 3 : 6, "priority")];
        t.weight = V[mc::choose(n > 3 ? 3 : 6, "weight")];
        t.port = V[i + 1];
        p.srv_answer.push_back(t);
    }
    p.maxaddr = 0;
    p.dev = false;
    p.setup();
    // one address each that refuses
    p.prepare();
    for (auto &t : p.todo)
        t.naddr = 1;
    sim::W->on_connect = [&](const std::string &a, int pt) {
        for (size_t i = 0; i < p.todo.size(); i++)
            if (a == p.addr(i, 0)) {
                if (!p.todo[i].open || !p.best(p.todo[i]))
                    mc::fail("candidate:order", "%s prio %d weight %d too early",
                             p.todo[i].host.c_str(), p.todo[i].prio,
                             p.todo[i].weight);
                if (pt != p.todo[i].port)
                    mc::fail("candidate:port", "port %d", pt);
                p.todo[i].open = false;
            }
        return sim::C_REFUSED_SYNC;
    };
    int r = p.c.connect(nullptr, 0);
    if (r == XMPP_EOK)
        mc::fail("giveup:never", "connect succeeded");
    for (auto &t : p.todo)
        if (t.open)
            mc::fail("giveup:early", "%s was not tried", t.host.c_str());
}
// many targets, many addresses, one accepts or none
static void many()
{
    sim::reset();
    Plan p;
    int n = 1 + mc::choose(3, "targets") * 9;
    p.srv_fail = false;
    for (int i = 0; i < n; i++) {
        Target t;
        t.host = strf("t%d.example.net", i);
        t.prio = i * 7 % 5;
        t.weight = i * 11 % 4;
        t.port = 6000 + i;
        p.srv_answer.push_back(t);
    }
    int na = mc::choose(4, "addresses each") * 2;
    int ok = mc::choose(n + 1, "accepting");
    int kind = mc::choose(3, "failure");
    if (kind < 2)
        sim::W->refused = errnos[mc::choose(6, "errno")];
    p.setup();
    p.prepare();
    for (auto &t : p.todo)
        t.naddr = na;
    int tried = 0;
    bool accepted = false;
    std::set<std::string> seen;
    sim::W->on_connect = [&](const std::string &a, int) {
        if (accepted)
            mc::fail("candidate:after-accept", "connects to %s", a.c_str());
        if (!seen.insert(a).second)
            mc::fail("candidate:twice", "connects to %s again", a.c_str());
        tried++;
        if (ok < n && na && a == p.addr(ok, na - 1)) {
            accepted = true;
            return sim::C_OK;
        }
        return kind == 0   ? sim::C_REFUSED_SYNC
               : kind == 1 ? sim::C_REFUSED
                           : sim::C_SILENT;
    };
    int r = p.c.connect(nullptr, 0);
    if (r == XMPP_EOK)
        p.c.run_for(6100ull * (n * na + 2));
    if (ok < n && na) {
        if (!accepted || !p.c.connected())
            mc::fail("giveup:early", "%d of %d addresses tried, the one of target %d "
                                     "that accepts was not used",
                     tried, n * na, ok);
    } else if (tried != n * na)
        mc::fail("giveup:early", "%d of %d addresses tried", tried, n * na);
    else if (!p.c.disconnected())
        mc::fail("giveup:never", "still not disconnected");
}
// explicit hosts, ports, modes
static void modes()
{
    sim::reset();
    Plan p;
    p.kind = (Kind)mc::choose(4, "mode");
    if (p.kind == K_COMPONENT) {
        p.jid = "comp.example.org";
        p.domain = "comp.example.org";
    }
    int s = mc::choose(3, "SRV");
    if (s == 1)
        answer(p, 2, 2, 1);
    if (s == 2)
        p.srv_fail = false; // an empty answer
    if (p.kind == K_COMPONENT || mc::choose(2, "host"))
        p.host = "explicit.example.com";
    static const int ports[] = {0, 1, 7777, 65535, 5222, 5223};
    p.port = ports[mc::choose(6, "port")];
    p.bypass = p.kind == K_SSL || p.kind == K_COMPONENT;
    if (mc::choose(2, "resource"))
        if (p.kind != K_COMPONENT)
            p.jid += "/res@x";
    p.setup();
    p.run();
    if (!mc::failed() && mc::choose(2, "again")) {
        p.down();
        p.run();
    }
}
// the application's socket option callback refuses a candidate
static Plan *g_plan;
static int sockopt(xmpp_conn_t *, void *)
{
    return g_plan->ncb++ == g_plan->cb_fail_at ? -1 : 0;
}
static void options()
{
    sim::reset();
    Plan p;
    g_plan = &p;
    int n = mc::choose(3, "targets") + 1;
    p.cb_fail_at = mc::choose(4, "refused by the callback");
    p.srv_fail = false;
    for (int i = 0; i < n; i++) {
        Target t;
        t.host = strf("t%d.example.net", i);
        t.prio = i;
        t.weight = 0;
        t.port = 6000 + i;
        p.srv_answer.push_back(t);
    }
    p.setup();
    p.prepare();
    for (auto &t : p.todo)
        t.naddr = 2;
    xmpp_conn_set_sockopt_callback(p.c.conn, sockopt);
    int k = mc::choose(3, "failure");
    if (k < 2)
        sim::W->refused = errnos[mc::choose(6, "errno")];
    std::vector<std::string> want, got;
    for (int i = 0, j = 0; i < n; i++)
        for (int a = 0; a < 2; a++, j++)
            if (j != p.cb_fail_at)
                want.push_back(p.addr(i, a));
    sim::W->on_connect = [&](const std::string &a, int) {
        got.push_back(a);
        return k == 0 ? sim::C_REFUSED_SYNC : k == 1 ? sim::C_REFUSED : sim::C_SILENT;
    };
    uint64_t t0 = sim::now_ms();
    int r = p.c.connect(nullptr, 0);
    if (r == XMPP_EOK)
        p.c.run_for(5100 * 8);
    if (got != want) {
        std::string s;
        for (auto &x : got)
            s += " " + x;
        mc::fail("candidate:order", "tried%s", s.c_str());
    } else if (!p.c.disconnected())
        mc::fail("giveup:never", "still not disconnected");
    else if (k == 1 && sim::now_ms() > t0 + 5100 * 8 + 5000)
        mc::fail("candidate:late", "too slow");
    // the refused candidate takes no time
    if (k == 1 && !mc::failed() && p.c.notes.size() &&
        p.c.notes.back().t > t0 + 4000)
        mc::fail("candidate:late", "a refused socket was waited for");
}
void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("lists", [T]() { lists(T ? 3 : 2, 2, 2, 2); }, 2, 3);
    mc::add("lists3", []() { lists(3, 2, 2, 1); }, 1, 2);
    mc::add("order2", []() { order(2); }, 0);
    mc::add("order4", []() { order(4); }, 0);
    if (T)
        mc::add("order3", []() { order(3); }, 0);
    mc::add("many", []() { many(); }, 0);
    mc::add("modes", []() { modes(); }, 1, 3);
    mc::add("options", []() { options(); }, 0);
}
