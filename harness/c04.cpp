// C04: stream management never loses, duplicates or misnumbers stanzas.
#include "sm.h"
using namespace smx;

// what the next connection's negotiation looks like
static void plan(Sm &m, bool deep)
{
    struct O {
        int kind;
        uint32_t h;
    };
    std::vector<O> o;
    for (uint32_t h = m.base; (int32_t)(h - m.W()) <= 0; h++)
        o.push_back({0, h}); // resumed
    o.push_back({1, 0});     // item-not-found
    for (uint32_t h = m.base; (int32_t)(h - m.W()) <= 0; h++)
        o.push_back({2, h}); // item-not-found with h
    o.push_back({3, 0});     // feature-not-implemented
    o.push_back({4, 0});     // no cause
    size_t common = o.size();
    o.push_back({5, 0}); // other cause
    o.push_back({6, 0}); // no stream management offered
    o.push_back({7, 0}); // failed, then <enable/> refused
    o.push_back({8, 0}); // failed, then not resumable
    o.push_back({9, m.W() + 1}); // resumed with more than was sent
    o.push_back({10, m.W()});    // other cause, with h
    o.push_back({11, 0}); // connection lost instead of the answer
    o.push_back({12, 0}); // failed, connection lost instead of <enabled/>
    int k;
    if (deep)
        k = mc::choose(o.size(), "resumption outcome");
    else {
        k = mc::choose(common + 1, "resumption outcome");
        if (k == (int)common)
            k = common + mc::deviate(o.size() - common, "unusual outcome");
    }
    O p = o[k];
    m.srv.cfg.sm = p.kind != 6;
    m.on_enable = nullptr;
    if (p.kind == 6 || p.kind == 7)
        m.on_enable = [](Sm &x, Msg &) {
            x.sm_off = true;
            x.nw = 0;
            x.srv.send("<failed xmlns='" NS_SM_ "'/>");
        };
    if (p.kind == 8)
        m.on_enable = [](Sm &x, Msg &) { x.enabled(""); };
    if (p.kind == 12)
        m.on_enable = [](Sm &x, Msg &) { x.srv.close(); };
    m.on_resume = [p](Sm &x, Msg &q) {
        if (q.node.attr("previd") != x.bound_id) {
            mc::fail("out:previd", "resumes \"%s\", the session is \"%s\"",
                     q.node.attr("previd").c_str(), x.bound_id.c_str());
            return;
        }
        const char *inf = "<item-not-found xmlns='" NS_STANZAS_ "'/>";
        const char *fni = "<feature-not-implemented xmlns='" NS_STANZAS_ "'/>";
        const char *oth = "<unexpected-request xmlns='" NS_STANZAS_ "'/>";
        switch (p.kind) {
        case 0:
        case 9:
            x.resumed(p.h);
            break;
        case 2:
            x.failed(inf, std::to_string(p.h));
            break;
        case 3:
            x.failed(fni, "");
            break;
        case 4:
            x.failed("", "");
            break;
        case 5:
            x.failed(oth, "");
            break;
        case 10:
            x.failed(oth, std::to_string(p.h));
            break;
        case 11:
            x.srv.close();
            break;
        default:
            x.failed(inf, "");
            break;
        }
    };
    if (p.kind == 6) {
        m.sm_off = true; // set again after connect() clears it
    }
}
// connect with the planned outcome; the transport takes `limit` bytes after the
// session is there (-1: all)
static void connect(Sm &m, long limit)
{
    bool off = !m.srv.cfg.sm;
    m.U.clear();
    m.active = m.sm_off = false;
    m.r_exp.clear();
    // sends may only be limited once the negotiation is over
    if (limit >= 0) {
        auto r = m.on_resume, e = m.on_enable;
        m.on_resume = [r, limit](Sm &x, Msg &q) {
            r(x, q);
            if (x.active)
                x.budget = limit;
        };
        m.on_enable = [e, limit](Sm &x, Msg &q) {
            if (e)
                e(x, q);
            else
                x.enabled(strf(" id='sm%d' resume='true'", ++x.srv.sm_serial));
            x.budget = limit;
        };
    }
    int r = m.c->connect("h", 5222);
    if (r != XMPP_EOK) {
        mc::fail("harness:connect", "connect failed: %d", r);
        return;
    }
    m.budget = -1;
    if (off)
        m.sm_off = true;
    m.c->settle(40);
    if (Sock *s = m.srv.sk())
        m.srv.pump(*s);
    if (!m.up() && !m.c->disconnected())
        mc::fail("out:stuck", "the negotiation does not go on");
}
static long limits(Sm &m, bool free_)
{
    // everything, nothing, one element and a part of the next
    int k = free_ ? mc::choose(4, "transport takes") : mc::deviate(4, "transport takes");
    static const long v[] = {-1, 0, 20, 45};
    (void)m;
    return v[k];
}
static void sends(Sm &m, int n)
{
    for (int i = 0; i < n; i++)
        m.send(i & 1);
}
static void history(int rounds, bool deep)
{
    Sm m;
    m.acct_in = false;
    m.connect();
    for (int r = 0; r < rounds && !mc::failed(); r++) {
        if (m.up()) {
            int n = mc::choose(r == 0 ? 4 : 3, "sends");
            sends(m, n);
            if (n) {
                m.budget = limits(m, r == 0);
                m.step();
                m.check("after sending");
            }
            if (m.active && m.nw) {
                int a = mc::choose(m.nw + 1, "acknowledged");
                if (a) {
                    m.ack(m.base + a);
                    m.step();
                    m.check("after an acknowledgement");
                }
            }
            m.budget = 0;
            if (r == 0 && mc::choose(2, "leave one unsent")) {
                m.send();
                m.check("after queueing");
            }
            if (m.up())
                m.lose(mc::deviate(Sm::NLOSE, "end"));
        }
        if (mc::failed())
            break;
        int how = mc::deviate(3, "reconnect");
        if (how == Sm::RESTORE && !m.have_blob)
            how = 0;
        m.again(how);
        plan(m, deep);
        long lim = limits(m, false);
        connect(m, lim);
        if (mc::failed())
            break;
        m.check("after the reconnect");
    }
    if (!mc::failed() && m.up()) {
        m.drain("in the end");
        if (!mc::failed() && m.up()) {
            m.send();
            m.drain("after one more");
        }
        if (!mc::failed() && m.up() && m.active && m.nw) {
            m.ack(m.W());
            m.step();
            m.check("after the last acknowledgement");
        }
    } else if (!mc::failed()) {
        // a regular reconnect must bring everything
        m.on_resume = nullptr;
        m.on_enable = nullptr;
        m.srv.cfg.sm = true;
        connect(m, -1);
        m.drain("after a final reconnect");
    }
}
// one session, all sequences of events
static void session(int depth)
{
    Sm m;
    m.acct_in = false;
    m.connect();
    m.budget = 0;
    for (int i = 0; i < depth && !mc::failed() && m.up(); i++) {
        switch (mc::choose(9, "event")) {
        case 0:
            m.send(i & 1);
            break;
        case 1:
            m.budget = -1;
            m.step();
            m.budget = 0;
            break;
        case 2: // takes one element and part of the next
            m.budget = 20 + mc::choose(2, "takes") * 26;
            m.step();
            m.budget = 0;
            break;
        case 3:
            m.ack(m.W());
            m.step();
            break;
        case 4: // one of them
            m.ack(m.nw ? m.base + 1 : m.base);
            m.step();
            break;
        case 5: // an old one
            m.ack(m.base);
            m.step();
            break;
        case 6:
            m.drop(XMPP_QUEUE_OLDEST);
            break;
        case 7:
            m.drop(XMPP_QUEUE_YOUNGEST);
            break;
        case 8:
            m.request();
            m.step();
            break;
        }
        m.check("after an event");
    }
    if (mc::failed() || !m.up())
        return;
    m.drain("in the end");
    uint32_t w = m.W(), b = m.base;
    m.lose(0);
    int back = mc::choose(2, "resumption");
    uint32_t h = back ? w : b;
    m.on_resume = [h](Sm &x, Msg &) { x.resumed(h); };
    connect(m, -1);
    m.drain("after resumption");
}
// acknowledgements that acknowledge nothing
static void odd_ack()
{
    Sm m;
    m.acct_in = false;
    m.connect();
    sends(m, 2);
    m.step();
    m.check("after sending");
    static const char *odd[] = {"",           " h=''",       " h='abc'",
                                " h='-1'",    " h='1x'",     " h='99999999999999999999'",
                                " h='0x2'",   " h='4294967296'", " h='+'",
                                " x='2'",     " h='18446744073709551615'"};
    int k = mc::choose(11, "h");
    m.ack_raw(odd[k]);
    m.step();
    if (m.up()) {
        m.check("after an acknowledgement without a number");
        int more = mc::choose(3, "then");
        sends(m, more);
        m.step();
        m.check("after more");
        m.ack(1);
        m.step();
        m.check("after acknowledging one");
        m.lose(0);
    }
    plan(m, true);
    connect(m, -1);
    if (m.up())
        m.drain("after the reconnect");
}
// numbers around 2^32
static void wrap(int rounds)
{
    Sm m;
    m.acct_in = false;
    Blob b;
    b.id = "sm1";
    m.srv.sm_serial = 1;
    m.bound_id = "sm1";
    uint32_t start[] = {0xfffffffdu, 0xffffffffu, 0x7ffffffeu, 0u, 0xfffffffeu};
    m.base = start[mc::choose(5, "start")];
    int n = mc::choose(3, "retained");
    for (int i = 0; i < n; i++) {
        BlobEl e;
        e.text = m.el(++m.serial);
        e.h = m.base + i;
        b.unacked.push_back(e);
        m.L.push_back(e.text);
    }
    m.nw = n;
    b.sent = m.base + n;
    std::string s = build_blob(b);
    int r = xmpp_conn_restore_sm_state(m.c->conn, (const unsigned char *)s.data(),
                                       s.size());
    if (r != XMPP_EOK) {
        mc::fail("restore:refused", "restore: %d", r);
        return;
    }
    for (int i = 0; i < rounds && !mc::failed(); i++) {
        plan(m, false);
        connect(m, limits(m, false));
        if (mc::failed() || !m.up())
            break;
        m.check("after the reconnect");
        sends(m, mc::choose(4, "sends"));
        m.budget = -1;
        m.step();
        m.check("after sending");
        if (m.active && m.nw) {
            int a = mc::choose(m.nw + 1, "acknowledged");
            if (a) {
                m.ack(m.base + a);
                m.step();
                m.check("after an acknowledgement");
            }
        }
        if (m.up())
            m.lose(0);
    }
    if (mc::failed() || m.up())
        return;
    m.on_resume = nullptr;
    m.on_enable = nullptr;
    m.srv.cfg.sm = true;
    connect(m, -1);
    m.drain("after a final reconnect");
}
void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("session", [T]() { session(T ? 7 : 5); }, 0);
    mc::add("reconnect", []() { history(1, true); }, 3, 4);
    mc::add("history", [T]() { history(2, T); }, 1, 2);
    mc::add("odd-ack", []() { odd_ack(); }, 0);
    mc::add("wrap", [T]() { wrap(T ? 2 : 1); }, 2, 2);
    if (T)
        mc::add("history3", []() { history(3, false); }, 0, 1);
}
