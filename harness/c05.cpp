// C05: the inbound count of stream management is exact.
#include "sm.h"
using namespace smx;

static const char *R = "<r xmlns='" NS_SM_ "'/>";
struct In {
    const char *xml;
    int n; // stanzas
    int r; // requests, after the stanzas before them
};
// what a server may send; %d is replaced
static const In ALL[] = {
    {"<message id='x'><body>b</body></message>", 1, 0},
    {"<r xmlns='" NS_SM_ "'/>", 0, 1},
    {"<presence/>", 1, 0},
    {"<iq type='get' id='q'><ping xmlns='urn:xmpp:ping'/></iq>", 1, 0},
    {"<a xmlns='" NS_SM_ "' h='0'/>", 0, 0},
    // a stanza that carries stream-management elements
    {"<message><r xmlns='" NS_SM_ "'/></message>", 1, 0},
    {"<message xmlns='jabber:client'><a xmlns='" NS_SM_ "' h='9'/></message>", 1, 0},
    {"<iq type='result' id='_xmpp_bind1'><bind xmlns='" NS_BIND_ "'/></iq>", 1, 0},
    {"<iq type='error' id='e'/>", 1, 0},
    {"<presence type='unavailable'> \n </presence>", 1, 0},
    {" \n", 0, 0}, // keep-alive
    {"<c:message xmlns:c='jabber:client'/>", 1, 0},
    {"<s:r xmlns:s='" NS_SM_ "'/>", 0, 1},
    {"<r xmlns='" NS_SM_ "'> </r>", 0, 1},
    {"<!-- x -->", 0, 0},
};
static const int NALL = sizeof ALL / sizeof *ALL;

static void give(Sm &m, const In &i)
{
    m.in += i.n;
    if (i.r)
        m.r_exp.push_back(m.in);
    m.srv.send(i.xml);
}
// several elements in one piece, cut into pieces of `cut` bytes
static void give_many(Sm &m, const std::vector<int> &v, int cut)
{
    std::string all;
    for (int k : v) {
        m.in += ALL[k].n;
        if (ALL[k].r)
            m.r_exp.push_back(m.in);
        all += ALL[k].xml;
    }
    if (cut <= 0)
        m.srv.send(all);
    else
        m.srv.send_chunks(bytes_of(all, cut));
}
static void run(Sm &m, int n = 40)
{
    m.c->settle(n);
    if (Sock *s = m.srv.sk())
        m.srv.pump(*s);
}
static int cb_delete(xmpp_conn_t *, xmpp_stanza_t *, void *) { return 0; }
static int cb_keep(xmpp_conn_t *, xmpp_stanza_t *, void *) { return 1; }
static int cb_reply(xmpp_conn_t *c, xmpp_stanza_t *s, void *u)
{
    (void)s;
    Sm *m = (Sm *)u;
    if (xmpp_conn_is_connected(c)) {
        m->U.push_back("<message id='reply'/>");
        xmpp_send_raw_string(c, "%s", "<message id='reply'/>");
    }
    return 1;
}
static void handlers(Sm &m, int k)
{
    xmpp_conn_t *c = m.c->conn;
    switch (k) {
    case 1:
        xmpp_handler_add(c, cb_delete, nullptr, "message", nullptr, &m);
        xmpp_id_handler_add(c, cb_delete, "q", &m);
        break;
    case 2:
        xmpp_handler_add(c, cb_keep, nullptr, nullptr, nullptr, &m);
        xmpp_handler_add(c, cb_keep, NS_SM_, nullptr, nullptr, &m);
        xmpp_id_handler_add(c, cb_keep, "x", &m);
        break;
    case 3:
        xmpp_handler_add(c, cb_reply, nullptr, "iq", nullptr, &m);
        break;
    }
}
static void lose_and_resume(Sm &m, bool unusual)
{
    // elements that never arrived
    int inflight = mc::choose(2, "in flight");
    if (inflight)
        m.srv.sk()->in.clear();
    // a part of a stanza was read
    if (mc::choose(2, "half a stanza")) {
        m.srv.send("<message><body>ha");
        m.c->step(0);
    }
    m.lose(unusual ? mc::deviate(3, "end") : 0);
    int how = mc::deviate(3, "reconnect");
    if (how == Sm::RESTORE && !m.have_blob)
        how = 0;
    m.again(how);
    m.U.clear();
    m.active = m.sm_off = false;
    m.r_exp.clear();
    int k = mc::deviate(3, "resumption");
    m.on_resume = nullptr;
    if (k == 1)
        m.on_resume = [](Sm &x, Msg &) {
            x.failed("<item-not-found xmlns='" NS_STANZAS_ "'/>", "");
        };
    if (k == 2) {
        // lost before the answer, then once more
        m.on_resume = [](Sm &x, Msg &) { x.srv.close(); };
        m.connect();
        m.on_resume = nullptr;
    }
    int before = m.n_resume;
    m.connect();
    if (!mc::failed() && m.n_resume == before)
        mc::fail("in:no-resume", "the session was not resumed");
}
static void finish(Sm &m)
{
    if (mc::failed() || !m.up())
        return;
    m.r_exp.push_back(m.in);
    m.srv.send(R);
    run(m);
    m.drain("in the end");
}
// every sequence of elements, with reconnects
static void seq(int depth, int kinds, bool unusual)
{
    Sm m;
    handlers(m, unusual ? mc::deviate(4, "handlers") : 0);
    m.connect();
    for (int i = 0; i < depth && !mc::failed() && m.up(); i++) {
        int k = mc::choose(kinds + 1, "element");
        if (k < kinds) {
            give(m, ALL[k]);
            if (mc::deviate(2, "read later") == 0)
                run(m);
        } else {
            run(m);
            lose_and_resume(m, unusual);
        }
        run(m);
        if (m.up())
            m.check("after an element");
    }
    finish(m);
}
// several elements at once, every chunk size
static void chunks(int n)
{
    Sm m;
    m.connect();
    std::vector<int> v;
    for (int i = 0; i < n; i++)
        v.push_back(mc::choose(NALL, "element"));
    static const int cuts[] = {0, 1, 2, 7, 23};
    give_many(m, v, cuts[mc::choose(5, "cut")]);
    run(m, 900);
    m.check("after the elements");
    finish(m);
}
// one chunk boundary at every place
static void cut2()
{
    Sm m;
    m.connect();
    std::vector<int> v{0, 1, 3, 1, 5, 1};
    std::string all;
    for (int k : v)
        all += ALL[k].xml;
    int at = mc::choose(all.size() - 1, "cut") + 1;
    int l = mc::choose(3, "then");
    for (int k : v) {
        m.in += ALL[k].n;
        if (ALL[k].r)
            m.r_exp.push_back(m.in);
    }
    m.srv.send_chunks({all.substr(0, at)});
    if (l == 0)
        run(m);
    if (l == 2) {
        // the rest never arrives
        run(m);
        m.in = 0;
        size_t p = 0;
        for (int k : v) {
            p += strlen(ALL[k].xml);
            if (p <= (size_t)at)
                m.in += ALL[k].n;
        }
        m.check("after the first part");
        m.r_exp.clear();
        m.lose(0);
        m.connect();
    } else {
        m.srv.send_chunks({all.substr(at)});
        run(m);
        m.check("after both parts");
    }
    finish(m);
}
// answers wait for the transport
static void pressure(int depth)
{
    Sm m;
    m.connect();
    m.budget = 0;
    for (int i = 0; i < depth && m.up() && !mc::failed(); i++) {
        switch (mc::choose(5, "event")) {
        case 0:
            give(m, ALL[0]);
            m.step();
            break;
        case 1:
            give(m, ALL[1]);
            m.step();
            break;
        case 2:
            m.budget = 15;
            m.step();
            m.budget = 0;
            break;
        case 3:
            m.budget = -1;
            m.step();
            m.budget = 0;
            break;
        case 4:
            m.send();
            break;
        }
    }
    m.budget = -1;
    run(m);
    finish(m);
}
// before, in between and at the end of a session
static void edges()
{
    Sm m;
    int where = mc::choose(6, "where");
    int what = mc::choose(4, "what");
    static const int kinds[] = {0, 2, 3, 5};
    const In &e = ALL[kinds[what]];
    if (where == 0) // before <enabled/>
        m.on_enable = [&](Sm &x, Msg &) {
            x.srv.send(e.xml);
            x.enabled(" id='sm7' resume='true'");
        };
    if (where == 1) // with <enabled/>
        m.on_enable = [&](Sm &x, Msg &) {
            x.in = e.n;
            x.active = true;
            x.bound_id = "sm7";
            x.srv.send(std::string("<enabled xmlns='" NS_SM_
                                   "' id='sm7' resume='true'/>") +
                       e.xml);
        };
    m.connect();
    if (where == 1)
        m.base = 0;
    run(m);
    m.check("after enabling");
    give(m, ALL[0]);
    run(m);
    if (where == 2) { // together with the end of the connection
        m.in += e.n;
        m.srv.send(e.xml);
    }
    if (where == 4) { // a session ended by the server; it is no stanza
        m.srv.send("<stream:error><system-shutdown xmlns='" NS_STREAMERR_
                   "'/></stream:error>");
    }
    m.lose(0);
    if (where == 3) // together with <resumed/>
        m.on_resume = [&](Sm &x, Msg &) {
            x.nw = 0;
            x.active = true;
            x.in += e.n;
            x.srv.send("<resumed xmlns='" NS_SM_ "' previd='" + x.bound_id +
                       "' h='0'/>" + e.xml);
        };
    if (where == 5) // other elements that are no stanzas
        give(m, ALL[4]);
    m.connect();
    run(m);
    m.check("after resuming");
    give(m, ALL[0]);
    run(m);
    m.lose(0);
    m.on_resume = nullptr;
    m.connect();
    finish(m);
}
// counts around the limits
static void big(uint32_t start)
{
    Sm m;
    Blob b;
    b.id = "sm1";
    b.handled = start;
    m.bound_id = "sm1";
    m.in = start;
    std::string s = build_blob(b);
    if (xmpp_conn_restore_sm_state(m.c->conn, (const unsigned char *)s.data(),
                                   s.size()) != XMPP_EOK) {
        mc::fail("restore:refused", "a state was refused");
        return;
    }
    m.connect();
    for (int i = 0; i < 4 && m.up(); i++) {
        give(m, ALL[mc::choose(3, "element")]);
        run(m);
        m.check("after an element");
    }
    if (m.up()) {
        m.lose(0);
        m.connect();
    }
    finish(m);
}
// a long session
static void many()
{
    Sm m;
    int every = mc::choose(3, "requests") + 1;
    m.connect();
    for (int i = 0; i < 300 && m.up() && !mc::failed(); i++) {
        give(m, ALL[i % 4 == 1 ? 2 : i % 4 == 2 ? 3 : 0]);
        if (i % every == 0)
            give(m, ALL[1]);
        m.step();
        if (i % 97 == 96) {
            run(m);
            m.lose(0);
            m.connect();
        }
    }
    finish(m);
}
void register_scenarios()
{
    bool T = mc::thorough();
    mc::add("sequences", [T]() { seq(T ? 7 : 5, 4, false); }, 1, 1);
    mc::add("all-kinds", []() { seq(3, NALL, true); }, 1, 2);
    mc::add("chunks", [T]() { chunks(T ? 4 : 3); }, 0);
    mc::add("cut", []() { cut2(); }, 0);
    mc::add("pressure", [T]() { pressure(T ? 8 : 6); }, 0);
    mc::add("edges", []() { edges(); }, 0);
    for (uint32_t st : {0xffffffffu, 0x7fffffffu, 999999999u, 4294967290u, 0u})
        mc::add(mc::fmt("count-%u", st), [st]() { big(st); }, 0);
    mc::add("many", []() { many(); }, 0);
}
