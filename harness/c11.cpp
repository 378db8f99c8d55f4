// C11: handlers fire exactly when their filter matches, in order, and stay
// deleted; timed handlers fire no earlier than due and at the next iteration.
#include "world.h"
using namespace world;

namespace {
const char *const IDS[] = {"A", "a", "", "iq-0123456789", "_xmpp_bind1"};
const int NCB = 4, NUD = 80;
int udcell[NUD];

struct Reg {
    bool id = false;
    int cb = 0, ud = 0;
    const char *ns = nullptr, *name = nullptr, *type = nullptr;
    std::string key;
    bool alive = true;
    std::string str() const
    {
        if (id)
            return strf("id[%s] cb%d/%d", key.c_str(), cb, ud);
        return strf("handler[%s,%s,%s] cb%d/%d", ns ? ns : "*", name ? name : "*",
                    type ? type : "*", cb, ud);
    }
};
struct Timed {
    bool global = false;
    int cb = 0, ud = 0;
    uint64_t period = 0, armed = 0, late = 0;
    bool alive = true;
    int conn = 0;
    uint64_t fired = 0;
    std::string str() const
    {
        return strf("%s cb%d/%d period %llu", global ? "context-wide" : "timed", cb,
                    ud, (unsigned long long)period);
    }
};

struct T;
T *g;
int stanza_cb(int i, xmpp_conn_t *, xmpp_stanza_t *, void *);
int timed_cb(int i, xmpp_conn_t *, void *);
int global_cb(int i, xmpp_ctx_t *, void *);
template <int I> int scb(xmpp_conn_t *c, xmpp_stanza_t *s, void *u)
{
    return stanza_cb(I, c, s, u);
}
template <int I> int tcb(xmpp_conn_t *c, void *u) { return timed_cb(I, c, u); }
template <int I> int gcb(xmpp_ctx_t *c, void *u) { return global_cb(I, c, u); }
const xmpp_handler SCB[] = {scb<0>, scb<1>, scb<2>, scb<3>};
const xmpp_timed_handler TCB[] = {tcb<0>, tcb<1>, tcb<2>, tcb<3>};
const xmpp_global_timed_handler GCB[] = {gcb<0>, gcb<1>, gcb<2>, gcb<3>};

struct T {
    Client c{true};
    Server srv;
    // ---- stanza handlers
    std::vector<Reg> regs; // registration order
    std::vector<Node> stanzas;
    int cur = -1;          // stanza being dispatched
    std::vector<int> expect;
    size_t pos = 0;
    int self = -1;
    bool readded_self = false;
    std::function<int()> behave; // value returned by the callback
    // ---- timed handlers
    std::vector<Timed> timed;
    xmpp_conn_t *other = nullptr;
    bool up = false;
    int tself = -1;
    std::function<int()> tbehave;
    bool component = true;

    T()
    {
        g = this;
        srv.cfg.component = true;
        c.on_note = [this](const Note &n) {
            up = n.event == XMPP_CONN_CONNECT;
            if (up) // when the library armed it again: at the latest now
                for (auto &t : timed)
                    if (t.alive && !t.global && t.conn == 0)
                        t.late = sim::now_ms();
        };
        srv.on_send = [this](const std::string &x) {
            if (x.find("<stream:stream") != std::string::npos && srv.streams == 1)
                for (auto &t : timed)
                    if (t.alive && !t.global && t.conn == 0)
                        t.armed = t.late = sim::now_ms();
        };
    }
    ~T()
    {
        g = nullptr;
    }
    void begin_conn()
    {
        srv.cfg.component = component;
        srv.install();
        xmpp_conn_set_jid(c.conn, component ? "comp.example.org" : "u@example.org");
        xmpp_conn_set_pass(c.conn, "secret");
    }
    void connect(bool must = true)
    {
        begin_conn();
        int r = component ? c.connect_component("srv", 5347) : c.connect("srv", 5222);
        if (r != XMPP_EOK) {
            mc::fail("harness:connect", "connect: %d", r);
            return;
        }
        settle(30);
        if (!up && must)
            mc::fail("harness:connect", "the session does not come up");
    }
    void step(unsigned long to)
    {
        due_begin();
        c.step(to);
        due_end();
    }
    void settle(int max)
    {
        int quiet = 0;
        while (max-- > 0 && quiet < 2) {
            Sock *s = sim::last_sock();
            size_t o = s ? s->out_total : 0, i = s ? s->in.size() : 0;
            size_t n = c.notes.size();
            step(0);
            Sock *s2 = sim::last_sock();
            bool same = s == s2 && (!s || (s->out_total == o && s->in.size() == i)) &&
                        n == c.notes.size();
            quiet = same ? quiet + 1 : 0;
        }
    }
    // ---------------------------------------------------------- registrations
    void add(int cb, int ud, const char *ns, const char *name, const char *type)
    {
        mc::trace("  add handler cb%d/%d [%s,%s,%s]", cb, ud, ns ? ns : "*",
                  name ? name : "*", type ? type : "*");
        xmpp_handler_add(c.conn, SCB[cb], ns, name, type, &udcell[ud]);
        for (auto &r : regs)
            if (r.alive && !r.id && r.cb == cb && r.ud == ud)
                return;
        Reg r;
        r.cb = cb;
        r.ud = ud;
        r.ns = ns;
        r.name = name;
        r.type = type;
        regs.push_back(r);
        if (self >= 0 && !regs[self].id && regs[self].cb == cb && regs[self].ud == ud)
            readded_self = true;
    }
    void addid(int cb, int ud, const char *id)
    {
        mc::trace("  add id handler cb%d/%d [%s]", cb, ud, id);
        xmpp_id_handler_add(c.conn, SCB[cb], id, &udcell[ud]);
        for (auto &r : regs)
            if (r.alive && r.id && r.cb == cb && r.ud == ud && r.key == id)
                return;
        Reg r;
        r.id = true;
        r.cb = cb;
        r.ud = ud;
        r.key = id;
        regs.push_back(r);
        if (self >= 0 && regs[self].id && regs[self].cb == cb &&
            regs[self].ud == ud && regs[self].key == id)
            readded_self = true;
    }
    void del(int cb)
    {
        mc::trace("  delete handler cb%d", cb);
        xmpp_handler_delete(c.conn, SCB[cb]);
        for (auto &r : regs)
            if (!r.id && r.cb == cb)
                r.alive = false;
    }
    void delid(int cb, const char *id)
    {
        mc::trace("  delete id handler cb%d [%s]", cb, id);
        xmpp_id_handler_delete(c.conn, SCB[cb], id);
        for (auto &r : regs)
            if (r.id && r.cb == cb && r.key == id)
                r.alive = false;
    }
    // -------------------------------------------------------------- dispatch
    static bool match(const Reg &r, const Node &s)
    {
        if (r.id)
            return s.has("id") && s.attr("id") == r.key;
        if (r.name && s.name != r.name)
            return false;
        if (r.type && !(s.has("type") && s.attr("type") == r.type))
            return false;
        if (r.ns) {
            bool ok = s.ns == r.ns;
            for (auto &k : s.kids)
                if (!k.text && k.ns == r.ns)
                    ok = true;
            if (!ok)
                return false;
        }
        return true;
    }
    void begin(int n)
    {
        expect.clear();
        pos = 0;
        cur = n;
        for (int id = 1; id >= 0; id--)
            for (size_t i = 0; i < regs.size(); i++)
                if (regs[i].alive && regs[i].id == (id == 1) &&
                    match(regs[i], stanzas[n]))
                    expect.push_back(i);
    }
    void end()
    {
        if (cur < 0)
            return;
        while (pos < expect.size() && !regs[expect[pos]].alive)
            pos++;
        if (pos < expect.size())
            mc::fail("stanza:missed", "%s is not called for stanza %d: %s",
                     regs[expect[pos]].str().c_str(), cur,
                     stanzas[cur].str().c_str());
    }
    void upto(int n) // stanzas before n have been dispatched
    {
        while (cur < n && !mc::failed()) {
            end();
            begin(cur + 1);
        }
    }
    int on_stanza(int cb, int ud, xmpp_stanza_t *st)
    {
        const char *ns = xmpp_stanza_get_attribute(st, "n");
        if (!ns)
            return 1; // not one of ours (negotiation)
        int n = atoi(ns);
        mc::trace("  == cb%d/%d called for stanza %d", cb, ud, n);
        if (n < cur || n >= (int)stanzas.size()) {
            mc::fail("stanza:stale", "cb%d/%d called for stanza %d after stanza %d",
                     cb, ud, n, cur);
            return 1;
        }
        upto(n);
        if (mc::failed())
            return 1;
        while (pos < expect.size() && !regs[expect[pos]].alive)
            pos++;
        if (pos >= expect.size() || regs[expect[pos]].cb != cb ||
            regs[expect[pos]].ud != ud) {
            std::string why = "stanza:unexpected";
            for (size_t i = pos; i < expect.size(); i++)
                if (regs[expect[i]].cb == cb && regs[expect[i]].ud == ud &&
                    regs[expect[i]].alive)
                    why = "stanza:order";
            if (why == "stanza:unexpected") {
                bool dead = false, live = false, m = false;
                for (auto &r : regs)
                    if (r.cb == cb && r.ud == ud) {
                        (r.alive ? live : dead) = true;
                        if (r.alive && match(r, stanzas[n]))
                            m = true;
                    }
                why = !live && dead ? "stanza:after-delete"
                      : live && !m  ? "stanza:filter"
                                    : "stanza:added-or-twice";
            }
            mc::fail(why, "cb%d/%d is called for %s; next in turn is %s", cb, ud,
                     stanzas[n].str().c_str(),
                     pos < expect.size() ? regs[expect[pos]].str().c_str()
                                         : "nothing");
            return 1;
        }
        Node got = node_of(st);
        if (got.str() != stanzas[n].str() && got.attrs != stanzas[n].attrs)
            mc::fail("stanza:other", "the handler of stanza %d is given %s", n,
                     got.str().c_str());
        int me = expect[pos++];
        int old = self;
        self = me;
        readded_self = false;
        int ret = behave ? behave() : 1;
        if (readded_self)
            ret = 1; // deleted and registered again: it shall stay
        self = old;
        if (!ret) {
            mc::trace("  == returns false");
            regs[me].alive = false;
        }
        return ret;
    }
    // stanza with attributes; n='..' identifies it
    std::string stanza(const std::string &name, const std::string &attrs,
                       const std::string &body)
    {
        std::string x = strf("<%s n='%d' %s>%s</%s>", name.c_str(),
                             (int)stanzas.size(), attrs.c_str(), body.c_str(),
                             name.c_str());
        Node n;
        const char *dn = component ? "jabber:component:accept" : "jabber:client";
        if (!xml_parse_one(x, n, dn))
            mc::fail("harness:xml", "%s", x.c_str());
        stanzas.push_back(n);
        return x;
    }
    void flush() // everything sent so far has been dispatched
    {
        if (!mc::failed()) {
            upto((int)stanzas.size() - 1);
            end();
        }
    }
    void finish()
    {
        flush();
        if (other)
            xmpp_conn_release(other);
        mc::state(mc::fnv(strf("%zu %zu %d", regs.size(), timed.size(), cur)));
        c.release();
        if (c.al)
            c.al->report_leaks("leak");
    }
    // ---------------------------------------------------------- timed handlers
    void tadd(bool global, int cb, int ud, uint64_t period, int conn = 0)
    {
        mc::trace("  t=%llu add %s cb%d/%d period %llu",
                  (unsigned long long)sim::now_ms(), global ? "context-wide" : "timed",
                  cb, ud, (unsigned long long)period);
        if (global)
            xmpp_global_timed_handler_add(c.ctx, GCB[cb], period, &udcell[ud]);
        else
            xmpp_timed_handler_add(conn ? other : c.conn, TCB[cb], period,
                                   &udcell[ud]);
        for (auto &t : timed)
            if (t.alive && t.global == global && t.cb == cb && t.ud == ud &&
                t.conn == conn)
                return;
        Timed t;
        t.global = global;
        t.cb = cb;
        t.ud = ud;
        t.period = period;
        t.armed = t.late = sim::now_ms();
        t.conn = conn;
        timed.push_back(t);
        if (tself >= 0 && timed[tself].global == global && timed[tself].cb == cb &&
            timed[tself].ud == ud && timed[tself].conn == conn)
            readded_self = true;
    }
    void tdel(bool global, int cb)
    {
        mc::trace("  delete %s cb%d", global ? "context-wide" : "timed", cb);
        if (global)
            xmpp_global_timed_handler_delete(c.ctx, GCB[cb]);
        else
            xmpp_timed_handler_delete(c.conn, TCB[cb]);
        for (auto &t : timed)
            if (t.global == global && t.cb == cb && t.conn == 0)
                t.alive = false;
    }
    struct Due {
        size_t i;
        uint64_t fired;
    };
    std::vector<Due> due;
    bool was_up = false;
    size_t notes0 = 0;
    void due_begin()
    {
        due.clear();
        was_up = up;
        notes0 = c.notes.size();
        for (size_t i = 0; i < timed.size(); i++) {
            Timed &t = timed[i];
            if (t.alive && (t.global || (up && t.conn == 0)) &&
                sim::now_ms() - t.late >= t.period)
                due.push_back({i, t.fired});
        }
    }
    void due_end()
    {
        for (auto &d : due) {
            Timed &t = timed[d.i];
            if (t.fired == d.fired && t.alive &&
                (t.global || notes0 == c.notes.size()))
                mc::fail("timed:missed",
                         "%s was due at the beginning of the iteration and did "
                         "not fire (armed %llu, now %llu)",
                         t.str().c_str(), (unsigned long long)t.late,
                         (unsigned long long)sim::now_ms());
        }
    }
    int on_timed(bool global, int cb, int ud, xmpp_conn_t *conn)
    {
        uint64_t now = sim::now_ms();
        int cn = !global && conn == other && other ? 1 : 0;
        mc::trace("  == t=%llu %s cb%d/%d fires", (unsigned long long)now,
                  global ? "context-wide" : "timed", cb, ud);
        int me = -1;
        bool ever = false;
        for (size_t i = 0; i < timed.size(); i++)
            if (timed[i].global == global && timed[i].cb == cb &&
                timed[i].ud == ud && timed[i].conn == cn) {
                ever = true;
                if (timed[i].alive)
                    me = i;
            }
        if (me < 0) {
            mc::fail(ever ? "timed:after-delete" : "timed:unknown",
                     "%s cb%d/%d fires although it is not registered",
                     global ? "context-wide" : "timed", cb, ud);
            return 1;
        }
        Timed &t = timed[me];
        if (!global && (cn || !up || !xmpp_conn_is_connected(c.conn))) {
            mc::fail("timed:not-connected",
                     "%s fires while its connection is not connected",
                     t.str().c_str());
            return 1;
        }
        if (now - t.armed < t.period)
            mc::fail("timed:early", "%s fires at %llu, armed at %llu",
                     t.str().c_str(), (unsigned long long)now,
                     (unsigned long long)t.armed);
        t.armed = t.late = now;
        t.fired++;
        int old = tself;
        tself = me;
        readded_self = false;
        int ret = tbehave ? tbehave() : 1;
        if (readded_self)
            ret = 1;
        tself = old;
        if (!ret) {
            mc::trace("  == returns false");
            timed[me].alive = false;
        }
        return ret;
    }
};
int udof(void *u) { return (int *)u - udcell; }
int stanza_cb(int i, xmpp_conn_t *c, xmpp_stanza_t *s, void *u)
{
    if (c != g->c.conn)
        mc::fail("stanza:conn", "called with another connection");
    return g->on_stanza(i, udof(u), s);
}
int timed_cb(int i, xmpp_conn_t *c, void *u)
{
    return g->on_timed(false, i, udof(u), c);
}
int global_cb(int i, xmpp_ctx_t *c, void *u)
{
    if (c != g->c.ctx)
        mc::fail("timed:ctx", "called with another context");
    return g->on_timed(true, i, udof(u), nullptr);
}

// ------------------------------------------------------------------ filters
// every filter against every stanza
void filters()
{
    sim::reset();
    T t;
    t.component = mc::choose(2, "component");
    const char *own = t.component ? "jabber:component:accept" : "jabber:client";
    const char *nss[] = {nullptr, own, "urn:a", "urn:b"};
    const char *names[] = {nullptr, "message", "iq", "x"};
    const char *types[] = {nullptr, "chat", "result", ""};
    int off = mc::choose(8, "first registration");
    bool before = mc::choose(2, "registered before the connection");
    auto regall = [&]() {
        int k = 0;
        for (int i0 = 0; i0 < 64; i0++) {
            int i = (i0 * 5 + off * 9) % 64;
            t.add(k % 3, k / 3, nss[i & 3], names[i >> 2 & 3], types[i >> 4]);
            if (i0 % 9 == 0)
                for (int j = 0; j < 5; j++)
                    if ((i0 / 9 + j) % 2 == 0)
                        t.addid(j & 3, 30 + i0 / 9, IDS[j]);
            k++;
        }
    };
    if (before)
        regall();
    t.connect();
    if (!before)
        regall();
    static const char *sn[] = {"message", "iq", "presence", "x", "y"};
    static const char *st[] = {"", "type='chat'", "type='result'", "type=''",
                               "type='cha'"};
    static const char *si[] = {"", "id='A'", "id='a'", "id=''", "id='B'",
                               "id='iq-0123456789'", "id='_xmpp_bind1'"};
    static const char *sb[] = {"",
                               "text",
                               "<c xmlns='urn:a'/>",
                               "<c xmlns='urn:b'/>t<c xmlns='urn:a'/>",
                               "<c><d xmlns='urn:a'/></c>",
                               "<p:c xmlns:p='urn:a'/>",
                               "<c xmlns='urn:c'><d xmlns='urn:b'/></c><e/>",
                               "urn:a<c type='chat' id='A'/>",
                               "<c/><c/> <x xmlns='urn:b'/>"};
    int n = mc::choose(5, "stanza");
    std::string out;
    for (int ty = 0; ty < 5; ty++)
        for (int i = 0; i < 7; i++)
            for (int b = 0; b < 9; b++) {
                std::string at = std::string(st[ty]) + " " + si[i];
                if (n == 4)
                    at += " xmlns='urn:a'";
                out += t.stanza(n == 4 ? "x" : sn[n], at, sb[b]);
                if (out.size() > 2000 || b == 8) {
                    t.srv.send(out);
                    out.clear();
                    t.settle(20);
                    if (mc::failed())
                        break;
                }
            }
    t.finish();
}

// -------------------------------------------------------------- mutations
const int NOPS = 20;
void op(T &t, int k)
{
    switch (k) {
    case 0:
    case 1:
    case 2:
        t.del(k);
        break;
    case 3:
    case 4:
    case 5:
        t.delid(k - 3, "A");
        break;
    case 6:
        t.delid(0, "a");
        break;
    case 7:
    case 8:
    case 9:
        t.add(k - 7, 0, nullptr, nullptr, nullptr);
        break;
    case 10:
        t.add(0, 1, nullptr, "message", nullptr);
        break;
    case 11:
        t.add(3, 0, nullptr, nullptr, nullptr);
        break;
    case 12:
    case 13:
    case 14:
        t.addid(k - 12, 0, "A");
        break;
    case 15:
        t.addid(3, 0, "A");
        break;
    case 16:
        t.addid(0, 0, "a");
        break;
    case 17:
        if (t.c.connected())
            xmpp_send_raw(t.c.conn, "<message/>", 10);
        break;
    case 18: // itself: gone and registered again
        if (t.self >= 0) {
            Reg r = t.regs[t.self];
            if (r.id) {
                t.delid(r.cb, r.key.c_str());
                t.addid(r.cb, r.ud, r.key == "A" ? "A" : "a");
            } else {
                t.del(r.cb);
                t.add(r.cb, r.ud, r.ns, r.name, r.type);
            }
        }
        break;
    case 19:
        if (t.self >= 0) { // itself
            Reg r = t.regs[t.self];
            if (r.id)
                t.delid(r.cb, r.key.c_str());
            else
                t.del(r.cb);
        }
        break;
    }
}
void initial(T &t, int n, int share)
{
    for (int i = 0; i < n; i++) {
        int cb = share ? 0 : i, ud = share ? i : 0;
        switch ((share || i == 2) && !mc::thorough()
                    ? 2 * mc::choose(2, "handler")
                    : mc::choose(4, "handler")) {
        case 0:
            t.add(cb, ud, nullptr, nullptr, nullptr);
            break;
        case 1:
            t.add(cb, ud, nullptr, "message", nullptr);
            break;
        case 2:
            t.addid(cb, ud, "A");
            break;
        case 3:
            t.addid(cb, ud, "a");
            break;
        }
    }
}
std::string shape(T &t, int k)
{
    switch (k) {
    case 0:
        return t.stanza("message", "id='A' type='chat'", "<x xmlns='urn:a'/>");
    case 1:
        return t.stanza("iq", "id='a' type='result'", "");
    default:
        return t.stanza("message", "", "<body>x</body>");
    }
}
void mutations()
{
    sim::reset();
    T t;
    t.connect();
    int share = mc::choose(2, "callbacks shared");
    initial(t, mc::thorough() ? 4 - share : 3, share);
    t.behave = [&]() {
        if (t.cur > 1)
            return true;
        for (int i = 0; i < 2; i++) {
            int k = mc::deviate(NOPS + 1, "action");
            if (!k)
                break;
            op(t, k - 1);
        }
        return !mc::deviate(2, "returns false");
    };
    int first = mc::choose(mc::thorough() ? 3 : 2, "first stanza"), second = mc::thorough() ? mc::choose(2, "second") : 0;
    bool one = mc::thorough() ? mc::choose(2, "one chunk") == 0 : true;
    std::string out;
    int seq[] = {first, second, 0, 1, 2};
    for (int k : seq) {
        std::string x = shape(t, k);
        if (one)
            out += x;
        else {
            t.srv.send(x);
            t.settle(10);
            if (mc::failed())
                break;
        }
    }
    if (one) {
        t.srv.send(out);
        t.settle(10);
    }
    t.finish();
}
// sequences of calls outside of dispatches, stanzas and reconnects in between
void history()
{
    sim::reset();
    T t;
    t.component = mc::choose(2, "component");
    t.connect();
    int depth = mc::thorough() ? 4 : 3;
    t.behave = [&]() { return !mc::deviate(2, "returns false"); };
    for (int i = 0; i < depth && !mc::failed(); i++) {
        int k = mc::choose(17 + 3, "event");
        if (k < 17)
            op(t, k);
        else if (k < 19) {
            if (!t.up)
                continue;
            t.srv.send(shape(t, k - 17));
            t.settle(10);
            t.flush();
        } else {
            if (t.up) {
                t.srv.close();
                t.settle(10);
            }
            t.connect();
        }
    }
    if (!mc::failed() && t.up) {
        for (int j = 0; j < 2; j++)
            for (int k = 0; k < 3; k++)
                t.srv.send(shape(t, k));
        t.settle(20);
    }
    t.finish();
}
// long registration lists: any subset deleted, from outside and from inside
void lists()
{
    sim::reset();
    T t;
    bool ids = mc::choose(2, "id handlers");
    bool before = mc::choose(2, "registered before the connection");
    if (!before)
        t.connect();
    int n = mc::thorough() ? 6 : 5;
    std::vector<int> cbs;
    for (int i = 0; i < n; i++) {
        int cb = mc::choose(2, "callback");
        cbs.push_back(cb);
        if (ids)
            t.addid(cb, i, "A");
        else
            t.add(cb, i, nullptr, nullptr, nullptr);
    }
    if (before)
        t.connect();
    int where = mc::choose(n + 1, "acts in");
    int what = mc::choose(5, "action");
    int false_mask = mc::choose(1 << n, "returns false");
    auto act = [&]() {
        switch (what) {
        case 0:
            ids ? t.delid(0, "A") : t.del(0);
            break;
        case 1:
            ids ? t.delid(1, "A") : t.del(1);
            break;
        case 2:
            ids ? t.delid(0, "A") : t.del(0);
            ids ? t.addid(0, 0, "A") : t.add(0, 0, nullptr, nullptr, nullptr);
            break;
        case 3:
            for (int cb = 0; cb < 2; cb++)
                ids ? t.delid(cb, "A") : t.del(cb);
            for (int i = n - 1; i >= 0; i--)
                ids ? t.addid(cbs[i], i, "A")
                    : t.add(cbs[i], i, nullptr, nullptr, nullptr);
            break;
        case 4:
            for (int i = 0; i < n; i++) // nothing but duplicates
                ids ? t.addid(cbs[i], i, "A")
                    : t.add(cbs[i], i, "urn:z", nullptr, nullptr);
            break;
        }
    };
    if (where == n)
        act();
    int calls = 0;
    t.behave = [&]() {
        int me = t.regs[t.self].ud;
        if (calls++ == where && where < n)
            act();
        return !(calls <= n && (false_mask >> me & 1));
    };
    std::string out;
    for (int i = 0; i < 3; i++)
        out += shape(t, 0);
    t.srv.send(out);
    t.settle(10);
    t.finish();
}

// the same for timed handlers
void timedlists()
{
    sim::reset();
    T t;
    bool gl = mc::choose(2, "context-wide");
    bool before = mc::choose(2, "registered before the connection");
    if (!before)
        t.connect();
    int n = mc::thorough() ? 6 : 5;
    std::vector<int> cbs;
    for (int i = 0; i < n; i++) {
        cbs.push_back(mc::choose(2, "callback"));
        t.tadd(gl, cbs[i], i, 10);
    }
    if (before)
        t.connect();
    int where = mc::choose(n + 1, "acts in");
    int what = mc::choose(5, "action");
    int false_mask = mc::choose(1 << n, "returns false");
    auto act = [&]() {
        switch (what) {
        case 0:
        case 1:
            t.tdel(gl, what);
            break;
        case 2:
            t.tdel(gl, 0);
            t.tadd(gl, 0, 0, 10);
            break;
        case 3:
            t.tdel(gl, 0);
            t.tdel(gl, 1);
            for (int i = n - 1; i >= 0; i--)
                t.tadd(gl, cbs[i], i, 10);
            break;
        case 4:
            for (int i = 0; i < n; i++) // nothing but duplicates
                t.tadd(gl, cbs[i], i, 1000);
            break;
        }
    };
    if (where == n)
        act();
    int calls = 0;
    t.tbehave = [&]() {
        int me = t.timed[t.tself].ud;
        if (calls++ == where && where < n)
            act();
        return !(calls <= n && (false_mask >> me & 1));
    };
    for (int i = 0; i < 4 && !mc::failed(); i++) {
        sim::advance(i == 2 ? 3 : 10);
        t.step(0);
    }
    t.finish();
}

// ------------------------------------------------------------------- timed
const uint64_t PER[] = {0, 1, 10, 1000, 5000000000ull};
void top(T &t, int k)
{
    switch (k) {
    case 0:
    case 1:
    case 2:
        t.tdel(false, k);
        break;
    case 3:
    case 4:
        t.tdel(true, k - 3);
        break;
    case 5:
        t.tadd(false, 3, 0, 0);
        break;
    case 6:
        t.tadd(true, 3, 0, 0);
        break;
    case 7:
        t.tadd(false, 3, 0, 10);
        break;
    case 8:
        t.tadd(false, 0, 0, 1); // usually there
        break;
    case 9:
        t.tadd(true, 0, 0, 1);
        break;
    case 10:
        sim::advance(7);
        break;
    case 11:
        if (t.tself >= 0) {
            Timed r = t.timed[t.tself];
            t.tdel(r.global, r.cb);
            t.tadd(r.global, r.cb, r.ud, r.period);
        }
        break;
    case 12:
        if (t.tself >= 0)
            t.tdel(t.timed[t.tself].global, t.timed[t.tself].cb);
        break;
    case 13:
        xmpp_disconnect(t.c.conn);
        break;
    case 14:
        t.srv.close();
        break;
    case 15:
        t.tadd(true, 3, 0, 10);
        break;
    }
}
const int NTOPS = 16;
void timed()
{
    sim::reset();
    T t;
    t.other = xmpp_conn_new(t.c.ctx);
    t.component = mc::choose(2, "component");
    t.tadd(false, 0, 79, 0, 1); // never connected
    int when = mc::thorough() ? mc::choose(2, "registered before the connection")
                              : !t.component;
    auto reg = [&]() {
        int n = 3;
        for (int i = 0; i < n; i++) {
            bool gl = mc::choose(2, "context-wide");
            int p = mc::thorough() ? mc::choose(3, "period")
                                   : 2 * mc::choose(2, "period");
            t.tadd(gl, i, 0, PER[p + (i == 0)]);
        }
    };
    if (when == 0)
        t.connect();
    reg();
    int calls = 0;
    t.tbehave = [&]() {
        if (++calls > (mc::thorough() ? 10 : 5))
            return true;
        for (int i = 0; i < 2; i++) {
            int k = mc::deviate(NTOPS + 1, "action");
            if (!k)
                break;
            top(t, k - 1);
        }
        return !mc::deviate(2, "returns false");
    };
    if (when == 1) {
        sim::advance(1000);
        t.connect(false);
    }
    static const uint64_t adv[] = {1, 9, 1, 1000, 3};
    for (int i = 0; i < 5 && !mc::failed(); i++) {
        sim::advance(adv[i]);
        t.step(0);
        if (i == 2) {
            t.step(25);
            t.step(25);
        }
    }
    if (t.c.disconnected() && !mc::failed()) {
        sim::advance(500);
        t.connect(false);
        t.step(0);
        sim::advance(10);
        t.step(0);
    }
    t.finish();
}
// all clock advances around the period
void clocks()
{
    sim::reset();
    T t;
    t.component = mc::choose(2, "component");
    bool gl = mc::choose(2, "context-wide");
    uint64_t p = PER[mc::choose(5, "period")];
    uint64_t before = mc::choose(3, "age when the stream starts");
    if (before) {
        t.tadd(gl, 0, 0, p);
        sim::advance(before == 1 ? p : p / 2);
    }
    t.connect();
    if (!before)
        t.tadd(gl, 0, 0, p);
    uint64_t other = PER[mc::choose(4, "other period")];
    t.tadd(!gl, 1, 0, other);
    for (int i = 0; i < 4 && !mc::failed(); i++) {
        switch (mc::choose(i < 3 ? 6 : 2, "advance")) {
        case 0:
            sim::advance(p);
            break;
        case 1:
            sim::advance(p ? p - 1 : 0);
            break;
        case 2:
            sim::advance(1);
            break;
        case 3:
            sim::advance(2 * p + 1);
            break;
        case 4:
            sim::advance(4294967296ull);
            break;
        case 5: // waiting in the loop
            t.step(mc::choose(2, "slice") ? 1500 : 9);
            break;
        }
        t.step(0);
    }
    t.finish();
}
// before, between and after connections
void states()
{
    sim::reset();
    T t;
    t.other = xmpp_conn_new(t.c.ctx);
    t.component = mc::choose(2, "component");
    t.begin_conn();
    int per = mc::choose(2, "period");
    t.tadd(false, 0, 0, per * 10);
    t.tadd(true, 1, 0, per * 10);
    t.tadd(false, 2, 0, per * 10, 1);
    auto pass = [&](int n) {
        for (int i = 0; i < n && !mc::failed(); i++) {
            sim::advance(i & 1 ? 10 : 3);
            t.step(0);
        }
    };
    int stage = mc::choose(8, "negotiation advances by");
    pass(3);
    static const sim::ConnResult res[] = {sim::C_OK, sim::C_OK_SYNC, sim::C_REFUSED,
                                          sim::C_SILENT};
    sim::ConnResult cr = res[mc::choose(4, "connect")];
    sim::W->on_connect = [=](const std::string &, int) { return cr; };
    int r = t.component ? t.c.connect_component("srv", 5347)
                        : t.c.connect("srv", 5222);
    if (r == XMPP_EOK || !t.c.disconnected()) {
        for (int i = 0; i < stage && !mc::failed(); i++) {
            sim::advance(3);
            t.step(0);
        }
        switch (mc::choose(4, "then")) {
        case 0:
            t.srv.close();
            break;
        case 1:
            xmpp_disconnect(t.c.conn);
            break;
        case 2:
            t.srv.muted = true;
            xmpp_disconnect(t.c.conn);
            break;
        case 3:
            t.srv.muted = true;
            t.srv.send("<stream:error><conflict "
                       "xmlns='urn:ietf:params:xml:ns:xmpp-streams'/>"
                       "</stream:error></stream:stream>");
            break;
        }
        pass(4);
        sim::advance(2000);
        pass(4);
    } else
        pass(3);
    sim::W->on_connect = nullptr;
    t.srv.muted = false;
    if (t.c.disconnected() && !mc::failed()) {
        t.connect();
        pass(4);
    }
    t.finish();
}
} // namespace
void register_scenarios()
{
    mc::add("filters", filters, 0, 0);
    mc::add("mutations", mutations, 2, 3);
    mc::add("history", history, 1, 2);
    mc::add("lists", lists, 0, 0);
    mc::add("timedlists", timedlists, 0, 0);
    mc::add("timed", timed, 2, 3);
    mc::add("clocks", clocks, 0, 0);
    mc::add("states", states, 0, 0);
}
