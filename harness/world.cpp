#include "world.h"
#include <cstdarg>
#include <errno.h>

namespace world {
std::string strf(const char *f, ...)
{
    char b[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
const char *Note::name() const
{
    switch (event) {
    case XMPP_CONN_CONNECT:
        return "CONNECT";
    case XMPP_CONN_RAW_CONNECT:
        return "RAW_CONNECT";
    case XMPP_CONN_DISCONNECT:
        return "DISCONNECT";
    case XMPP_CONN_FAIL:
        return "FAIL";
    }
    return "?";
}

// ------------------------------------------------------------ stanza trees
Node node_of(xmpp_stanza_t *s)
{
    Node n;
    if (!s)
        return n;
    if (xmpp_stanza_is_text(s)) {
        n.text = true;
        const char *p = xmpp_stanza_get_text_ptr(s);
        n.data = p ? p : "";
        return n;
    }
    const char *p = xmpp_stanza_get_name(s);
    n.name = p ? p : "";
    p = xmpp_stanza_get_ns(s);
    n.ns = p ? p : "";
    int c = xmpp_stanza_get_attribute_count(s);
    if (c > 0) {
        std::vector<const char *> v(2 * c);
        int k = xmpp_stanza_get_attributes(s, v.data(), 2 * c);
        for (int i = 0; i + 1 < k; i += 2)
            if (strcmp(v[i], "xmlns") != 0)
                n.attrs[v[i]] = v[i + 1];
    }
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k;
         k = xmpp_stanza_get_next(k))
        n.kids.push_back(node_of(k));
    return n;
}
xmpp_stanza_t *stanza_of(xmpp_ctx_t *ctx, const Node &n, const char *parent_ns)
{
    (void)parent_ns;
    xmpp_stanza_t *s = xmpp_stanza_new(ctx);
    if (n.text) {
        xmpp_stanza_set_text(s, n.data.c_str());
        return s;
    }
    xmpp_stanza_set_name(s, n.name.c_str());
    if (!n.ns.empty())
        xmpp_stanza_set_ns(s, n.ns.c_str());
    for (auto &a : n.attrs)
        xmpp_stanza_set_attribute(s, a.first.c_str(), a.second.c_str());
    for (auto &k : n.kids) {
        xmpp_stanza_t *c = stanza_of(ctx, k, n.ns.c_str());
        xmpp_stanza_add_child_ex(s, c, 0);
    }
    return s;
}

// ------------------------------------------------------------------ client
bool Client::track_all;
Client::Client(bool track, bool make_conn)
{
    track = track || track_all;
    if (track)
        al = new sim::Alloc;
    ctx = xmpp_ctx_new(track ? &al->mem : nullptr, &sim::quiet_log);
    if (make_conn)
        conn = xmpp_conn_new(ctx);
}
Client::~Client()
{
    delete al;
}
void Client::handler(xmpp_conn_t *c, xmpp_conn_event_t ev, int err,
                     xmpp_stream_error_t *se, void *ud)
{
    Client *me = (Client *)ud;
    Note n;
    n.event = ev;
    n.error = err;
    n.t = sim::now_ms();
    n.conn_no = me->attempts;
    if (se) {
        n.se = true;
        n.se_type = se->type;
        n.se_has_text = se->text != nullptr;
        n.se_text = se->text ? se->text : "";
        if (se->stanza)
            n.se_stanza = node_of(se->stanza).str();
    }
    n.secured = xmpp_conn_is_secured(c);
    mc::trace("  ** %s error=%d%s%s", n.name(), err, se ? " stream error " : "",
              se ? mc::fmt("%d %s", (int)se->type, n.se_text.c_str()).c_str()
                 : "");
    if (me->lifecycle) {
        if (!me->open && ev != XMPP_CONN_DISCONNECT)
            mc::fail("lifecycle:event-outside-attempt",
                     "%s notification while no connection attempt is running",
                     n.name());
        if (ev == XMPP_CONN_CONNECT || ev == XMPP_CONN_RAW_CONNECT) {
            int seen = 0;
            for (auto &o : me->notes)
                if (o.conn_no == n.conn_no && o.event == (int)ev)
                    seen++;
            if (seen && !me->raw)
                mc::fail("lifecycle:second-connect",
                         "%s notified twice in one connection", n.name());
            if (!xmpp_conn_is_connected(c))
                mc::fail("lifecycle:connect-not-connected",
                         "%s notified but is_connected is false", n.name());
            me->up = true;
        } else if (ev == XMPP_CONN_DISCONNECT) {
            if (!me->open)
                mc::fail("lifecycle:second-disconnect",
                         "disconnect notified twice for one attempt");
            if (!xmpp_conn_is_disconnected(c))
                mc::fail("lifecycle:disconnect-state",
                         "DISCONNECT notified but is_disconnected is false");
            me->open = false;
            me->up = false;
        } else
            mc::fail("lifecycle:unknown-event", "event %d", (int)ev);
    }
    me->notes.push_back(n);
    if (me->on_note) {
        auto f = me->on_note;
        f(n);
    }
}
int Client::connect(const char *alt, unsigned short port)
{
    bool was = xmpp_conn_is_disconnected(conn);
    raw = false;
    int a = attempts;
    attempts++;
    bool o = open, u = up;
    open = true;
    up = false;
    int r = xmpp_connect_client(conn, alt, port, handler, this);
    if (r != XMPP_EOK || !was) {
        attempts = a;
        open = o;
        up = u;
    }
    mc::trace("connect_client -> %d", r);
    observe("connect");
    return r;
}
int Client::connect_component(const char *server, unsigned short port)
{
    bool was = xmpp_conn_is_disconnected(conn);
    int a = attempts;
    attempts++;
    raw = false;
    bool o = open, u = up;
    open = true;
    up = false;
    int r = xmpp_connect_component(conn, server, port, handler, this);
    if (r != XMPP_EOK || !was) {
        attempts = a;
        open = o;
        up = u;
    }
    mc::trace("connect_component -> %d", r);
    observe("connect");
    return r;
}
int Client::connect_raw(const char *alt, unsigned short port)
{
    bool was = xmpp_conn_is_disconnected(conn);
    int a = attempts;
    attempts++;
    raw = true;
    bool o = open, u = up;
    open = true;
    up = false;
    int r = xmpp_connect_raw(conn, alt, port, handler, this);
    if (r != XMPP_EOK || !was) {
        attempts = a;
        open = o;
        up = u;
    }
    mc::trace("connect_raw -> %d", r);
    observe("connect");
    return r;
}
void Client::observe(const char *where)
{
    if (!conn)
        return;
    int i = !!xmpp_conn_is_connecting(conn), c = !!xmpp_conn_is_connected(conn),
        d = !!xmpp_conn_is_disconnected(conn);
    if (lifecycle) {
        if (i + c + d != 1)
            mc::fail("lifecycle:predicates",
                     "connecting=%d connected=%d disconnected=%d after %s", i, c,
                     d, where);
        else if (!open && !d)
            mc::fail("lifecycle:state-disagrees",
                     "no attempt is running but is_disconnected is false "
                     "(after %s)",
                     where);
        else if (open && d)
            mc::fail("lifecycle:silent-end",
                     "is_disconnected without a disconnect notification (after "
                     "%s)",
                     where);
        else if (open && up && !c)
            mc::fail("lifecycle:state-disagrees",
                     "connected was notified but is_connected is false (after "
                     "%s)",
                     where);
        else if (open && !up && c)
            mc::fail("lifecycle:state-disagrees",
                     "is_connected before connected was notified (after %s)",
                     where);
    }
}
void Client::step(unsigned long timeout)
{
    mc::tick_reset();
    mc::step();
    iterations++;
    xmpp_run_once(ctx, timeout);
    observe("run_once");
    if (conn) {
        uint64_t h = mc::fnv("w", 1);
        int v[6] = {xmpp_conn_is_connecting(conn), xmpp_conn_is_connected(conn),
                    xmpp_conn_is_secured(conn), (int)notes.size(),
                    xmpp_conn_send_queue_len(conn), (int)stanzas.size()};
        h = mc::fnv(v, sizeof v, h);
        Sock *s = sim::last_sock();
        if (s) {
            h = mc::fnv(&s->out_total, sizeof s->out_total, h);
            for (auto &c : s->in)
                h = mc::fnv(c, h);
        }
        uint64_t t = sim::now_ms();
        h = mc::fnv(&t, sizeof t, h);
        mc::state(h);
    }
}
void Client::steps(int n, unsigned long t)
{
    while (n-- > 0)
        step(t);
}
void Client::settle(int max)
{
    int quiet = 0;
    while (max-- > 0 && quiet < 2) {
        Sock *s = sim::last_sock();
        size_t o = s ? s->out_total : 0, in = 0, nn = notes.size();
        size_t nc = sim::W->connects.size();
        if (s)
            for (auto &c : s->in)
                in += c.size();
        if (s)
            in += s->tls_plain.size();
        step(0);
        Sock *s2 = sim::last_sock();
        size_t in2 = 0;
        if (s2)
            for (auto &c : s2->in)
                in2 += c.size();
        if (s2)
            in2 += s2->tls_plain.size();
        bool changed = s != s2 || (s2 && s2->out_total != o) || in2 != in ||
                       notes.size() != nn || sim::W->connects.size() != nc;
        quiet = changed ? 0 : quiet + 1;
    }
}
void Client::run_for(uint64_t ms, unsigned long slice)
{
    uint64_t end = sim::now_ms() + ms;
    int guard = 100000;
    while (sim::now_ms() < end && guard-- > 0) {
        uint64_t left = end - sim::now_ms(), before = sim::W->now_us;
        step(left < slice ? left : slice);
        if (sim::W->now_us == before) {
            // either activity or no descriptor to wait for
            step(0);
            if (sim::W->now_us == before)
                sim::advance(std::min<uint64_t>(left, 1));
        }
    }
}
static int catch_cb(xmpp_conn_t *, xmpp_stanza_t *s, void *ud)
{
    Client *c = (Client *)ud;
    c->stanzas.push_back({node_of(s), sim::now_ms()});
    mc::trace("  == user handler: %s", c->stanzas.back().first.str().c_str());
    return 1;
}
void Client::catch_all()
{
    xmpp_handler_add(conn, catch_cb, nullptr, nullptr, nullptr, this);
}
void Client::release_conn()
{
    if (!conn)
        return;
    mc::tick_reset();
    xmpp_conn_release(conn);
    conn = nullptr;
    if (lifecycle && open)
        mc::fail("lifecycle:release-silent",
                 "connection released while an attempt was running and no "
                 "disconnect notification was delivered");
}
void Client::release()
{
    release_conn();
    if (ctx)
        xmpp_ctx_free(ctx);
    ctx = nullptr;
}
void Client::send_xml(const std::string &xml)
{
    xmpp_stanza_t *s = xmpp_stanza_new_from_string(ctx, xml.c_str());
    if (!s) {
        mc::fail("harness:bad-stanza", "cannot build %s", xml.c_str());
        return;
    }
    xmpp_send(conn, s);
    xmpp_stanza_release(s);
}
int Client::count(int ev, int cn) const
{
    int r = 0;
    for (auto &n : notes)
        r += n.event == ev && (cn < 0 || n.conn_no == cn);
    return r;
}

// ------------------------------------------------------------------ server
const char *step_name(Step s)
{
    static const char *n[] = {"open",   "starttls",  "auth",    "response",
                              "compress", "bind",    "session", "legacy",
                              "handshake", "enable", "resume",  "r",
                              "a",      "stanza",    "close",   "other",
                              "error"};
    return s < S_NSTEPS ? n[s] : "?";
}
std::vector<std::string> one_chunk(const std::string &s) { return {s}; }
std::vector<std::string> bytes_of(const std::string &s, size_t n)
{
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size(); i += n)
        v.push_back(s.substr(i, n));
    return v;
}
Server::Server() {}
Server::~Server() { zreset(); }
void Server::zreset()
{
    if (zinit) {
        sim::Own own;
        deflateEnd(&def);
        inflateEnd(&inf);
        zinit = false;
    }
}
void Server::install()
{
    sim::W->on_select = [this]() { turn(); };
}
void Server::turn()
{
    Sock *s = sim::last_sock();
    if (s && s->fd != fd && s->st == Sock::ESTAB)
        attach(*s);
    if (Sock *k = sk())
        pump(*k);
    if (on_turn)
        on_turn(*this);
}
void Server::attach(Sock &s)
{
    fd = s.fd;
    conn_no = s.id;
    segi = segoff = 0;
    layer = 0;
    rd = StreamReader();
    streams = 0;
    authed = bound = closed_sent = saw_close = false;
    comp = comp_next = false;
    zreset();
    comp_plain.clear();
    comp_raw.clear();
    plain_all.clear();
    mech.clear();
    sm_active = false;
}
void Server::pump(Sock &s)
{
    while (segi < s.out.size()) {
        auto &g = s.out[segi];
        if (segoff < g.data.size()) {
            std::string d = g.data.substr(segoff);
            segoff = g.data.size();
            if (g.layer != layer) {
                layer = g.layer;
                if (!rd.pending().empty())
                    bad.push_back("incomplete element before the layer change");
                rd = StreamReader();
            }
            feed(d, layer, g.t_ms);
            continue; // the segment may have grown? (it cannot here)
        }
        if (segi + 1 < s.out.size()) {
            segi++;
            segoff = 0;
        } else
            break;
    }
}
void Server::feed(const std::string &b, int lay, uint64_t t)
{
    std::string d = b;
    if (comp) {
        comp_raw += b;
        d.clear();
        inf.next_in = (Bytef *)b.data();
        inf.avail_in = b.size();
        char o[8192];
        int r;
        do {
            inf.next_out = (Bytef *)o;
            inf.avail_out = sizeof o;
            sim::Own own;
            r = inflate(&inf, Z_SYNC_FLUSH);
            d.append(o, sizeof o - inf.avail_out);
        } while (r == Z_OK && (inf.avail_in || inf.avail_out == 0));
        if (r != Z_OK && r != Z_BUF_ERROR && r != Z_STREAM_END) {
            bad.push_back("the bytes received are not a deflate stream");
            return;
        }
        comp_plain += d;
    }
    plain_all += d;
    bool was_comp = comp;
    for (auto &e : rd.feed(d)) {
        Msg m;
        m.layer = lay;
        m.t = t;
        m.raw = e.raw;
        m.node = e.n;
        m.compressed = was_comp;
        m.conn_no = conn_no;
        switch (e.t) {
        case Ev::OPEN:
            streams++;
            m.step = S_OPEN;
            break;
        case Ev::CLOSE:
            m.step = S_CLOSE;
            saw_close = true;
            break;
        case Ev::ELEM:
            m.step = classify(e.n);
            break;
        case Ev::ERR:
            m.step = S_ERR;
            bad.push_back("client sent malformed XML: " + rd.err);
            break;
        default:
            continue;
        }
        m.stream = streams;
        m.at = log.size();
        mc::trace("    server got %s (stream %d, %s%s): %s", step_name(m.step),
                  m.stream, lay ? "TLS" : "clear", was_comp ? ", zlib" : "",
                  mc::printable(m.raw, 200).c_str());
        log.push_back(m);
        on_msg(m);
    }
}
Step Server::classify(const Node &n) const
{
    if (n.name == "starttls" && n.ns == NS_TLS_)
        return S_STARTTLS;
    if (n.ns == NS_SASL_ && n.name == "auth")
        return S_AUTH;
    if (n.ns == NS_SASL_ && n.name == "response")
        return S_RESPONSE;
    if (n.ns == NS_COMP_ && n.name == "compress")
        return S_COMPRESS;
    if (n.ns == NS_SM_) {
        if (n.name == "enable")
            return S_SM_ENABLE;
        if (n.name == "resume")
            return S_SM_RESUME;
        if (n.name == "r")
            return S_R;
        if (n.name == "a")
            return S_A;
        return S_OTHER;
    }
    if (n.name == "handshake" && cfg.component)
        return S_HANDSHAKE;
    if (n.name == "iq") {
        if (n.child("bind", NS_BIND_))
            return S_BIND;
        if (n.child("session", NS_SESSION_))
            return S_SESSION;
        if (n.child("query", "jabber:iq:auth"))
            return S_LEGACY;
        return S_STANZA;
    }
    if (n.name == "message" || n.name == "presence")
        return S_STANZA;
    return S_OTHER;
}
std::string Server::zdeflate(const std::string &s, int flush)
{
    std::string o;
    char b[4096];
    def.next_in = (Bytef *)s.data();
    def.avail_in = s.size();
    do {
        def.next_out = (Bytef *)b;
        def.avail_out = sizeof b;
        sim::Own own;
        deflate(&def, flush);
        o.append(b, sizeof b - def.avail_out);
    } while (def.avail_out == 0);
    return o;
}
void Server::send_chunks(const std::vector<std::string> &v)
{
    Sock *s = sk();
    if (!s || s->eof)
        return;
    for (auto &c : v)
        sim::deliver(*s, c);
}
void Server::send(const std::string &xml0)
{
    std::string xml = mangle ? mangle(xml0) : xml0;
    if (on_send)
        on_send(xml);
    std::string d = comp ? zdeflate(xml, deflate_flush) : xml;
    if (chunker)
        send_chunks(chunker(d));
    else
        send_chunks({d});
}
void Server::send_raw(const std::string &b) { send_chunks({b}); }
void Server::send_stanza(const std::string &xml)
{
    if (SmSession *x = session())
        x->sent++;
    send(xml);
}
void Server::close()
{
    if (Sock *s = sk())
        s->eof = true;
}
std::string Server::header() const
{
    return std::string(cfg.pi ? "<?xml version='1.0'?>" : "") +
           "<stream:stream xmlns='" +
           (cfg.component ? "jabber:component:accept" : "jabber:client") +
           "' xmlns:stream='" NS_STREAM_ "' from='" + cfg.domain + "' id='" +
           cfg.sid + "'" + (cfg.features ? " version='1.0'" : "") + ">";
}
std::string Server::default_features()
{
    std::string f = "<stream:features>";
    if (!authed) {
        if (cfg.starttls && layer == 0)
            f += "<starttls xmlns='" NS_TLS_ "'/>";
        auto &m = layer && cfg.mechs_tls_differ ? cfg.mechs_tls : cfg.mechs;
        if (!m.empty()) {
            f += "<mechanisms xmlns='" NS_SASL_ "'>";
            for (auto &x : m)
                f += "<mechanism>" + x + "</mechanism>";
            f += "</mechanisms>";
        }
    } else {
        if (cfg.compress && !comp)
            f += "<compression xmlns='" NS_COMPF_
                 "'><method>zlib</method></compression>";
        if (cfg.bind)
            f += "<bind xmlns='" NS_BIND_ "'/>";
        if (cfg.session)
            f += cfg.session_optional
                     ? "<session xmlns='" NS_SESSION_ "'><optional/></session>"
                     : "<session xmlns='" NS_SESSION_ "'/>";
        if (cfg.sm)
            f += "<sm xmlns='" NS_SM_ "'/>";
    }
    return f + "</stream:features>";
}
std::string Server::features()
{
    std::string f = default_features();
    return features_hook ? features_hook(*this, f) : f;
}
void Server::open_stream()
{
    if (cfg.component || !cfg.features) {
        send(header());
        return;
    }
    if (cfg.coalesce)
        send(header() + features());
    else {
        send(header());
        send(features());
    }
}
void Server::on_msg(Msg &m)
{
    if (intercept && intercept(*this, m))
        return;
    if (!muted)
        defreply(m);
}
static std::map<char, std::string> scram_attrs(const std::string &s)
{
    std::map<char, std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(',', i);
        if (e == std::string::npos)
            e = s.size();
        if (e > i + 1 && s[i + 1] == '=')
            r[s[i]] = s.substr(i + 2, e - i - 2);
        i = e + 1;
    }
    return r;
}
void Server::defreply(Msg &m)
{
    const Node &n = m.node;
    std::string t;
    switch (m.step) {
    case S_OPEN:
        open_stream();
        break;
    case S_STARTTLS:
        send("<proceed xmlns='" NS_TLS_ "'/>");
        break;
    case S_AUTH:
        mech = n.attr("mechanism");
        if (ref::scram_md(mech)) {
            ref::unb64(n.alltext(), t);
            size_t p = t.find(",,");
            scram_gs2 = t.substr(0, p == std::string::npos ? 0 : p + 2);
            scram_cfb = p == std::string::npos ? "" : t.substr(p + 2);
            auto a = scram_attrs(scram_cfb);
            scram_sf = "r=" + a['r'] + "srvnonce,s=" + ref::b64(cfg.salt) +
                       ",i=" + std::to_string(cfg.iter);
            send("<challenge xmlns='" NS_SASL_ "'>" + ref::b64(scram_sf) +
                 "</challenge>");
        } else if (mech == "DIGEST-MD5") {
            send("<challenge xmlns='" NS_SASL_ "'>" +
                 ref::b64("realm=\"" + cfg.domain +
                          "\",nonce=\"OA6MG9tEQGm2hh\",qop=\"auth\",charset=utf-"
                          "8,algorithm=md5-sess") +
                 "</challenge>");
        } else {
            authed = true;
            send("<success xmlns='" NS_SASL_ "'/>");
        }
        break;
    case S_RESPONSE:
        if (ref::scram_md(mech)) {
            ref::unb64(n.alltext(), t);
            size_t p = t.rfind(",p=");
            std::string wop = t.substr(0, p == std::string::npos ? 0 : p);
            const EVP_MD *md = ref::scram_md(mech);
            std::string am = scram_cfb + "," + scram_sf + "," + wop;
            std::string sp = ref::pbkdf2(md, cfg.pass, cfg.salt, cfg.iter);
            authed = true;
            send("<success xmlns='" NS_SASL_ "'>" +
                 ref::b64("v=" + ref::b64(ref::scram_server_sig(md, sp, am))) +
                 "</success>");
        } else if (mech == "DIGEST-MD5" && !n.alltext().empty()) {
            std::map<std::string, std::string> a;
            ref::unb64(n.alltext(), t);
            ref::md5_parse(t, a);
            send("<challenge xmlns='" NS_SASL_ "'>" +
                 ref::b64("rspauth=" +
                          ref::md5_response(a, a["username"], a["realm"],
                                            cfg.pass, a["nonce"], a["cnonce"],
                                            a["nc"], a["qop"], a["digest-uri"],
                                            "", true)) +
                 "</challenge>");
        } else {
            authed = true;
            send("<success xmlns='" NS_SASL_ "'/>");
        }
        break;
    case S_COMPRESS:
        send("<compressed xmlns='" NS_COMP_ "'/>");
        memset(&def, 0, sizeof def);
        memset(&inf, 0, sizeof inf);
        sim::Alloc::depth++;
        deflateInit(&def, Z_DEFAULT_COMPRESSION);
        inflateInit(&inf);
        sim::Alloc::depth--;
        zinit = true;
        comp = true;
        rd = StreamReader();
        break;
    case S_BIND: {
        bound = true;
        const Node *r = n.child("bind", NS_BIND_)->child("resource");
        send("<iq type='result' id='" + n.attr("id") + "'><bind xmlns='" NS_BIND_
             "'><jid>user@" +
             cfg.domain + "/" + (r ? xml_escape(r->alltext()) : "srv") +
             "</jid></bind></iq>");
        break;
    }
    case S_SESSION:
    case S_LEGACY:
        send("<iq type='result' id='" + n.attr("id") + "'/>");
        break;
    case S_HANDSHAKE:
        send("<handshake/>");
        break;
    case S_SM_ENABLE: {
        sm_id = "sm" + std::to_string(++sm_serial);
        sessions[sm_id] = SmSession();
        sm_active = true;
        bool rs = cfg.sm_resume && (n.attr("resume") == "true" ||
                                    n.attr("resume") == "1");
        sessions[sm_id].alive = rs;
        send("<enabled xmlns='" NS_SM_ "'" +
             (rs ? " id='" + sm_id + "' resume='true'" : std::string()) + "/>");
        break;
    }
    case S_SM_RESUME: {
        auto i = sessions.find(n.attr("previd"));
        if (i == sessions.end() || !i->second.alive) {
            send("<failed xmlns='" NS_SM_ "'><item-not-found xmlns='" NS_STANZAS_
                 "'/></failed>");
        } else {
            sm_id = i->first;
            sm_active = true;
            bound = true;
            i->second.acked = strtoul(n.attr("h").c_str(), nullptr, 10);
            send("<resumed xmlns='" NS_SM_ "' previd='" + sm_id + "' h='" +
                 std::to_string(i->second.h) + "'/>");
        }
        break;
    }
    case S_R:
        if (SmSession *x = session())
            if (cfg.auto_ack)
                send("<a xmlns='" NS_SM_ "' h='" + std::to_string(x->h) + "'/>");
        break;
    case S_A:
        if (SmSession *x = session())
            x->acked = strtoul(n.attr("h").c_str(), nullptr, 10);
        break;
    case S_STANZA:
        if (SmSession *x = session()) {
            x->h++;
            x->seen.push_back(m.raw);
        }
        break;
    case S_CLOSE:
        if (cfg.sync_close && !closed_sent) {
            closed_sent = true;
            send("</stream:stream>");
            close();
        }
        break;
    default:
        break;
    }
}
int Server::count(Step s, int cn) const
{
    int r = 0;
    for (auto &m : log)
        r += m.step == s && (cn < 0 || m.conn_no == cn);
    return r;
}
const Msg *Server::find(Step s, int cn) const
{
    for (auto &m : log)
        if (m.step == s && (cn < 0 || m.conn_no == cn))
            return &m;
    return nullptr;
}
} // namespace world
