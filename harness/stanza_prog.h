// All programs over the stanza API up to a length: explicit-state search over
// a model (forest of nodes, slots holding references); every transition of the
// model is executed on the library and compared.
#pragma once
#include "tree.h"
#include <functional>
#include <unordered_set>

namespace prog
{
using namespace tree;
typedef std::string S;
#ifdef PROG_STRUCTURE // more references, fewer contents
enum { SLOTS = 4, WORKERS = 240, NARGS = 1, NATTRS = 1 };
#else
enum { SLOTS = 3, WORKERS = 240, NARGS = 2, NATTRS = 3 };
#endif
struct Op {
    int kind, i, j, arg;
};
enum {
    NEW,
    NAME,
    TEXT,
    ATTR,
    DEL,
    NSET,
    ADD,
    GIVE,
    COPY,
    CLONE,
    REL,
    CHILD,
    NEXT,
    REPLY,
    ERROR,
    PARSE,
    SELF,
    KINDS
};
inline const char *const *names()
{
    static const char *n[] = {"a", "b"};
    return n;
}
inline const char *const *texts()
{
    static const char *n[] = {"t", "<&"};
    return n;
}
struct AttrV {
    const char *k, *v;
};
inline const AttrV *attrs()
{
    static const AttrV a[] = {{"k", "v"}, {"k", "\">"}, {"from", "f"}};
    return a;
}
inline const char *const *nss()
{
    static const char *n[] = {"u", "v", "jabber:client"};
    return n;
}
inline const char *doc()
{
    return "<a xmlns='u' k='v'><b>t</b></a>";
}
inline S show(const Op &o)
{
    switch (o.kind) {
    case NEW:
        return mc::fmt("s%d = xmpp_stanza_new(ctx)", o.j);
    case NAME:
        return mc::fmt("xmpp_stanza_set_name(s%d, \"%s\")", o.i,
                       names()[o.arg]);
    case TEXT:
        return mc::fmt("xmpp_stanza_set_text%s(s%d, \"%s\")",
                       o.arg ? "_with_size" : "", o.i, texts()[o.arg]);
    case ATTR:
        return mc::fmt("xmpp_stanza_set_attribute(s%d, \"%s\", \"%s\")", o.i,
                       attrs()[o.arg].k, attrs()[o.arg].v);
    case DEL:
        return mc::fmt("xmpp_stanza_del_attribute(s%d, \"k\")", o.i);
    case NSET:
        return mc::fmt("xmpp_stanza_set_ns(s%d, \"%s\")", o.i, nss()[o.arg]);
    case ADD:
        return mc::fmt("xmpp_stanza_add_child(s%d, s%d)", o.i, o.j);
    case GIVE:
        return mc::fmt("xmpp_stanza_add_child_ex(s%d, s%d, 0)", o.i, o.j);
    case COPY:
        return mc::fmt("s%d = xmpp_stanza_copy(s%d)", o.j, o.i);
    case CLONE:
        return mc::fmt("s%d = xmpp_stanza_clone(s%d)", o.j, o.i);
    case REL:
        return mc::fmt("xmpp_stanza_release(s%d)", o.i);
    case CHILD:
        return mc::fmt("s%d = clone(get_children(s%d))", o.j, o.i);
    case NEXT:
        return mc::fmt("s%d = clone(get_next(s%d))", o.j, o.i);
    case REPLY:
        return mc::fmt("s%d = xmpp_stanza_reply(s%d)", o.j, o.i);
    case ERROR:
        return mc::fmt("s%d = xmpp_stanza_reply_error(s%d, ...)", o.j, o.i);
    case PARSE:
        return mc::fmt("s%d = xmpp_stanza_new_from_string(\"%s\")", o.j, doc());
    default:
        return mc::fmt("set_name/text/attribute/ns(s%d, its own pointer)", o.i);
    }
}

struct Node {
    int type = 0;
    S data;
    std::map<S, S> at;
    std::vector<int> kids;
    int parent = -1;
    bool live = false;
};
// value semantics, so that states can be copied
struct M {
    std::vector<Node> n;
    int slot[SLOTS];
    M()
    {
        for (int &s : slot)
            s = -1;
    }
    int fresh()
    {
        for (size_t i = 0; i < n.size(); i++)
            if (!n[i].live) {
                n[i] = Node();
                n[i].live = true;
                return (int)i;
            }
        n.emplace_back();
        n.back().live = true;
        return (int)n.size() - 1;
    }
    int refs(int x) const
    {
        int r = n[x].parent >= 0;
        for (int s : slot)
            r += s == x;
        return r;
    }
    void reap(int x)
    {
        if (refs(x))
            return;
        std::vector<int> k = n[x].kids;
        n[x] = Node();
        for (int c : k) {
            n[c].parent = -1;
            reap(c);
        }
    }
    int nodes() const
    {
        int c = 0;
        for (auto &x : n)
            c += x.live;
        return c;
    }
    int dup(int x)
    {
        int r = fresh();
        n[r].type = n[x].type;
        n[r].data = n[x].data;
        n[r].at = n[x].at;
        std::vector<int> k = n[x].kids;
        for (int c : k) {
            int d = dup(c);
            n[d].parent = r;
            n[r].kids.push_back(d);
        }
        return r;
    }
    int from(const T &t)
    {
        int r = fresh();
        n[r].type = t.type;
        n[r].data = t.data;
        n[r].at = t.at;
        for (auto &k : t.kids) {
            int d = from(*k);
            n[d].parent = r;
            n[r].kids.push_back(d);
        }
        return r;
    }
    P tree(int x) const
    {
        P p = std::make_shared<T>();
        p->type = n[x].type;
        p->data = n[x].data;
        p->at = n[x].at;
        for (int c : n[x].kids)
            add(p, tree(c));
        return p;
    }
    // namespaces around x
    NS around(int x) const
    {
        std::vector<int> up;
        for (int p = n[x].parent; p >= 0; p = n[p].parent)
            up.push_back(p);
        NS ns = stream_ns();
        for (size_t i = up.size(); i--;) {
            auto a = n[up[i]].at.find("xmlns");
            if (a != n[up[i]].at.end())
                ns[""] = a->second;
        }
        return ns;
    }
    bool above(int a, int x) const // a is x or one of its ancestors
    {
        for (; x >= 0; x = n[x].parent)
            if (x == a)
                return true;
        return false;
    }
    void put(int x, S &o) const
    {
        const Node &k = n[x];
        o += (char)('0' + k.type);
        o += k.data;
        for (auto &a : k.at)
            o += ' ' + a.first + '=' + a.second;
        for (int i = 0; i < SLOTS; i++)
            if (slot[i] == x)
                o += '#' + std::to_string(i);
        o += '(';
        for (int c : k.kids)
            put(c, o);
        o += ')';
    }
    S key() const
    {
        S o;
        for (int i = 0; i < SLOTS; i++) {
            if (slot[i] < 0) {
                o += "-;";
                continue;
            }
            int r = slot[i];
            while (n[r].parent >= 0)
                r = n[r].parent;
            put(r, o);
            o += ';';
        }
        return o;
    }
};
inline P model_of(xmpp_stanza_t *s)
{
    P p = std::make_shared<T>();
    if (xmpp_stanza_is_text(s)) {
        p->type = 2;
        p->data = xmpp_stanza_get_text_ptr(s);
        return p;
    }
    p->type = 1;
    const char *nm = xmpp_stanza_get_name(s);
    p->data = nm ? nm : "";
    int c = xmpp_stanza_get_attribute_count(s);
    if (c > 0) {
        std::vector<const char *> v(2 * c);
        int k = xmpp_stanza_get_attributes(s, v.data(), 2 * c);
        for (int i = 0; i + 1 < k; i += 2)
            p->at[v[i]] = v[i + 1];
    }
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k;
         k = xmpp_stanza_get_next(k))
        add(p, model_of(k));
    return p;
}
inline int idle(const M &m)
{
    for (int i = 0; i < SLOTS; i++)
        if (m.slot[i] < 0)
            return i;
    return -1;
}
// the shape a helper gives, learnt once from the library and checked apart
struct Learnt {
    P parsed;
    P reply, error;
    bool keeps[2]; // other attributes are kept
    bool swaps[2]; // the old recipient is shown as sender
};
inline bool enabled(const M &m, const Op &o, int maxnodes)
{
    auto size = [&](int x) {
        int c = 0;
        std::function<void(int)> w = [&](int y) {
            c++;
            for (int k : m.n[y].kids)
                w(k);
        };
        w(x);
        return c;
    };
    int x = o.i >= 0 ? m.slot[o.i] : -1;
    if (o.i >= 0 && x < 0)
        return false;
    switch (o.kind) {
    case NEW:
        return o.j == idle(m) && m.nodes() < maxnodes;
    case PARSE:
        return o.j == idle(m) && m.nodes() + 3 <= maxnodes;
    case COPY:
        return o.j == idle(m) && m.nodes() + size(x) <= maxnodes;
    case CLONE:
    case CHILD:
    case NEXT:
        return o.j == idle(m);
    case REPLY:
        return o.j == idle(m) && m.nodes() < maxnodes && m.n[x].type == 1;
    case ERROR:
        return o.j == idle(m) && m.nodes() < maxnodes && m.n[x].type == 1;
    case TEXT:
        return m.n[x].kids.empty(); // text nodes have no children
    case ADD:
    case GIVE: {
        int y = m.slot[o.j];
        return y >= 0 && m.n[y].parent < 0 && !m.above(y, x) &&
               m.n[x].type != 2;
    }
    case DEL:
        return m.n[x].type == 1;
    case SELF:
        return m.n[x].type != 0;
    }
    return true;
}
// applies o to the model; rc: what the call must return (1: success of
// pointers and freed for release)
inline int apply(M &m, const Op &o, const Learnt &l)
{
    int x = o.i >= 0 ? m.slot[o.i] : -1, r;
    switch (o.kind) {
    case NEW:
        m.slot[o.j] = m.fresh();
        return 1;
    case NAME:
        if (m.n[x].type == 2)
            return 0;
        m.n[x].type = 1;
        m.n[x].data = names()[o.arg];
        return 1;
    case TEXT:
        if (m.n[x].type == 1)
            return 0;
        m.n[x].type = 2;
        m.n[x].data = texts()[o.arg];
        return 1;
    case ATTR:
        if (m.n[x].type != 1)
            return 0;
        m.n[x].at[attrs()[o.arg].k] = attrs()[o.arg].v;
        return 1;
    case DEL:
        m.n[x].at.erase("k");
        return 1;
    case NSET:
        if (m.n[x].type != 1)
            return 0;
        m.n[x].at["xmlns"] = nss()[o.arg];
        return 1;
    case ADD:
    case GIVE: {
        int y = m.slot[o.j];
        m.n[x].kids.push_back(y);
        m.n[y].parent = x;
        if (o.kind == GIVE)
            m.slot[o.j] = -1;
        return 1;
    }
    case COPY:
        m.slot[o.j] = m.dup(x);
        return 1;
    case CLONE:
        m.slot[o.j] = x;
        return 1;
    case REL:
        m.slot[o.i] = -1;
        r = !m.refs(x);
        m.reap(x);
        return r;
    case CHILD:
        if (m.n[x].kids.empty())
            return 0;
        m.slot[o.j] = m.n[x].kids[0];
        return 1;
    case NEXT: {
        int p = m.n[x].parent;
        if (p < 0)
            return 0;
        auto &k = m.n[p].kids;
        size_t at = std::find(k.begin(), k.end(), x) - k.begin();
        if (at + 1 >= k.size())
            return 0;
        m.slot[o.j] = k[at + 1];
        return 1;
    }
    case REPLY:
    case ERROR: {
        if (!m.n[x].at.count("from"))
            return 0;
        // name, to, and what the library keeps of the rest
        P k = o.kind == REPLY ? l.reply : l.error;
        P p = std::make_shared<T>();
        p->type = 1;
        p->data = m.n[x].data;
        p->at = k->at;
        auto other = m.n[x].at.find("k");
        if (l.keeps[o.kind == ERROR] && other != m.n[x].at.end())
            p->at["k"] = other->second;
        other = m.n[x].at.find("to");
        if (l.swaps[o.kind == ERROR] && other != m.n[x].at.end())
            p->at["from"] = other->second;
        for (auto &c : k->kids)
            add(p, copy(c));
        m.slot[o.j] = m.from(*p);
        return 1;
    }
    case PARSE:
        m.slot[o.j] = m.from(*l.parsed);
        return 1;
    case SELF:
        return 1;
    }
    return 1;
}
// the same on the library
struct Real {
    xmpp_stanza_t *s[SLOTS];
};
inline int apply(xmpp_ctx_t *ctx, Real &r, const Op &o)
{
    xmpp_stanza_t *x = o.i >= 0 ? r.s[o.i] : nullptr, *y;
    switch (o.kind) {
    case NEW:
        r.s[o.j] = xmpp_stanza_new(ctx);
        return !!r.s[o.j];
    case NAME:
        return xmpp_stanza_set_name(x, names()[o.arg]) == XMPP_EOK;
    case TEXT: {
        S t = texts()[o.arg];
        return (o.arg ? xmpp_stanza_set_text_with_size(x, Exact(t).p, t.size())
                      : xmpp_stanza_set_text(x, t.c_str())) == XMPP_EOK;
    }
    case ATTR:
        return xmpp_stanza_set_attribute(x, attrs()[o.arg].k,
                                         attrs()[o.arg].v) == XMPP_EOK;
    case DEL:
        xmpp_stanza_del_attribute(x, "k");
        return 1;
    case NSET:
        return xmpp_stanza_set_ns(x, nss()[o.arg]) == XMPP_EOK;
    case ADD:
        return xmpp_stanza_add_child(x, r.s[o.j]) == XMPP_EOK;
    case GIVE:
        y = r.s[o.j];
        r.s[o.j] = nullptr;
        return xmpp_stanza_add_child_ex(x, y, 0) == XMPP_EOK;
    case COPY:
        r.s[o.j] = xmpp_stanza_copy(x);
        return !!r.s[o.j];
    case CLONE:
        r.s[o.j] = xmpp_stanza_clone(x);
        return !!r.s[o.j];
    case REL:
        r.s[o.i] = nullptr;
        return !!xmpp_stanza_release(x);
    case CHILD:
        y = xmpp_stanza_get_children(x);
        r.s[o.j] = y ? xmpp_stanza_clone(y) : nullptr;
        return !!y;
    case NEXT:
        y = xmpp_stanza_get_next(x);
        r.s[o.j] = y ? xmpp_stanza_clone(y) : nullptr;
        return !!y;
    case REPLY:
        r.s[o.j] = xmpp_stanza_reply(x);
        return !!r.s[o.j];
    case ERROR:
        r.s[o.j] = xmpp_stanza_reply_error(x, "cancel", "gone", "w");
        return !!r.s[o.j];
    case PARSE:
        r.s[o.j] = xmpp_stanza_new_from_string(ctx, doc());
        return !!r.s[o.j];
    case SELF: {
        int e = 0;
        if (xmpp_stanza_is_text(x))
            e = xmpp_stanza_set_text(x, xmpp_stanza_get_text_ptr(x));
        else {
            e = xmpp_stanza_set_name(x, xmpp_stanza_get_name(x));
            for (auto k : {"k", "xmlns"}) {
                const char *v = xmpp_stanza_get_attribute(x, k);
                if (v)
                    e |= xmpp_stanza_set_attribute(x, k, v);
            }
        }
        return !e;
    }
    }
    return 1;
}
inline const std::vector<Op> &ops()
{
    static std::vector<Op> v;
    if (!v.empty())
        return v;
    for (int j = 0; j < SLOTS; j++) {
        v.push_back({NEW, -1, j, 0});
        v.push_back({PARSE, -1, j, 0});
    }
    for (int i = 0; i < SLOTS; i++) {
        for (int a = 0; a < NARGS; a++) {
            v.push_back({NAME, i, -1, a});
            v.push_back({TEXT, i, -1, a});
        }
        for (int a = 0; a < NATTRS; a++) {
            // "from" makes replies possible
            v.push_back({ATTR, i, -1, 2 - a});
            if (NATTRS > 1)
                v.push_back({NSET, i, -1, a});
        }
        if (NATTRS > 1)
            v.push_back({DEL, i, -1, 0});
        v.push_back({SELF, i, -1, 0});
        v.push_back({REL, i, -1, 0});
        for (int j = 0; j < SLOTS; j++) {
            if (j == i)
                continue;
            for (int k : {ADD, GIVE, COPY, CLONE, CHILD, NEXT, REPLY, ERROR})
                v.push_back({k, i, j, 0});
        }
    }
    return v;
}
struct Step {
    int prev, op;
};
struct Graph {
    std::vector<Step> st;          // states by the step that found them
    std::vector<Step> transitions; // from state, op
    size_t states = 0;
};
inline Learnt learn(xmpp_ctx_t *ctx)
{
    Learnt l;
    xmpp_stanza_t *s = xmpp_stanza_new_from_string(ctx, doc());
    l.parsed = model_of(s);
    xmpp_stanza_release(s);
    for (int k = 0; k < 2; k++) {
        s = xmpp_stanza_new(ctx);
        xmpp_stanza_set_name(s, "a");
        xmpp_stanza_set_from(s, "f");
        if (k) {
            xmpp_stanza_set_attribute(s, "k", "v");
            xmpp_stanza_set_to(s, "f");
        }
        for (int e = 0; e < 2; e++) {
            xmpp_stanza_t *r =
                e ? xmpp_stanza_reply_error(s, "cancel", "gone", "w")
                  : xmpp_stanza_reply(s);
            if (!r)
                r = xmpp_stanza_clone(s);
            if (!k)
                (e ? l.error : l.reply) = model_of(r);
            l.keeps[e] = xmpp_stanza_get_attribute(r, "k");
            l.swaps[e] = xmpp_stanza_get_from(r);
            xmpp_stanza_release(r);
        }
        xmpp_stanza_release(s);
    }
    return l;
}
inline const Graph &graph(const Learnt &l, int depth, int maxnodes)
{
    static std::map<int, Graph> cache;
    Graph &g = cache[depth * 100 + maxnodes];
    if (!g.st.empty())
        return g;
    std::vector<M> cur(1), nxt;
    std::vector<int> cid(1, 0), nid;
    g.st.push_back({-1, -1});
    std::unordered_set<uint64_t> seen;
    for (int d = 0; d < depth; d++) {
        nxt.clear();
        nid.clear();
        for (size_t c = 0; c < cur.size(); c++)
            for (size_t o = 0; o < ops().size(); o++) {
                if (!enabled(cur[c], ops()[o], maxnodes))
                    continue;
                g.transitions.push_back({cid[c], (int)o});
                if (d + 1 == depth)
                    continue;
                M m = cur[c];
                apply(m, ops()[o], l);
                // the last operation is part of the state
                S k = m.key() + "|" + std::to_string(ops()[o].kind);
                if (!seen.insert(mc::fnv(k)).second)
                    continue;
                g.st.push_back({cid[c], (int)o});
                nid.push_back((int)g.st.size() - 1);
                nxt.push_back(std::move(m));
            }
        cur.swap(nxt);
        cid.swap(nid);
    }
    return g;
}
inline void run(bool render)
{
    mc::allow_secs(mc::thorough() ? 600 : 60);
    int part = mc::choose(WORKERS, "part");
    FastCtx f;
    Learnt l = learn(f.ctx);
    const Graph &g = graph(l, mc::thorough() ? 7 : 6, 5);
    long base = f.a.live;
    std::vector<int> path;
    long done = 0;
    for (size_t t = part; t < g.transitions.size() && !mc::failed();
         t += WORKERS) {
        path.clear();
        path.push_back(g.transitions[t].op);
        for (int s = g.transitions[t].prev; g.st[s].prev >= 0; s = g.st[s].prev)
            path.push_back(g.st[s].op);
        M m;
        Real r;
        for (auto &x : r.s)
            x = nullptr;
        S text;
        for (size_t k = path.size(); k-- && !mc::failed();) {
            const Op &o = ops()[path[k]];
            if (mc::tracing() || !k) {
                text.clear();
                for (size_t j = path.size(); j-- > k;)
                    text += (text.empty() ? "" : "; ") + show(ops()[path[j]]);
            }
            int want = apply(m, o, l), got = apply(f.ctx, r, o);
            if (got != want)
                mc::fail("call-result", "%s: the last call returns %d not %d",
                         text.c_str(), got, want);
            if (k)
                continue; // earlier states are checked on their own
            for (int i = 0; i < SLOTS; i++) {
                if ((m.slot[i] < 0) != !r.s[i])
                    mc::fail("harness:slots", "%s", text.c_str());
                if (m.slot[i] < 0 || !r.s[i])
                    continue;
                P want = m.tree(m.slot[i]);
                S a = exact(*want), b = exact(r.s[i]);
                if (a != b)
                    mc::fail("tree", "%s: s%d is %s, not %s", text.c_str(), i,
                             mc::printable(b).c_str(),
                             mc::printable(a).c_str());
                if (render) {
                    NS ns = m.around(m.slot[i]);
                    check_rendering(f.ctx, r.s[i], *want, text.c_str(), &ns);
                } else if (renderable(*want)) {
                    char *buf;
                    size_t n;
                    if (xmpp_stanza_to_text(r.s[i], &buf, &n) == XMPP_EOK)
                        xmpp_free(f.ctx, buf);
                }
            }
        }
        // whatever is left goes, in both orders
        for (int i = 0; i < SLOTS; i++) {
            int k = t & 1 ? SLOTS - 1 - i : i;
            if (!r.s[k])
                continue;
            Op o = {REL, k, -1, 0};
            int want = apply(m, o, l), got = apply(f.ctx, r, o);
            if (got != want)
                mc::fail("release-result",
                         "%s; then release(s%d): says %d instead of %d",
                         text.c_str(), k, got, want);
        }
        if (f.a.live != base)
            mc::fail("balance", "%s: %ld blocks left after releasing all slots",
                     text.c_str(), f.a.live - base);
        done++;
        if (mc::tracing())
            mc::trace("%s", text.c_str());
    }
    mc::evaluated(done);
    mc::state(mc::fnv(mc::fmt("part %d", part)));
    if (!part)
        mc::sample(mc::fmt("%zu states, %zu transitions", g.st.size(),
                           g.transitions.size()));
}
} // namespace prog
