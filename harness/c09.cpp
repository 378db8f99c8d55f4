// C09: what xmpp_stanza_to_text() returns is read back as the same tree by
// libxml2 and by the library; copies are independent; replies are addressed.
#include "tree.h"
#include <functional>
#include <set>
using namespace tree;

namespace
{
typedef std::string S;
S cp(uint32_t c)
{
    S s;
    if (c < 0x80)
        s += (char)c;
    else if (c < 0x800) {
        s += (char)(0xc0 | c >> 6);
        s += (char)(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += (char)(0xe0 | c >> 12);
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    } else {
        s += (char)(0xf0 | c >> 18);
        s += (char)(0x80 | (c >> 12 & 63));
        s += (char)(0x80 | (c >> 6 & 63));
        s += (char)(0x80 | (c & 63));
    }
    return s;
}
bool legal(uint32_t c, bool attr)
{
    if (c == '\r' || (attr && (c == '\t' || c == '\n')))
        return false;
    if (c < 0x20)
        return c == '\t' || c == '\n';
    return !(c >= 0xd800 && c < 0xe000) && c != 0xfffe && c != 0xffff &&
           c <= 0x10ffff;
}
S rep(const S &s, size_t n)
{
    S r;
    r.reserve(s.size() * n);
    while (n--)
        r += s;
    return r;
}
void one(FastCtx &f, const T &t, const char *how, int order = 0,
         bool transfer = true)
{
    xmpp_stanza_t *s = build(f.ctx, t, order, transfer);
    S e = exact(s);
    if (e != exact(t))
        mc::fail("accessors", "%s: built %s, the accessors show %s", how,
                 mc::printable(exact(t)).c_str(), mc::printable(e).c_str());
    check_rendering(f.ctx, s, t, how);
    xmpp_stanza_release(s);
    mc::evaluated(1);
}
// a text in every position that takes one
void content(FastCtx &f, const S &s, bool attr_legal)
{
    P a = tag("a");
    add(a, text(s));
    one(f, *a, "text");
    P b = tag("message");
    b->at["to"] = "x@y/z";
    P body = tag("body");
    add(body, text(s));
    add(b, body);
    add(b, tag("x"));
    add(b, text(s));
    one(f, *b, "mixed", 1);
    if (!attr_legal)
        return;
    P c = tag("iq");
    c->at["k"] = s;
    c->at["to"] = s;
    one(f, *c, "attribute");
    P d = tag("d");
    d->at["id"] = s;
    d->at["from"] = "x";
    P e = tag("e");
    e->at["k"] = s;
    add(d, e);
    add(d, text(s));
    one(f, *d, "attribute and text", 2);
    if (!s.empty() && s.find(':') == S::npos &&
        s.find("\xc2\xa0") == S::npos) {
        // any non-empty string is a namespace name
        P g = tag("g");
        g->at["xmlns"] = "urn:" + s;
        add(g, tag("h"));
        P i = tag("i");
        i->at["xmlns"] = "urn:" + s;
        add(g, i);
        one(f, *g, "namespace");
    }
}
void run_codepoints()
{
    FastCtx f;
    mc::allow_secs(60);
    int b = mc::choose(0x88, "block of 8192 code points") * 2;
    b += mc::choose(2, "half");
    for (uint32_t c = b * 0x1000; c < (uint32_t)(b + 1) * 0x1000; c += 32) {
        S t, a;
        for (uint32_t i = c; i < c + 32; i++) {
            if (legal(i, false))
                t += cp(i) + (i & 1 ? "x" : "");
            if (legal(i, true))
                a += cp(i) + (i & 1 ? "x" : "");
        }
        if (t.empty())
            continue;
        content(f, t, t == a);
        if (t != a)
            content(f, a, true);
    }
    // on their own
    for (uint32_t c = b * 0x1000; c < (uint32_t)(b + 1) * 0x1000;
         c += b < 4 ? 1 : 257)
        if (legal(c, false))
            content(f, cp(c), legal(c, true));
}
// every string over characters that mean something to XML
void run_strings()
{
    static const std::vector<S> al = {
        "<", ">", "&", "\"", "'", "]", "!", "-", "a", ";", "=", "/",
        "\xc3\xa9", " ", "\n", "\t", "amp;", "#60;", "[CDATA[", "?", "{", "%"};
    FastCtx f;
    mc::allow_secs(200);
    int n = (int)al.size();
    int i = mc::choose(n, "1st"), j = mc::choose(n, "2nd");
    int depth = mc::thorough() ? 4 : 3;
    std::function<void(const S &, bool, int)> go = [&](const S &s, bool attr,
                                                       int left) {
        if (mc::failed())
            return;
        content(f, s, attr);
        if (left)
            for (int k = 0; k < n; k++)
                go(s + al[k], attr && al[k] != "\n" && al[k] != "\t", left - 1);
    };
    bool at = al[i] != "\n" && al[i] != "\t";
    if (j == 0)
        content(f, al[i], at);
    at = at && al[j] != "\n" && al[j] != "\t";
    go(al[i] + al[j], at, depth - 2);
}
// sizes around the first buffer and its growth: every length, every kind of
// token at the boundary
void run_sizes()
{
    FastCtx f;
    mc::allow_secs(200);
    int kind = mc::choose(14, "kind");
    std::vector<std::pair<int, int>> r = {{0, 40},      {480, 530},
                                          {940, 1100},  {2000, 2080},
                                          {4080, 4110}, {8180, 8200}};
    if (mc::thorough())
        r = {{0, 2200}, {4000, 4200}, {8100, 8300}, {65500, 65560}};
    for (auto &p : r)
        for (int n = p.first; n < p.second && !mc::failed(); n++) {
            P t = tag("m");
            switch (kind) {
            case 0:
                add(t, text(rep("x", n)));
                break;
            case 1:
                t->at["k"] = rep("y", n);
                break;
            case 2: {
                P c = tag("c");
                add(c, text(rep("x", n)));
                add(t, c);
                add(t, tag("d"));
                add(t, text("t"));
                break;
            }
            case 3:
                add(t, text(rep("x", n) + "&<>\"" + rep("z", 3)));
                break;
            case 4:
                t->at["k"] = rep("x", n) + "&<>\"'";
                t->at["l"] = "2";
                t->at["m"] = "3";
                break;
            case 5:
                t = tag(rep("n", n + 1));
                add(t, tag("c"));
                break;
            case 6:
                add(t, text(rep("x", n)));
                add(t, tag("c"));
                add(t, text("&"));
                add(t, tag("d"));
                break;
            case 7: {
                t->at["xmlns"] = "u" + rep("r", n);
                P c = tag("c");
                c->at["xmlns"] = "u" + rep("r", n);
                add(t, c);
                break;
            }
            case 8:
                for (int i = 0; i < n / 5; i++)
                    add(t, tag("c"));
                add(t, text(rep("x", n % 5)));
                break;
            case 9: {
                P c = t;
                for (int i = 0; i < n / 7 && i < 1500; i++) {
                    P d = tag("d");
                    add(c, d);
                    c = d;
                }
                add(c, text(rep("x", n % 7 + 1)));
                break;
            }
            case 10:
                add(t, text(rep("\xc3\xa9", n / 2) + rep("x", n % 2)));
                break;
            case 11:
                for (int i = 0; i < n / 10; i++)
                    t->at["a" + std::to_string(1000 + i)] = "v";
                add(t, text(rep("x", n % 10)));
                break;
            case 12:
                add(t, text(rep("<", n / 4) + rep("x", n % 4)));
                break;
            case 13:
                t->at["k"] = rep("\"", n / 6) + rep("x", n % 6);
                add(t, tag("c"));
                break;
            }
            one(f, *t, "size");
            if (kind == 0 || kind == 10 || kind == 12) {
                one(f, *t->kids[0], "text node");
            }
        }
}
// all small trees
const std::vector<std::function<P()>> &nodes()
{
    static std::vector<std::function<P()>> v = {
        [] { return tag("a"); },
        [] {
            P p = tag("b");
            p->at["xmlns"] = "u";
            return p;
        },
        [] {
            P p = tag("c");
            p->at["xmlns"] = "jabber:client";
            p->at["k"] = "<&\"'>";
            return p;
        },
        [] { return text("x<y&z"); },
        [] {
            P p = tag("d");
            p->at["xmlns"] = "";
            return p;
        },
        [] {
            P p = tag("e");
            p->at["xmlns"] = "v";
            p->at["to"] = "";
            p->at["id"] = "1";
            return p;
        },
        [] { return text(""); },
        [] {
            P p = tag("x:f");
            p->at["xmlns:x"] = "w";
            p->at["x:k"] = "1";
            p->at["xml:lang"] = "de";
            return p;
        },
        [] {
            P p = tag("g");
            p->at["xmlns"] = "u";
            p->at["xmlns:y"] = "z";
            return p;
        },
    };
    return v;
}
P make(const std::vector<int> &par, const std::vector<int> &lab, bool &ok)
{
    std::vector<P> v;
    ok = true;
    for (size_t i = 0; i < lab.size(); i++) {
        v.push_back(nodes()[lab[i]]());
        if (i) {
            if (v[par[i]]->type == 2) {
                ok = false;
                return v[0];
            }
            add(v[par[i]], v[i]);
        }
    }
    return v[0];
}
void subtrees(FastCtx &f, const T &t, xmpp_stanza_t *s, NS ns)
{
    for (auto &a : t.at) {
        if (a.first == "xmlns")
            ns[""] = a.second;
        else if (a.first.compare(0, 6, "xmlns:") == 0)
            ns[a.first.substr(6)] = a.second;
    }
    xmpp_stanza_t *c = xmpp_stanza_get_children(s);
    for (auto &k : t.kids) {
        check_rendering(f.ctx, c, *k, "a child on its own", &ns);
        mc::evaluated(1);
        subtrees(f, *k, c, ns);
        c = xmpp_stanza_get_next(c);
    }
}
void run_trees(int maxn)
{
    FastCtx f;
    mc::allow_secs(300);
    int L = (int)nodes().size();
    int n = 1 + mc::choose(maxn, "nodes");
    std::vector<int> par(n), lab(n);
    lab[0] = mc::choose(L, "root");
    if (n > 1)
        lab[1] = mc::choose(L, "second");
    std::function<void(int)> go = [&](int i) {
        if (mc::failed())
            return;
        if (i == n) {
            bool ok;
            P t = make(par, lab, ok);
            if (!ok)
                return;
            int h = lab[0] + par[n - 1];
            xmpp_stanza_t *s = build(f.ctx, *t, h & 3, h & 1);
            check_rendering(f.ctx, s, *t, "tree");
            mc::evaluated(1);
            if (n <= 4) {
                one(f, *t, "tree, the other order", 3 - (h & 3), !(h & 1));
                subtrees(f, *t, s, stream_ns());
            }
            xmpp_stanza_release(s);
            return;
        }
        for (par[i] = 0; par[i] < (i ? i : 1); par[i]++) {
            if (i < 2)
                go(i + 1);
            else
                for (lab[i] = 0; lab[i] < L; lab[i]++)
                    go(i + 1);
        }
    };
    go(0);
}
// names
void run_names()
{
    FastCtx f;
    static const S first = "_aZ", other = "_aZ-.09";
    std::vector<S> v;
    for (char a : first) {
        v.push_back(S(1, a));
        for (char b : other) {
            v.push_back(S(1, a) + b);
            for (char c : other)
                v.push_back(S(1, a) + b + c);
        }
    }
    for (auto &x : {"\xc3\xa9", "\xc3\xa9t\xc3\xa9", "a\xc2\xb7", "xmpp", "e1",
                    "\xe4\xb8\x80"})
        v.push_back(x);
    for (auto &n : v) {
        P t = tag(n);
        t->at[n] = "v";
        P c = tag(n);
        c->at["xmlns"] = n;
        add(t, c);
        add(t, text(n));
        one(f, *t, "names");
    }
    // prefixes, declared here or above
    for (int where = 0; where < 3; where++)
        for (int redeclare = 0; redeclare < 2; redeclare++) {
            P a = tag(where == 0 ? "p:a" : "a"), b = tag("p:b"), c = tag("p:c");
            (where < 2 ? a : b)->at["xmlns:p"] = "urn:p";
            if (redeclare)
                c->at["xmlns:p"] = "urn:q";
            b->at["p:k"] = "1";
            b->at["k"] = where == 2 ? "1" : "2";
            if (where != 2)
                b->at.erase("k");
            add(a, b);
            add(b, c);
            if (where == 2)
                b->at.erase("k");
            one(f, *a, "prefixes");
        }
    // deep and wide
    for (int n : {10, 100, 500, 1000}) {
        P r = tag("r"), c = r;
        for (int i = 0; i < n; i++) {
            P k = tag(i % 3 ? "k" : "l");
            if (i % 2)
                k->at["xmlns"] = i % 4 == 1 ? "u" : "v";
            add(c, k);
            if (i % 5 == 0)
                add(c, text("t" + std::to_string(i)));
            c = k;
        }
        one(f, *r, "deep");
        P w = tag("w");
        for (int i = 0; i < n; i++) {
            P k = tag("k");
            k->at["n"] = std::to_string(i);
            add(w, k);
            add(w, text(std::to_string(i)));
        }
        one(f, *w, "wide");
    }
}
// attribute sets under set / replace / delete
void run_attributes()
{
    static const std::vector<S> keys = {"a",  "b",  "i",  "ai", "id",
                                        "to", "xmlns", "ia", "q"};
    FastCtx f;
    mc::allow_secs(200);
    int K = (int)keys.size();
    int o1 = mc::choose(2 * K, "1st"), o2 = mc::choose(2 * K, "2nd");
    int depth = mc::thorough() ? 6 : 5;
    std::vector<int> ops = {o1, o2};
    std::function<void()> go = [&]() {
        if (mc::failed())
            return;
        P t = tag("t");
        xmpp_stanza_t *s = xmpp_stanza_new(f.ctx);
        xmpp_stanza_set_name(s, "t");
        int n = 0;
        for (int o : ops) {
            const S &k = keys[o % K];
            n++;
            if (o < K) {
                S v = "v" + std::to_string(n);
                if (xmpp_stanza_set_attribute(s, k.c_str(), v.c_str()))
                    mc::fail("set-attribute", "set_attribute fails");
                t->at[k] = v;
            } else {
                int r = xmpp_stanza_del_attribute(s, k.c_str());
                bool had = t->at.erase(k) > 0;
                if ((r == 0) != had)
                    mc::fail("del-attribute",
                             "del_attribute of %s attribute returns %d",
                             had ? "an existing" : "a missing", r);
            }
        }
        for (auto &k : keys) {
            const char *v = xmpp_stanza_get_attribute(s, k.c_str());
            auto i = t->at.find(k);
            if ((i == t->at.end()) != !v || (v && i->second != v))
                mc::fail("get-attribute", "%s is %s", k.c_str(),
                         v ? v : "(null)");
        }
        if (xmpp_stanza_get_attribute_count(s) != (int)t->at.size())
            mc::fail("count", "%d attributes instead of %zu",
                     xmpp_stanza_get_attribute_count(s), t->at.size());
        // with arrays that are too short
        for (int n = 0; n <= 2 * (int)t->at.size() + 1; n++) {
            std::unique_ptr<const char *[]> v(new const char *[n + 1]);
            v[n] = "guard";
            int r = xmpp_stanza_get_attributes(s, v.get(), n);
            if (r != std::min(n, 2 * (int)t->at.size()) ||
                strcmp(v[n], "guard"))
                mc::fail("get-attributes", "%d slots: %d used", n, r);
        }
        if (ops.size() < 4 || ops[2] == 0)
            check_rendering(f.ctx, s, *t, "attributes");
        xmpp_stanza_t *c = xmpp_stanza_copy(s);
        if (exact(c) != exact(*t) || exact(s) != exact(*t))
            mc::fail("accessors", "%s, copy %s instead of %s",
                     exact(s).c_str(), exact(c).c_str(), exact(*t).c_str());
        xmpp_stanza_release(c);
        xmpp_stanza_release(s);
        mc::evaluated(1);
        if ((int)ops.size() < depth)
            for (int o = 0; o < 2 * K; o++) {
                ops.push_back(o);
                go();
                ops.pop_back();
            }
    };
    go();
}
// copies
void run_copies()
{
    FastCtx f;
    mc::allow_secs(200);
    int L = (int)nodes().size();
    const int n = 4;
    std::vector<int> par(n), lab(n);
    lab[0] = mc::choose(L, "root");
    lab[1] = mc::choose(L, "second");
    // the same change on model and object; which: preorder number
    typedef std::function<void(T *, xmpp_stanza_t *)> Change;
    std::vector<Change> changes = {
        [&](T *t, xmpp_stanza_t *s) {
            if (t->type == 1) {
                t->at["id"] = "new";
                xmpp_stanza_set_id(s, "new");
            } else {
                t->data = "new";
                xmpp_stanza_set_text(s, "new");
            }
        },
        [&](T *t, xmpp_stanza_t *s) {
            if (t->type == 1) {
                t->at.erase("k");
                t->at.erase("xmlns");
                xmpp_stanza_del_attribute(s, "k");
                xmpp_stanza_del_attribute(s, "xmlns");
            }
        },
        [&](T *t, xmpp_stanza_t *s) {
            if (t->type == 1) {
                t->data = "renamed";
                xmpp_stanza_set_name(s, "renamed");
                P c = tag("added");
                t->kids.push_back(c);
                xmpp_stanza_t *k = xmpp_stanza_new(f.ctx);
                xmpp_stanza_set_name(k, "added");
                xmpp_stanza_add_child_ex(s, k, 0);
            }
        },
    };
    std::function<bool(T *, xmpp_stanza_t *, int &, const Change &)> nth =
        [&](T *t, xmpp_stanza_t *s, int &n, const Change &c) {
            if (n-- == 0) {
                c(t, s);
                return true;
            }
            xmpp_stanza_t *k = xmpp_stanza_get_children(s);
            for (auto &m : t->kids) {
                if (nth(m.get(), k, n, c))
                    return true;
                k = xmpp_stanza_get_next(k);
            }
            return false;
        };
    for (int shape = 0; shape < 6; shape++)
        for (lab[2] = 0; lab[2] < L; lab[2]++)
            for (lab[3] = 0; lab[3] < L; lab[3]++) {
                par[1] = 0;
                par[2] = shape % 2;
                par[3] = shape / 2;
                bool ok;
                P t = make(par, lab, ok);
                if (!ok || mc::failed())
                    continue;
                S want = exact(*t);
                for (int ch = 0; ch < 3; ch++)
                    for (int node = 0; node < n; node++)
                        for (int side = 0; side < 2; side++) {
                            xmpp_stanza_t *s = build(f.ctx, *t, 0);
                            xmpp_stanza_t *c = xmpp_stanza_copy(s);
                            P m = copy(t);
                            int k = node;
                            nth(m.get(), side ? c : s, k, changes[ch]);
                            S a = exact(s), b = exact(c);
                            if (a != (side ? want : exact(*m)) ||
                                b != (side ? exact(*m) : want))
                                mc::fail("copy",
                                         "%s: after changing node %d of the %s "
                                         "the original is %s and the copy %s",
                                         want.c_str(), node,
                                         side ? "copy" : "original", a.c_str(),
                                         b.c_str());
                            if (side && ch == 0)
                                check_rendering(f.ctx, c, *m, "copy");
                            // whoever stays is whole
                            xmpp_stanza_release(side ? s : c);
                            if (exact(side ? c : s) != exact(*m))
                                mc::fail("copy", "damaged by a release");
                            xmpp_stanza_release(side ? c : s);
                            mc::evaluated(1);
                        }
                // copies of parts
                xmpp_stanza_t *s = build(f.ctx, *t, 1);
                xmpp_stanza_t *k = xmpp_stanza_get_children(s);
                for (auto &m : t->kids) {
                    xmpp_stanza_t *c = xmpp_stanza_copy(k);
                    if (exact(c) != exact(*m) || xmpp_stanza_get_next(c))
                        mc::fail("copy-part", "%s instead of %s",
                                 exact(c).c_str(), exact(*m).c_str());
                    if (m->type)
                        check_rendering(f.ctx, c, *m, "copy of a part");
                    xmpp_stanza_release(c);
                    k = xmpp_stanza_get_next(k);
                    mc::evaluated(1);
                }
                xmpp_stanza_release(s);
            }
}
// replies
void run_replies()
{
    FastCtx f;
    static const char *cond[] = {
        "bad-request",         "conflict",           "feature-not-implemented",
        "forbidden",           "gone",               "internal-server-error",
        "item-not-found",      "jid-malformed",      "not-acceptable",
        "not-allowed",         "not-authorized",     "policy-violation",
        "recipient-unavailable", "redirect",         "registration-required",
        "remote-server-not-found", "remote-server-timeout",
        "resource-constraint", "service-unavailable", "subscription-required",
        "undefined-condition", "unexpected-request"};
    static const char *etype[] = {"auth", "cancel", "continue", "modify",
                                  "wait"};
    static const char *name[] = {"message", "presence", "iq", "x"};
    static const S vals[] = {"", "a@b/c", "<&\"'>", "\xc3\xa9@x"};
    int nm = mc::choose(4, "name"), fr = mc::choose(5, "from");
    for (int to = 0; to < 5; to++)
        for (int rest = 0; rest < 32; rest++)
            for (int deep = 0; deep < 2; deep++) {
                P t = tag(name[nm]);
                if (fr)
                    t->at["from"] = vals[fr - 1];
                if (to)
                    t->at["to"] = vals[to - 1];
                if (rest & 1)
                    t->at["id"] = "i<d";
                if (rest & 2)
                    t->at["type"] = "get";
                if (rest & 4)
                    t->at["xmlns"] = "jabber:client";
                if (rest & 8)
                    t->at["xmlns"] = "urn:u";
                if (rest & 16)
                    t->at["k"] = "v";
                if (deep) {
                    P c = tag("query");
                    c->at["xmlns"] = "urn:q";
                    add(c, text("t"));
                    add(t, c);
                }
                S before = exact(*t);
                xmpp_stanza_t *s = build(f.ctx, *t);
                xmpp_stanza_t *r = xmpp_stanza_reply(s);
                auto get = [](xmpp_stanza_t *x, const char *k) {
                    const char *v = xmpp_stanza_get_attribute(x, k);
                    return v ? S(v) : S("\x01none");
                };
                auto addressed = [&](xmpp_stanza_t *r, const char *what) {
                    if (get(r, "to") != t->at["from"])
                        mc::fail("reply-to", "%s to %s is addressed to %s",
                                 what, before.c_str(), get(r, "to").c_str());
                    S id = t->at.count("id") ? t->at["id"] : "\x01none";
                    if (get(r, "id") != id)
                        mc::fail("reply-id", "%s: id %s", what,
                                 get(r, "id").c_str());
                    const char *n = xmpp_stanza_get_name(r);
                    if (!n || S(n) != name[nm])
                        mc::fail("reply-name", "%s: <%s/>", what,
                                 n ? n : "(null)");
                };
                if (!fr) {
                    if (r) {
                        mc::fail("reply-without-from",
                                 "a reply to a stanza without from");
                        xmpp_stanza_release(r);
                    }
                } else if (!r) {
                    mc::fail("reply", "no reply to %s", before.c_str());
                } else {
                    addressed(r, "reply");
                    S rf = get(r, "from");
                    if (rf != "\x01none" && rf != t->at["to"])
                        mc::fail("reply-from", "reply from %s", rf.c_str());
                    P m = tag(name[nm]);
                    m->at = t->at;
                    m->at.erase("from");
                    if (rf != "\x01none")
                        m->at["from"] = rf;
                    m->at["to"] = t->at["from"];
                    if (get(r, "xmlns") == "\x01none")
                        m->at.erase("xmlns");
                    check_rendering(f.ctx, r, *m, "reply");
                    if (exact(s) != before)
                        mc::fail("reply-modifies", "%s became %s",
                                 before.c_str(), exact(s).c_str());
                    // independent of the original
                    xmpp_stanza_set_attribute(s, "from", "other");
                    xmpp_stanza_set_attribute(s, "k", "other");
                    addressed(r, "reply, after a change of the original");
                    xmpp_stanza_set_attribute(s, "from", t->at["from"].c_str());
                    if (t->at.count("k"))
                        xmpp_stanza_set_attribute(s, "k", t->at["k"].c_str());
                    else
                        xmpp_stanza_del_attribute(s, "k");
                    xmpp_stanza_release(r);
                }
                t->at.erase("from");
                if (fr)
                    t->at["from"] = vals[fr - 1];
                for (size_t c = 0; c < sizeof cond / sizeof *cond; c++)
                    for (int y = 0; y < 5; y++)
                        for (int tx = 0; tx < 4; tx++) {
                            if ((rest || deep) &&
                                (c + y + tx + rest + to) % 23)
                                continue;
                            static const char *texts[] = {
                                nullptr, "why", "<b>&\"'\xc3\xa9\n]]>", ""};
                            xmpp_stanza_t *e = xmpp_stanza_reply_error(
                                s, etype[y], cond[c], texts[tx]);
                            mc::evaluated(1);
                            if (!fr) {
                                if (e) {
                                    mc::fail("error-without-from", "built");
                                    xmpp_stanza_release(e);
                                }
                                continue;
                            }
                            if (!e) {
                                mc::fail("reply-error", "no error reply to %s",
                                         before.c_str());
                                continue;
                            }
                            addressed(e, "error reply");
                            if (get(e, "type") != "error")
                                mc::fail("error-type", "type %s",
                                         get(e, "type").c_str());
                            S ef = get(e, "from");
                            if (ef != (to ? vals[to - 1] : "\x01none"))
                                mc::fail("error-from",
                                         "error reply to %s is from %s",
                                         before.c_str(), ef.c_str());
                            P m = tag(name[nm]);
                            m->at = t->at;
                            m->at.erase("from");
                            m->at.erase("to");
                            m->at["to"] = vals[fr - 1];
                            if (to)
                                m->at["from"] = vals[to - 1];
                            m->at["type"] = "error";
                            if (get(e, "xmlns") == "\x01none")
                                m->at.erase("xmlns");
                            P er = tag("error"), co = tag(cond[c]);
                            er->at["type"] = etype[y];
                            co->at["xmlns"] =
                                "urn:ietf:params:xml:ns:xmpp-stanzas";
                            add(er, co);
                            if (texts[tx]) {
                                P x = tag("text");
                                x->at = co->at;
                                add(x, text(texts[tx]));
                                add(er, x);
                            }
                            add(m, er);
                            check_rendering(f.ctx, e, *m, "error reply");
                            if (exact(s) != before)
                                mc::fail("reply-modifies", "%s became %s",
                                         before.c_str(), exact(s).c_str());
                            xmpp_stanza_release(e);
                        }
                // arguments that make no error
                for (int bad = 0; bad < 2; bad++) {
                    xmpp_stanza_t *e = xmpp_stanza_reply_error(
                        s, bad ? "cancel" : nullptr, bad ? nullptr : "gone",
                        "x");
                    if (e) {
                        mc::fail("error-arguments", "built without %s",
                                 bad ? "condition" : "type");
                        xmpp_stanza_release(e);
                    }
                }
                xmpp_stanza_release(s);
            }
}
// the other constructors
void run_helpers()
{
    FastCtx f;
    static const char *v[] = {nullptr, "", "x", "<&\"'>"};
    for (auto type : v)
        for (auto to : v)
            for (auto id : v) {
                P m = tag("message"), q = tag("iq");
                if (type)
                    m->at["type"] = q->at["type"] = type;
                if (to)
                    m->at["to"] = to;
                if (id)
                    m->at["id"] = q->at["id"] = id;
                xmpp_stanza_t *s = xmpp_message_new(f.ctx, type, to, id);
                check_rendering(f.ctx, s, *m, "message");
                for (S body : {S("hi"), S("<&>\"'\n\xc3\xa9"), S(""),
                               rep("long ", 300)}) {
                    xmpp_stanza_t *b = xmpp_message_new(f.ctx, type, to, id);
                    P mb = copy(m), bo = tag("body");
                    add(bo, text(body));
                    add(mb, bo);
                    if (xmpp_message_set_body(b, body.c_str()) != XMPP_EOK)
                        mc::fail("set-body", "set_body fails");
                    check_rendering(f.ctx, b, *mb, "body");
                    char *t = xmpp_message_get_body(b);
                    if ((t ? S(t) : S()) != body)
                        mc::fail("get-body", "get_body: %s", t ? t : "(null)");
                    if (t)
                        xmpp_free(f.ctx, t);
                    if (xmpp_message_set_body(b, "again") == XMPP_EOK)
                        mc::fail("set-body", "a second body is accepted");
                    if (exact(b) != exact(*mb))
                        mc::fail("set-body", "changed by a refused call");
                    xmpp_stanza_release(b);
                }
                xmpp_stanza_release(s);
                s = xmpp_iq_new(f.ctx, type, id);
                check_rendering(f.ctx, s, *q, "iq");
                xmpp_stanza_release(s);
                mc::evaluated(2);
            }
    xmpp_stanza_t *s = xmpp_presence_new(f.ctx);
    check_rendering(f.ctx, s, *tag("presence"), "presence");
    xmpp_stanza_release(s);
    // stream errors (RFC 6120, 4.9.3)
    static const std::map<int, S> se = {
        {XMPP_SE_BAD_FORMAT, "bad-format"},
        {XMPP_SE_BAD_NS_PREFIX, "bad-namespace-prefix"},
        {XMPP_SE_CONFLICT, "conflict"},
        {XMPP_SE_CONN_TIMEOUT, "connection-timeout"},
        {XMPP_SE_HOST_GONE, "host-gone"},
        {XMPP_SE_HOST_UNKNOWN, "host-unknown"},
        {XMPP_SE_IMPROPER_ADDR, "improper-addressing"},
        {XMPP_SE_INTERNAL_SERVER_ERROR, "internal-server-error"},
        {XMPP_SE_INVALID_FROM, "invalid-from"},
        {XMPP_SE_INVALID_ID, "invalid-id"},
        {XMPP_SE_INVALID_NS, "invalid-namespace"},
        {XMPP_SE_INVALID_XML, "invalid-xml"},
        {XMPP_SE_NOT_AUTHORIZED, "not-authorized"},
        {XMPP_SE_POLICY_VIOLATION, "policy-violation"},
        {XMPP_SE_REMOTE_CONN_FAILED, "remote-connection-failed"},
        {XMPP_SE_RESOURCE_CONSTRAINT, "resource-constraint"},
        {XMPP_SE_RESTRICTED_XML, "restricted-xml"},
        {XMPP_SE_SEE_OTHER_HOST, "see-other-host"},
        {XMPP_SE_SYSTEM_SHUTDOWN, "system-shutdown"},
        {XMPP_SE_UNDEFINED_CONDITION, "undefined-condition"},
        {XMPP_SE_UNSUPPORTED_ENCODING, "unsupported-encoding"},
        {XMPP_SE_UNSUPPORTED_STANZA_TYPE, "unsupported-stanza-type"},
        {XMPP_SE_UNSUPPORTED_VERSION, "unsupported-version"},
    };
    for (auto &p : se)
        for (auto tx : v) {
            xmpp_stanza_t *e =
                xmpp_error_new(f.ctx, (xmpp_error_type_t)p.first, tx);
            P m = tag("stream:error"), c = tag(p.second);
            c->at["xmlns"] = "urn:ietf:params:xml:ns:xmpp-streams";
            add(m, c);
            if (tx) {
                P t = tag("text");
                t->at = c->at;
                add(t, text(tx));
                add(m, t);
            }
            check_rendering(f.ctx, e, *m, "stream error");
            xmpp_stanza_release(e);
            mc::evaluated(1);
        }
    // incomplete trees
    for (int depth = 0; depth < 4; depth++)
        for (int after = 0; after < 2; after++) {
            P t = std::make_shared<T>();
            for (int i = 0; i < depth; i++) {
                P o = tag("o");
                if (after)
                    add(o, text(rep("x", 700)));
                add(o, t);
                t = o;
            }
            xmpp_stanza_t *s = build(f.ctx, *t);
            check_rendering(f.ctx, s, *t, "incomplete");
            xmpp_stanza_release(s);
        }
}
// what was parsed is rendered as the same thing
void run_parsed()
{
    static const std::vector<S> docs = {
        "<a/>", "<a>t</a>", "<a b='c'>t<d/>u</a>",
        "<a xmlns='u'><b/></a>", "<a xmlns='u'><b xmlns='v'><c/></b><d/></a>",
        "<a xmlns='u'><b xmlns=''/></a>",
        "<a xmlns='u'><b xmlns=''><c/><d xmlns='u'/></b><e/></a>",
        "<x:a xmlns:x='u'/>", "<x:a xmlns:x='u'><b/></x:a>",
        "<x:a xmlns:x='u'><b/><x:c/></x:a>",
        "<x:a xmlns:x='u' xmlns='w'><b/><x:b/></x:a>",
        "<a xmlns:x='u'><x:b><c/></x:b></a>",
        "<a xmlns:x='u'><x:b xmlns:x='w'><x:c/></x:b><x:d/></a>",
        "<a xmlns='jabber:client'><b/><c xmlns='u'/></a>",
        "<a xmlns='u'><b xmlns='jabber:client'><c/></b></a>",
        "<a>&lt;b&gt;&amp;amp;</a>", "<a b='&lt;&quot;&apos;&amp;#65;'/>",
        "<a><![CDATA[<b>]]>]]&gt;</a>", "<a>\xc3\xa9&#x1F600;</a>",
        "<a> <b> </b>\n</a>", "<a><!-- c -->x<?p?>y</a>",
        "<m><f xmlns='urn:xmpp:forward:0'><m xmlns='jabber:client'><b>x</b></m>"
        "</f></m>",
    };
    FastCtx f;
    for (auto &d : docs) {
        Exact e(d + S(1, '\0'));
        xmpp_stanza_t *s = xmpp_stanza_new_from_string(f.ctx, e.p);
        if (!s) {
            mc::fail("parsed-refused", "%s is refused", d.c_str());
            continue;
        }
        for (int round = 0; round < 3; round++) {
            char *b;
            size_t n;
            S want, got, want2, got2;
            if (!read_xml(d, want) || !read_xml(d, want2, ""))
                mc::fail("harness:doc", "%s", d.c_str());
            if (xmpp_stanza_to_text(s, &b, &n)) {
                mc::fail("parsed-render", "%s cannot be rendered", d.c_str());
                break;
            }
            S x(b, n);
            xmpp_free(f.ctx, b);
            // no namespace is the one of the stream, or really none
            if (!read_xml(x, got) || !read_xml(x, got2, "") ||
                (got != want && got2 != want2)) {
                mc::fail("parsed-read-back",
                         "\"%s\" was parsed and is rendered as \"%s\": %s "
                         "instead of %s",
                         d.c_str(), x.c_str(), got.c_str(), want.c_str());
                break;
            }
            xmpp_stanza_t *t =
                round == 0 ? xmpp_stanza_copy(s)
                           : xmpp_stanza_new_from_string(f.ctx, x.c_str());
            xmpp_stanza_release(s);
            s = t;
            mc::evaluated(1);
            if (!s)
                break;
        }
        if (s)
            xmpp_stanza_release(s);
    }
}
} // namespace
#include "stanza_prog.h"

void register_scenarios()
{
    mc::add("codepoints", run_codepoints, 0);
    mc::add("strings", run_strings, 0);
    mc::add("sizes", run_sizes, 0);
    mc::add("trees", [] { run_trees(mc::thorough() ? 6 : 5); }, 0);
    mc::add("names", run_names, 0);
    mc::add("attributes", run_attributes, 0);
    mc::add("copies", run_copies, 0);
    mc::add("replies", run_replies, 0);
    mc::add("helpers", run_helpers, 0);
    mc::add("parsed", run_parsed, 0);
    mc::add("programs", [] { prog::run(true); }, 0);
}
