// Model of a stanza tree built through the public API, and what an independent
// parser should read from its rendering.
#pragma once
#include "fast.h"
#include <algorithm>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlerror.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace tree
{
struct T;
typedef std::shared_ptr<T> P;
struct T {
    int type = 0; // 0: unknown, 1: tag, 2: text
    std::string data;
    std::map<std::string, std::string> at;
    std::vector<P> kids;
    T *parent = nullptr;
};
inline P tag(const std::string &n)
{
    P p = std::make_shared<T>();
    p->type = 1;
    p->data = n;
    return p;
}
inline P text(const std::string &n)
{
    P p = std::make_shared<T>();
    p->type = 2;
    p->data = n;
    return p;
}
inline void add(const P &p, const P &c)
{
    p->kids.push_back(c);
    c->parent = p.get();
}
inline P copy(const P &p)
{
    P r = std::make_shared<T>();
    r->type = p->type;
    r->data = p->data;
    r->at = p->at;
    for (auto &k : p->kids)
        add(r, copy(k));
    return r;
}
inline bool renderable(const T &t)
{
    if (!t.type)
        return false;
    for (auto &k : t.kids)
        if (!renderable(*k))
            return false;
    return true;
}
typedef std::map<std::string, std::string> NS;
inline void put_attrs(std::string &o,
                      std::vector<std::pair<std::string, std::string>> &a)
{
    std::sort(a.begin(), a.end());
    for (auto &p : a)
        o += " " + p.first + "='" + p.second + "'";
}
// canonical form: expanded names, coalesced text. plain: attributes by local
// name, no namespace and jabber:client are the same
inline std::string shown_ns(const std::string &s, bool plain)
{
    return plain && s == "jabber:client" ? "" : s;
}
inline void expect(const T &t, NS ns, bool plain, std::string &o)
{
    for (auto &a : t.at) {
        if (a.first == "xmlns")
            ns[""] = a.second;
        else if (a.first.compare(0, 6, "xmlns:") == 0)
            ns[a.first.substr(6)] = a.second;
    }
    size_t c = t.data.find(':');
    std::string name = c == std::string::npos ? t.data : t.data.substr(c + 1);
    std::string pre = c == std::string::npos ? "" : t.data.substr(0, c);
    o += "<" + name + " {" + shown_ns(ns[pre], plain) + "}";
    std::vector<std::pair<std::string, std::string>> at;
    for (auto &a : t.at) {
        if (a.first == "xmlns" || a.first.compare(0, 6, "xmlns:") == 0)
            continue;
        c = a.first.find(':');
        if (c == std::string::npos)
            at.emplace_back(a.first, a.second);
        else if (plain)
            at.emplace_back(a.first.substr(c + 1), a.second);
        else
            at.emplace_back("{" + ns[a.first.substr(0, c)] + "}" +
                                a.first.substr(c + 1),
                            a.second);
    }
    put_attrs(o, at);
    o += ">";
    std::string pend;
    for (auto &k : t.kids) {
        if (k->type == 2) {
            pend += k->data;
            continue;
        }
        if (!pend.empty())
            o += "\"" + pend + "\"";
        pend.clear();
        expect(*k, ns, plain, o);
    }
    if (!pend.empty())
        o += "\"" + pend + "\"";
    o += "</>";
}
inline NS stream_ns()
{
    NS n;
    n[""] = "jabber:client";
    n["stream"] = "http://etherx.jabber.org/streams";
    n["xml"] = "http://www.w3.org/XML/1998/namespace";
    return n;
}
// what libxml2 reads
inline void ref_dump(xmlNode *n, std::string &o)
{
    o += "<";
    o += (const char *)n->name;
    o += " {";
    o += n->ns && n->ns->href ? (const char *)n->ns->href : "";
    o += "}";
    std::vector<std::pair<std::string, std::string>> at;
    for (xmlAttr *a = n->properties; a; a = a->next) {
        xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1);
        std::string k = (const char *)a->name;
        if (a->ns)
            k = std::string("{") + (const char *)a->ns->href + "}" + k;
        at.emplace_back(k, v ? (const char *)v : "");
        xmlFree(v);
    }
    put_attrs(o, at);
    o += ">";
    std::string pend;
    for (xmlNode *k = n->children; k; k = k->next) {
        if (k->type == XML_COMMENT_NODE || k->type == XML_PI_NODE)
            continue;
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) {
            pend += k->content ? (const char *)k->content : "";
            continue;
        }
        if (!pend.empty())
            o += "\"" + pend + "\"";
        pend.clear();
        if (k->type == XML_ELEMENT_NODE)
            ref_dump(k, o);
        else
            o += "<?? node type " + std::to_string(k->type) + ">";
    }
    if (!pend.empty())
        o += "\"" + pend + "\"";
    o += "</>";
}
inline int &xml_errors()
{
    static int n;
    return n;
}
inline void count_error(void *, xmlErrorPtr e)
{
    // any string makes a namespace name here
    if (e->level >= XML_ERR_ERROR && e->code != XML_WAR_NS_URI &&
        e->code != XML_WAR_NS_URI_RELATIVE)
        xml_errors()++;
}
// the contents of a stream; false if not well-formed
inline bool read_xml(const std::string &body, std::string &o,
                     const char *dflt = "jabber:client")
{
    static bool once;
    if (!once) {
        xmlInitParser();
        once = true;
    }
    xmlSetStructuredErrorFunc(nullptr, count_error);
    xml_errors() = 0;
    std::string d = std::string("<s xmlns='") + dflt +
                    "' "
                    "xmlns:stream='http://etherx.jabber.org/streams'>" +
                    body + "</s>";
    xmlDoc *x = xmlReadMemory(d.data(), (int)d.size(), nullptr, nullptr,
                              XML_PARSE_NOENT | XML_PARSE_NONET |
                                  XML_PARSE_HUGE);
    if (!x)
        return false;
    bool ok = !xml_errors();
    xmlNode *r = xmlDocGetRootElement(x);
    std::string t;
    ref_dump(r, t);
    xmlFreeDoc(x);
    const std::string pre = std::string("<s {") + dflt + "}>";
    if (!ok || t.compare(0, pre.size(), pre))
        return false;
    o = t.substr(pre.size(), t.size() - pre.size() - 3);
    return true;
}
// through the public accessors; coalesces text
inline void dump(xmpp_stanza_t *s, std::string &o, bool plain,
                 const std::string &inherited)
{
    const char *p = xmpp_stanza_get_name(s);
    o += "<";
    o += p ? p : "(null)";
    p = xmpp_stanza_get_ns(s);
    std::string ns = p ? p : inherited;
    o += " {" + shown_ns(ns, plain) + "}";
    int c = xmpp_stanza_get_attribute_count(s);
    std::vector<std::pair<std::string, std::string>> at;
    if (c > 0) {
        std::vector<const char *> v(2 * c);
        int k = xmpp_stanza_get_attributes(s, v.data(), 2 * c);
        if (k != 2 * c)
            mc::fail("attributes", "%d attributes, %d strings", c, k);
        for (int i = 0; i + 1 < k; i += 2) {
            const char *g = xmpp_stanza_get_attribute(s, v[i]);
            if (!g || strcmp(g, v[i + 1]))
                mc::fail("get-attribute", "%s is '%s' or '%s'", v[i],
                         v[i + 1], g ? g : "(null)");
            if (strcmp(v[i], "xmlns"))
                at.emplace_back(v[i], v[i + 1]);
        }
    }
    put_attrs(o, at);
    o += ">";
    std::string pend;
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k;
         k = xmpp_stanza_get_next(k)) {
        if (xmpp_stanza_is_text(k)) {
            const char *t = xmpp_stanza_get_text_ptr(k);
            pend += t ? t : "";
            continue;
        }
        if (!pend.empty())
            o += "\"" + pend + "\"";
        pend.clear();
        dump(k, o, plain, ns);
    }
    if (!pend.empty())
        o += "\"" + pend + "\"";
    o += "</>";
}
// exact structure of model and object, the same notation
inline void exact(const T &t, std::string &o)
{
    if (t.type == 2) {
        o += "\"" + t.data + "\"";
        return;
    }
    o += t.type ? "<" + t.data : "<?";
    for (auto &a : t.at)
        o += " " + a.first + "='" + a.second + "'";
    o += ">";
    for (auto &k : t.kids)
        exact(*k, o);
    o += "</>";
}
inline void exact(xmpp_stanza_t *s, std::string &o)
{
    if (xmpp_stanza_is_text(s)) {
        const char *t = xmpp_stanza_get_text_ptr(s);
        o += "\"" + std::string(t ? t : "(null)") + "\"";
        return;
    }
    const char *n = xmpp_stanza_get_name(s);
    o += xmpp_stanza_is_tag(s) ? "<" + std::string(n ? n : "(null)") : "<?";
    std::map<std::string, std::string> at;
    int c = xmpp_stanza_get_attribute_count(s);
    if (c > 0) {
        std::vector<const char *> v(2 * c);
        int k = xmpp_stanza_get_attributes(s, v.data(), 2 * c);
        for (int i = 0; i + 1 < k; i += 2)
            at[v[i]] = v[i + 1];
        if ((int)at.size() != c)
            o += " (" + std::to_string(c) + " attributes?)";
    }
    for (auto &a : at)
        o += " " + a.first + "='" + a.second + "'";
    o += ">";
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k;
         k = xmpp_stanza_get_next(k))
        exact(k, o);
    o += "</>";
}
inline std::string exact(const T &t)
{
    std::string o;
    exact(t, o);
    return o;
}
inline std::string exact(xmpp_stanza_t *s)
{
    std::string o;
    exact(s, o);
    return o;
}
// build through the API. order: 0 parent first, 1 children first; transfer:
// ownership of children is given away
inline xmpp_stanza_t *build(xmpp_ctx_t *ctx, const T &t, int order = 0,
                            bool transfer = true)
{
    xmpp_stanza_t *s = xmpp_stanza_new(ctx);
    auto fill = [&]() {
        int r = 0;
        if (t.type == 2) {
            r = (order & 2)
                    ? xmpp_stanza_set_text_with_size(s, Exact(t.data).p,
                                                     t.data.size())
                    : xmpp_stanza_set_text(s, t.data.c_str());
        } else if (t.type == 1) {
            r = xmpp_stanza_set_name(s, t.data.c_str());
            for (auto &a : t.at) {
                const char *k = a.first.c_str(), *v = a.second.c_str();
                if (a.first == "id")
                    r |= xmpp_stanza_set_id(s, v);
                else if (a.first == "type")
                    r |= xmpp_stanza_set_type(s, v);
                else if (a.first == "to")
                    r |= xmpp_stanza_set_to(s, v);
                else if (a.first == "from")
                    r |= xmpp_stanza_set_from(s, v);
                else if (a.first == "xmlns")
                    r |= xmpp_stanza_set_ns(s, v);
                else
                    r |= xmpp_stanza_set_attribute(s, k, v);
            }
        }
        if (r)
            mc::fail("build", "a setter failed: %d", r);
    };
    auto kids = [&]() {
        for (auto &k : t.kids) {
            xmpp_stanza_t *c = build(ctx, *k, order, transfer);
            int r;
            if (transfer)
                r = xmpp_stanza_add_child_ex(s, c, 0);
            else {
                r = xmpp_stanza_add_child(s, c);
                xmpp_stanza_release(c);
            }
            if (r)
                mc::fail("build", "add_child failed: %d", r);
        }
    };
    if (order & 1) {
        kids();
        fill();
    } else {
        fill();
        kids();
    }
    return s;
}
inline std::string also(const T &t, const NS &ns, bool plain)
{
    std::string o;
    if (t.type == 1)
        expect(t, ns, plain, o);
    return o;
}
// the rendering of s reads back as the model
// alt: namespaces of the place it was taken from, which may show as well
inline void check_rendering(xmpp_ctx_t *ctx, xmpp_stanza_t *s, const T &t,
                            const char *how, const NS *alt = nullptr)
{
    char *buf = (char *)1;
    size_t len = 77;
    int r = xmpp_stanza_to_text(s, &buf, &len);
    if (!renderable(t)) {
        if (r >= 0 || buf)
            mc::fail("render-incomplete",
                     "%s: rendering a tree with an empty node returns %d", how,
                     r);
        return;
    }
    if (r != 0 || !buf) {
        mc::fail("render-error", "%s: xmpp_stanza_to_text(%s) returns %d", how,
                 mc::printable(exact(t)).c_str(), r);
        return;
    }
    std::string x = buf;
    if (x.size() != len)
        mc::fail("length", "%s: reported %zu bytes, the string has %zu", how,
                 len, x.size());
    xmpp_free(ctx, buf);
    std::string want, got;
    if (t.type == 2)
        want = t.data.empty() ? "" : "\"" + t.data + "\"";
    else
        expect(t, stream_ns(), false, want);
    if (!read_xml(x, got))
        mc::fail("not-well-formed", "%s: %s is rendered as %s", how,
                 mc::printable(exact(t)).c_str(), mc::printable(x, 600).c_str());
    else if (got != want && !(alt && also(t, *alt, false) == got))
        mc::fail("read-back",
                 "%s: %s is rendered as %s, which is %s instead of %s", how,
                 mc::printable(exact(t)).c_str(), mc::printable(x, 600).c_str(),
                 mc::printable(got, 600).c_str(),
                 mc::printable(want, 600).c_str());
    if (t.type != 1 || t.data.find("stream:") == 0)
        return;
    Exact e(x + std::string(1, '\0'));
    xmpp_stanza_t *b = xmpp_stanza_new_from_string(ctx, e.p);
    if (!b) {
        mc::fail("from-string",
                 "%s: xmpp_stanza_new_from_string() refuses the rendering %s",
                 how, mc::printable(x, 600).c_str());
        return;
    }
    got.clear();
    want.clear();
    dump(b, got, true, "");
    expect(t, stream_ns(), true, want);
    if (got != want && !(alt && also(t, *alt, true) == got))
        mc::fail("from-string",
                 "%s: xmpp_stanza_new_from_string(%s) gives %s instead of %s",
                 how, mc::printable(x, 600).c_str(),
                 mc::printable(got, 600).c_str(),
                 mc::printable(want, 600).c_str());
    xmpp_stanza_release(b);
}
} // namespace tree
