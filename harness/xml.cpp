#include "xml.h"
#include <cstdlib>
#include <cstring>

std::string Node::alltext() const
{
    std::string r;
    for (auto &k : kids)
        if (k.text)
            r += k.data;
    return r;
}
const Node *Node::child(const std::string &nm, const std::string &ns_) const
{
    for (auto &k : kids)
        if (!k.text && k.name == nm && (ns_ == "*" || k.ns == ns_))
            return &k;
    return nullptr;
}
std::string Node::attr(const std::string &k, const std::string &d) const
{
    auto i = attrs.find(k);
    return i == attrs.end() ? d : i->second;
}
std::string xml_escape(const std::string &s)
{
    std::string r;
    for (char c : s) {
        if (c == '<')
            r += "&lt;";
        else if (c == '>')
            r += "&gt;";
        else if (c == '&')
            r += "&amp;";
        else if (c == '"')
            r += "&quot;";
        else
            r += c;
    }
    return r;
}
std::string Node::str() const
{
    if (text)
        return xml_escape(data);
    std::string r = "<{" + ns + "}" + name;
    for (auto &a : attrs)
        r += " " + a.first + "=\"" + xml_escape(a.second) + "\"";
    r += ">";
    for (auto &k : kids)
        r += k.str();
    return r + "</>";
}

static bool namech(unsigned char c, bool first)
{
    if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' ||
        c == ':' || c >= 0x80)
        return true;
    return !first && ((c >= '0' && c <= '9') || c == '-' || c == '.');
}
static bool ws(unsigned char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
}
static void utf8(std::string &o, unsigned long c)
{
    if (c < 0x80)
        o += (char)c;
    else if (c < 0x800) {
        o += (char)(0xc0 | c >> 6);
        o += (char)(0x80 | (c & 63));
    } else if (c < 0x10000) {
        o += (char)(0xe0 | c >> 12);
        o += (char)(0x80 | ((c >> 6) & 63));
        o += (char)(0x80 | (c & 63));
    } else {
        o += (char)(0xf0 | c >> 18);
        o += (char)(0x80 | ((c >> 12) & 63));
        o += (char)(0x80 | ((c >> 6) & 63));
        o += (char)(0x80 | (c & 63));
    }
}
// decode references; false on error
static bool unescape(const std::string &s, std::string &o, bool attr)
{
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '<')
            return false;
        if (s[i] != '&') {
            unsigned char c = s[i];
            if (c < 0x20 && !ws(c))
                return false;
            if (attr && ws(c))
                o += ' ';
            else if (c == '\r') {
                if (i + 1 < s.size() && s[i + 1] == '\n')
                    continue;
                o += '\n';
            } else
                o += s[i];
            continue;
        }
        size_t e = s.find(';', i);
        if (e == std::string::npos)
            return false;
        std::string r = s.substr(i + 1, e - i - 1);
        if (r == "lt")
            o += '<';
        else if (r == "gt")
            o += '>';
        else if (r == "amp")
            o += '&';
        else if (r == "quot")
            o += '"';
        else if (r == "apos")
            o += '\'';
        else if (r.size() > 1 && r[0] == '#') {
            char *end;
            unsigned long v = r[1] == 'x' ? strtoul(r.c_str() + 2, &end, 16)
                                          : strtoul(r.c_str() + 1, &end, 10);
            if (*end || v == 0 || v > 0x10ffff)
                return false;
            utf8(o, v);
        } else
            return false;
        i = e;
    }
    return true;
}

int StreamReader::markup_end(size_t p, size_t &e)
{
    // find '>' of the tag at p, honouring quotes
    char q = 0;
    for (size_t i = p; i < buf.size(); i++) {
        if (q) {
            if (buf[i] == q)
                q = 0;
        } else if (buf[i] == '"' || buf[i] == '\'')
            q = buf[i];
        else if (buf[i] == '>') {
            e = i;
            return 1;
        }
    }
    return 0;
}

static void split(const std::string &q, std::string &pfx, std::string &loc)
{
    size_t c = q.find(':');
    if (c == std::string::npos) {
        pfx = "";
        loc = q;
    } else {
        pfx = q.substr(0, c);
        loc = q.substr(c + 1);
    }
}

int StreamReader::element(size_t &p, Node &n,
                          std::map<std::string, std::string> nsm,
                          bool only_open,
                          std::map<std::string, std::string> *out_ns,
                          bool *self_closed, std::string *qn)
{
    size_t e;
    if (!markup_end(p, e))
        return 0;
    std::string tag = buf.substr(p + 1, e - p - 1);
    bool sc = false;
    if (!tag.empty() && tag.back() == '/') {
        sc = true;
        tag.pop_back();
    }
    size_t i = 0;
    while (i < tag.size() && namech(tag[i], i == 0))
        i++;
    std::string qname = tag.substr(0, i);
    if (qname.empty())
        return -1;
    std::vector<std::pair<std::string, std::string>> at;
    while (i < tag.size()) {
        size_t j = i;
        while (j < tag.size() && ws(tag[j]))
            j++;
        if (j == tag.size())
            break;
        if (j == i)
            return -1;
        i = j;
        while (j < tag.size() && namech(tag[j], j == i))
            j++;
        std::string an = tag.substr(i, j - i);
        if (an.empty())
            return -1;
        while (j < tag.size() && ws(tag[j]))
            j++;
        if (j >= tag.size() || tag[j] != '=')
            return -1;
        j++;
        while (j < tag.size() && ws(tag[j]))
            j++;
        if (j >= tag.size() || (tag[j] != '"' && tag[j] != '\''))
            return -1;
        size_t k = tag.find(tag[j], j + 1);
        if (k == std::string::npos)
            return -1;
        std::string v;
        if (!unescape(tag.substr(j + 1, k - j - 1), v, true))
            return -1;
        for (auto &x : at)
            if (x.first == an)
                return -1; // duplicate attribute
        at.push_back({an, v});
        i = k + 1;
    }
    for (auto &a : at) {
        if (a.first == "xmlns")
            nsm[""] = a.second;
        else if (a.first.compare(0, 6, "xmlns:") == 0)
            nsm[a.first.substr(6)] = a.second;
    }
    nsm["xml"] = "http://www.w3.org/XML/1998/namespace";
    std::string pfx, loc;
    split(qname, pfx, loc);
    if (!pfx.empty() && !nsm.count(pfx))
        return -1;
    n.name = loc;
    n.ns = nsm.count(pfx) ? nsm[pfx] : "";
    for (auto &a : at) {
        if (a.first == "xmlns" || a.first.compare(0, 6, "xmlns:") == 0)
            continue;
        std::string ap, al;
        split(a.first, ap, al);
        if (ap.empty())
            n.attrs[al] = a.second;
        else {
            if (!nsm.count(ap))
                return -1;
            n.attrs["{" + nsm[ap] + "}" + al] = a.second;
        }
    }
    p = e + 1;
    if (out_ns)
        *out_ns = nsm;
    if (self_closed)
        *self_closed = sc;
    if (qn)
        *qn = qname;
    if (only_open || sc)
        return 1;
    // content
    std::string text;
    auto flush = [&]() {
        if (!text.empty()) {
            Node t;
            t.text = true;
            t.data = text;
            n.kids.push_back(t);
            text.clear();
        }
    };
    for (;;) {
        if (p >= buf.size())
            return 0;
        if (buf[p] == '<') {
            if (p + 1 >= buf.size())
                return 0;
            if (buf[p + 1] == '/') {
                size_t e2 = buf.find('>', p);
                if (e2 == std::string::npos)
                    return 0;
                std::string en = buf.substr(p + 2, e2 - p - 2);
                while (!en.empty() && ws(en.back()))
                    en.pop_back();
                if (en != qname)
                    return -1;
                flush();
                p = e2 + 1;
                return 1;
            }
            if (buf[p + 1] == '!') {
                if (buf.compare(p, 9, "<![CDATA[") == 0) {
                    size_t e2 = buf.find("]]>", p);
                    if (e2 == std::string::npos)
                        return 0;
                    text += buf.substr(p + 9, e2 - p - 9);
                    p = e2 + 3;
                    continue;
                }
                if (buf.size() < p + 9)
                    return 0;
                return -1;
            }
            flush();
            Node c;
            static int nest; // the reader is recursive
            if (nest > 1000)
                return -1;
            nest++;
            int r = element(p, c, nsm, false, nullptr, nullptr, nullptr);
            nest--;
            if (r <= 0)
                return r;
            n.kids.push_back(c);
        } else {
            size_t e2 = buf.find('<', p);
            if (e2 == std::string::npos)
                return 0;
            std::string t;
            if (!unescape(buf.substr(p, e2 - p), t, false))
                return -1;
            text += t;
            p = e2;
        }
    }
}

std::vector<Ev> StreamReader::feed(const std::string &bytes)
{
    std::vector<Ev> r;
    if (broken)
        return r;
    buf += bytes;
    auto bad = [&](const char *w) {
        broken = true;
        err = w;
        Ev e;
        e.t = Ev::ERR;
        e.raw = buf.substr(pos, 200);
        e.start = base + pos;
        r.push_back(e);
    };
    while (pos < buf.size()) {
        Ev ev;
        ev.start = base + pos;
        size_t p = pos;
        if (ws(buf[p])) {
            while (p < buf.size() && ws(buf[p]))
                p++;
            ev.t = Ev::SPACE;
        } else if (buf[p] != '<') {
            bad("character data at stream level");
            break;
        } else if (p + 1 >= buf.size()) {
            break;
        } else if (buf[p + 1] == '?') {
            size_t e = buf.find("?>", p);
            if (e == std::string::npos)
                break;
            p = e + 2;
            ev.t = Ev::PROLOG;
            in_stream = false;
        } else if (buf[p + 1] == '/') {
            size_t e = buf.find('>', p);
            if (e == std::string::npos)
                break;
            if (!in_stream || buf.substr(p + 2, e - p - 2) != roottag) {
                bad("unexpected closing tag");
                break;
            }
            p = e + 1;
            ev.t = Ev::CLOSE;
            in_stream = false;
        } else if (!in_stream && !(opens > 0 && roottag == "stream:stream" &&
                                   buf.compare(pos, 14, "<stream:stream"))) {
            std::map<std::string, std::string> none;
            bool sc;
            int x = element(p, ev.n, none, true, &rootns, &sc, &roottag);
            if (x == 0)
                break;
            if (x < 0) {
                bad("bad stream header");
                break;
            }
            ev.t = Ev::OPEN;
            opens++;
            in_stream = !sc;
        } else {
            int x = element(p, ev.n, rootns, false, nullptr, nullptr, nullptr);
            if (x == 0)
                break;
            if (x < 0) {
                bad("not well-formed");
                break;
            }
            ev.t = Ev::ELEM;
        }
        ev.raw = buf.substr(pos, p - pos);
        ev.end = base + p;
        pos = p;
        r.push_back(ev);
    }
    if (pos > 65536) {
        base += pos;
        buf.erase(0, pos);
        pos = 0;
    }
    return r;
}

bool xml_parse_one(const std::string &s, Node &out, const std::string &dns)
{
    StreamReader r;
    std::string root = "<r";
    if (!dns.empty())
        root += " xmlns='" + dns + "'";
    root += ">";
    auto v = r.feed(root + s + "</r>");
    if (r.broken || v.size() != 3 || v[1].t != Ev::ELEM ||
        v[2].t != Ev::CLOSE)
        return false;
    out = v[1].n;
    return true;
}
