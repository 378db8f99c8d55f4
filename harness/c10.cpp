// C10: what the library derives from inbound XML does not depend on how the
// bytes are split, and is what an independent XML parser reports.
// Reference: libxml2's DOM. Only documents it accepts without any error are
// compared with it; chunk invariance is checked for every byte string.
#include "fast.h"
#include "world.h"
#include <algorithm>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlerror.h>
using namespace world;
extern "C" {
typedef struct _parser_t parser_t;
typedef void (*parser_start_callback)(char *, char **, void *);
typedef void (*parser_end_callback)(char *, void *);
typedef void (*parser_stanza_callback)(xmpp_stanza_t *, void *);
parser_t *parser_new(xmpp_ctx_t *, parser_start_callback, parser_end_callback,
                     parser_stanza_callback, void *);
void parser_free(parser_t *);
char *parser_attr_name(xmpp_ctx_t *, char *);
int parser_reset(parser_t *);
int parser_feed(parser_t *, char *, int);
void strophe_free(const xmpp_ctx_t *, void *);
}

namespace
{
typedef std::vector<std::string> Events;
const bool exact_structure =
#ifdef C10_COALESCE
    false;
#else
    true;
#endif

// ------------------------------------------------------------ observations
typedef std::vector<std::pair<std::string, std::string>> Attrs;
void put_attrs(std::string &o, Attrs &a)
{
    std::sort(a.begin(), a.end());
    for (auto &p : a) {
        o += ' ';
        o += p.first;
        o += "='";
        o += p.second;
        o += '\'';
    }
}
void put_text(std::string &o, const std::string &t)
{
    o += "\"";
    o += t;
    o += "\"";
}
// coalesce: neighbouring text nodes count as one
void dump(xmpp_stanza_t *s, std::string &o, bool coalesce)
{
    const char *p = xmpp_stanza_get_name(s);
    o += '<';
    p = p ? p : "(null)";
    o += p;
    p = xmpp_stanza_get_ns(s);
    o += " {";
    o += p ? p : "";
    o += '}';
    int c = xmpp_stanza_get_attribute_count(s);
    Attrs at;
    if (c > 0) {
        std::vector<const char *> v(2 * c);
        int k = xmpp_stanza_get_attributes(s, v.data(), 2 * c);
        for (int i = 0; i + 1 < k; i += 2)
            if (strcmp(v[i], "xmlns"))
                at.emplace_back(v[i], v[i + 1]);
    }
    put_attrs(o, at);
    o += '>';
    std::string pend;
    bool have = false;
    for (xmpp_stanza_t *k = xmpp_stanza_get_children(s); k;
         k = xmpp_stanza_get_next(k)) {
        if (xmpp_stanza_is_text(k)) {
            const char *t = xmpp_stanza_get_text_ptr(k);
            pend += t ? t : "";
            have = true;
            if (!coalesce) {
                put_text(o, pend);
                pend.clear();
                have = false;
            }
            continue;
        }
        if (have)
            put_text(o, pend);
        pend.clear();
        have = false;
        dump(k, o, coalesce);
    }
    if (have)
        put_text(o, pend);
    o += "</>";
}
struct Obs {
    xmpp_ctx_t *ctx;
    Events ev;
    static void start(char *name, char **attrs, void *u)
    {
        Obs *o = (Obs *)u;
        std::string e = "S ";
        e += name ? name : "(null)";
        Attrs a;
        for (int i = 0; attrs && attrs[i]; i += 2) {
            char *n = parser_attr_name(o->ctx, attrs[i]);
            a.emplace_back(n ? n : "", attrs[i + 1] ? attrs[i + 1] : "");
            strophe_free(o->ctx, n);
        }
        put_attrs(e, a);
        o->ev.push_back(e);
    }
    static void end(char *, void *u) { ((Obs *)u)->ev.push_back("E"); }
    static void stanza(xmpp_stanza_t *s, void *u)
    {
        Obs *o = (Obs *)u;
        std::string e;
        dump(s, e, !exact_structure);
        o->ev.push_back(e);
    }
};
// the parser as the connection uses it: it stops at the first error
struct Parser {
    Obs o;
    parser_t *p;
    bool dead = false;
    explicit Parser(xmpp_ctx_t *ctx)
    {
        o.ctx = ctx;
        p = parser_new(ctx, Obs::start, Obs::end, Obs::stanza, &o);
    }
    ~Parser() { parser_free(p); }
    void feed(const char *d, size_t n)
    {
        if (dead || !n)
            return;
        Exact e(std::string(d, n));
        if (!parser_feed(p, e.p, (int)n)) {
            dead = true;
            o.ev.push_back("X");
        }
    }
    void reset()
    {
        dead = false;
        o.ev.clear();
        if (!parser_reset(p))
            mc::fail("reset", "parser_reset() fails");
    }
};
std::string show(const Events &e)
{
    std::string r;
    for (auto &x : e)
        r += mc::printable(x, 400) + " | ";
    return r;
}
// ------------------------------------------------------------ reference
int xml_errors;
void count_error(void *, xmlErrorPtr) { xml_errors++; }
void ref_dump(xmlNode *n, std::string &o)
{
    o += '<';
    o += (const char *)n->name;
    o += " {";
    o += n->ns && n->ns->href ? (const char *)n->ns->href : "";
    o += '}';
    Attrs at;
    // XMPP uses no namespaced attributes but xml:lang: local names, the
    // attribute without a namespace is the one of that name
    for (int pass = 0; pass < 2; pass++)
        for (xmlAttr *a = n->properties; a; a = a->next) {
            if (!a->ns != !pass)
                continue;
            std::string nm = (const char *)a->name;
            if (pass) {
                bool dup = nm == "xmlns";
                for (auto &x : at)
                    dup |= x.first == nm;
                if (dup)
                    continue;
            }
            xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1);
            at.emplace_back(nm, v ? (const char *)v : "");
            xmlFree(v);
        }
    put_attrs(o, at);
    o += '>';
    std::string pend;
    for (xmlNode *k = n->children; k; k = k->next) {
        if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) {
            pend += k->content ? (const char *)k->content : "";
        } else if (k->type == XML_ELEMENT_NODE) {
            if (!pend.empty())
                put_text(o, pend);
            pend.clear();
            ref_dump(k, o);
        }
    }
    if (!pend.empty())
        put_text(o, pend);
    o += "</>";
}
void xml_setup()
{
    static bool done;
    if (!done) {
        xmlInitParser();
        done = true;
    }
    xmlSetStructuredErrorFunc(nullptr, count_error);
}

bool reference(const std::string &doc, Events &ev)
{
    xml_setup();
    xml_errors = 0;
    xmlDoc *d = xmlReadMemory(doc.data(), (int)doc.size(), nullptr, nullptr,
                              XML_PARSE_NOENT | XML_PARSE_NONET |
                                  XML_PARSE_HUGE);
    if (!d)
        return false;
    bool ok = xml_errors == 0 && !d->intSubset;
    // libxml2's push parser does not normalise line ends in CDATA sections
    if (!exact_structure && doc.find("<![CDATA[") != std::string::npos &&
        doc.find('\r') != std::string::npos)
        ok = false;
    if (ok) {
        ev.clear();
        xmlNode *r = xmlDocGetRootElement(d);
        std::string s = "S ";
        s += (const char *)r->name;
        Attrs at;
        for (xmlAttr *a = r->properties; a; a = a->next) {
            xmlChar *v = xmlNodeListGetString(d, a->children, 1);
            at.emplace_back((const char *)a->name, v ? (const char *)v : "");
            xmlFree(v);
        }
        put_attrs(s, at);
        ev.push_back(s);
        for (xmlNode *k = r->children; k; k = k->next)
            if (k->type == XML_ELEMENT_NODE) {
                std::string o;
                ref_dump(k, o);
                ev.push_back(o);
            }
        ev.push_back("E");
    }
    xmlFreeDoc(d);
    return ok;
}
// ------------------------------------------------------------ comparison
// libxml2's push parser looks ahead: as long as a document is incomplete or
// broken it reports events earlier or later, depending on the pieces
bool same(const Events &a, const Events &b, bool complete)
{
    if (exact_structure || complete)
        return a == b;
    size_t n = std::min(a.size(), b.size());
    return std::equal(a.begin(), a.begin() + n, b.begin());
}
bool complete(const Events &e) { return !e.empty() && e.back() == "E"; }
struct Lab {
    FastCtx f;
    uint64_t n = 0, ndocs = 0, nwf = 0;
    Lab() { xml_setup(); }
    Events whole(const std::string &d)
    {
        Parser p(f.ctx);
        p.feed(d.data(), d.size());
        n++;
        return p.o.ev;
    }
    void differs(const std::string &d, const std::string &how, const Events &a,
                 const Events &b, const char *key)
    {
        mc::fail(key, "%s of \"%s\": %s instead of %s", how.c_str(),
                 mc::printable(d, 600).c_str(), show(b).c_str(),
                 show(a).c_str());
    }
    // split positions ascending
    void split(const std::string &d, const std::vector<size_t> &at,
               const Events &want)
    {
        Parser p(f.ctx);
        size_t o = 0;
        for (size_t x : at) {
            p.feed(d.data() + o, x - o);
            o = x;
        }
        p.feed(d.data() + o, d.size() - o);
        n++;
        if (!same(p.o.ev, want, complete(want))) {
            std::string h = "pieces ending at";
            for (size_t i = 0; i < at.size() && i < 12; i++)
                h += " " + std::to_string(at[i]);
            differs(d, h, want, p.o.ev, "split");
        }
    }
    void uniform(const std::string &d, size_t step, const Events &want)
    {
        std::vector<size_t> v;
        for (size_t i = step; i < d.size(); i += step)
            v.push_back(i);
        split(d, v, want);
    }
    // every prefix in one piece reports what the bytes so far reported
    void prefixes(const std::string &d)
    {
        Parser p(f.ctx);
        for (size_t i = 0; i < d.size(); i++) {
            p.feed(d.data() + i, 1);
            Events w = whole(d.substr(0, i + 1));
            if (!same(w, p.o.ev, complete(w)))
                differs(d.substr(0, i + 1), "single bytes", w, p.o.ev,
                        "prefix");
        }
    }
    // returns the events of the document in one piece
    Events check(const std::string &d, bool *wellformed = nullptr)
    {
        Events w = whole(d), r;
        ndocs++;
        bool wf = reference(d, r);
        if (wf) {
            nwf++;
            Events c = w;
            if (c != r)
                differs(d, "one piece", r, c, "reference");
        }
        if (wellformed)
            *wellformed = wf;
        uniform(d, 1, w);
        return w;
    }
    void two(const std::string &d, const Events &w)
    {
        for (size_t i = 1; i < d.size(); i++)
            split(d, {i}, w);
    }
    void three(const std::string &d, const Events &w, size_t stride = 1)
    {
        for (size_t i = 1; i < d.size(); i++)
            for (size_t j = i + 1; j < d.size(); j += stride)
                split(d, {i, j}, w);
    }
    void all_partitions(const std::string &d, const Events &w)
    {
        for (uint64_t m = 0; m < (1ull << (d.size() - 1)) && !mc::failed();
             m++) {
            std::vector<size_t> v;
            for (size_t i = 1; i < d.size(); i++)
                if (m >> (i - 1) & 1)
                    v.push_back(i);
            split(d, v, w);
        }
    }
    ~Lab()
    {
        mc::evaluated(n);
        mc::step(ndocs);
        long l = f.a.live;
        (void)l;
    }
};

// ------------------------------------------------------------ documents
const char *STREAM =
    "<stream:stream xmlns='jabber:client' "
    "xmlns:stream='http://etherx.jabber.org/streams' id='i&amp;1' "
    "from='example.org' version='1.0' xml:lang='en'>";
std::string in_stream(const std::string &s)
{
    return STREAM + s + "</stream:stream>";
}
std::string rep(const std::string &s, int n)
{
    std::string r;
    while (n-- > 0)
        r += s;
    return r;
}
// contents of a stream, well-formed or not
const std::vector<std::string> &contents()
{
    static std::vector<std::string> v;
    if (!v.empty())
        return v;
    v = {
        "<message/>",
        "<message></message>",
        "<message to='a@b/c' from=\"d\" id='1' type='chat'><body>hi</body>"
        "</message>",
        " <a/>\n\t<b/> \r\n<c/> ",
        "<a>t<b/>u<c>v</c>w</a>",
        "<a> <b> </b> </a>",
        "<a>\n</a>",
        "<a>x\ny\r\nz\rw</a>",
        "<a>x\r\r\n\n\r</a>",
        "<a>\r</a><a>\r\n</a>",
        "<a b='x\ny\tz\r\nw'/>",
        "<a b='  x  '/>",
        "<a b='&#10;&#13;&#9;&#32;'/>",
        "<a>&#10;&#13;&#9;&#32;</a>",
        "<a>&lt;&gt;&amp;&apos;&quot;</a>",
        "<a b='&lt;&gt;&amp;&apos;&quot;'/>",
        "<a>x&amp;y&#38;z&#x26;w</a>",
        "<a>&amp;lt;&#38;#60;</a>",
        "<a>&#65;&#x42;&#x00043;&#233;&#x20AC;&#x1F600;&#x10FFFF;</a>",
        "<a b='&#65;&#233;&#x20AC;&#x1F600;'/>",
        "<a>\xc3\xa9</a>",
        "<a>\xe2\x82\xac</a>",
        "<a>\xf0\x9f\x98\x80</a>",
        "<a>x\xc3\xa9y\xe2\x82\xacz\xf0\x9f\x98\x80w</a>",
        "<a b='\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80'/>",
        "<\xc3\xa9t\xc3\xa9 \xc3\xa0='1'/>",
        "<a>\xc3\xa9&lt;\xc3\xa9<![CDATA[\xc3\xa9]]>\xc3\xa9</a>",
        "<a>\xef\xbf\xbd\xed\x9f\xbf\xee\x80\x80</a>",
        "<a>\xf4\x8f\xbf\xbf</a>",
        "<a>\x7f\xc2\x80\xc2\x85\xe2\x80\xa8</a>",
        "<a><![CDATA[x]]></a>",
        "<a><![CDATA[]]></a>",
        "<a>x<![CDATA[<b>&amp;</b>]]>y</a>",
        "<a><![CDATA[]]]]><![CDATA[>]]></a>",
        "<a><![CDATA[]]]></a>",
        "<a><![CDATA[ ] ]] ]> ]]]></a>",
        "<a><![CDATA[x\r\ny\rz]]></a>",
        "<a>x<![CDATA[y]]>z<![CDATA[]]>w</a>",
        "<a><b><![CDATA[x]]></b><![CDATA[y]]></a>",
        "<a>]] ></a>",
        "<a>]&gt;]]</a>",
        "<a>a'b\"c>d</a>",
        "<a b='\"' c=\"'\" d='>'/>",
        "<a b='c>d/>e'/>",
        "<a ></a >",
        "<a\n\tb = 'c'\r\nd\n=\n\"e\"\n/>",
        "<a b=''/>",
        "<a></a><b></b><a/><b/>",
        "<a><a><a/></a></a>",
        "<a><b><c><d><e><f>x</f></e></d></c></b></a>",
        "<a>1<b>2<c>3</c>4</b>5</a>",
        "<a><b/><b/><b/></a>",
        // namespaces
        "<a xmlns='u'/>",
        "<a xmlns='u'><b/></a>",
        "<a xmlns='u'><b xmlns='w'><c/></b><d/></a>",
        "<a xmlns=''/>",
        "<a xmlns=''><b/></a>",
        "<a xmlns='u'><b xmlns=''/><c/></a>",
        "<x:a xmlns:x='u'/>",
        "<x:a xmlns:x='u'><b/><x:c/></x:a>",
        "<x:a xmlns:x='u' xmlns='w'><b/><x:b/></x:a>",
        "<a xmlns:x='u'><x:b xmlns:x='w'><x:c/></x:b><x:d/></a>",
        "<x:a xmlns:x='u'><x:b xmlns:x='u'/></x:a>",
        "<a><b xmlns='u'/><b/></a>",
        "<stream:features><x xmlns='u'/></stream:features>",
        "<stream:error><y xmlns='urn:ietf:params:xml:ns:xmpp-streams'/>"
        "</stream:error>",
        "<iq xmlns='jabber:client'/><iq xmlns='jabber:server'/>",
        "<a xmlns:x='u' x:b='1'/>",
        "<a xmlns:x='u' b='0' x:b='1'/>",
        "<a xmlns:x='u' x:b='1' b='0'/>",
        "<a xmlns:x='u' xmlns:y='v' x:b='1' c='2' y:d='3'/>",
        "<a xmlns:x='u' x:id='2' id='1' type='t' x:type='s'/>",
        "<x:a xmlns:x='u' x:b='1'/>",
        "<a xml:lang='de'/>",
        "<a xml:lang='de' lang='fr'><b xml:space='preserve'> </b></a>",
        "<a lang='fr' xml:lang='de'/>",
        "<a xmlns='' xmlns:x='u' x:xmlns='v'/>",
        "<a xmlns:x='u' x:xmlns='v'/>",
        "<xml:a/>",
        "<a xmlns='u&amp;v'/>",
        "<a xmlns=' u '/>",
        "<a xmlns='u v'><b/></a>",
        "<a xmlns='\xc3\xa9'/>",
        "<a xmlns='urn:a:b'><b xmlns='urn:a:b#c' d='e'/></a>",
        "<a xmlns='http://www.w3.org/XML/1998/namespace'/>",
        "<a xmlns:xml='http://www.w3.org/XML/1998/namespace'/>",
        "<_a-b.c1 _d-e.f2='3'/>",
        // things that are no element
        "<!-- c --><a/><!-- d -->",
        "<a>x<!-- c -->y</a>",
        "<a><!-- c --></a>",
        "<a><!----></a>",
        "<a>x<?p q?>y<?r?></a>",
        "<?p q?><a/>",
        "<a><!-- <b> ]]> &x; --></a>",
        "<a>x<!-- 1 --><!-- 2 -->y<b/><!-- 3 -->z</a>",
        // not well-formed
        "<a>",
        "</a>",
        "<a></b>",
        "<a/><b></a>",
        "<a>x<b></a></b>",
        "<a b='1' b='2'/>",
        "<a xmlns:x='u' xmlns:y='u' x:b='1' y:b='2'/>",
        "<x:a/>",
        "<a x:b='1'/>",
        "<a xmlns:x=''/>",
        "<a:b:c xmlns:a='u'/>",
        "<:a/>",
        "<a:/>",
        "<a b/>",
        "<a b=c/>",
        "<a b='<'/>",
        "<a b='&'/>",
        "<a 'b'/>",
        "<a b='1'c='2'/>",
        "<a/ >",
        "< a/>",
        "<1a/>",
        "<a>&</a>",
        "<a>&lt</a>",
        "<a>&x;</a>",
        "<a>&#;</a>",
        "<a>&#x;</a>",
        "<a>&#0;</a>",
        "<a>&#1;</a>",
        "<a>&#xD800;</a>",
        "<a>&#x110000;</a>",
        "<a>&#xFFFE;</a>",
        "<a>]]></a>",
        "<a>\x01</a>",
        "<a>\x1f</a>",
        std::string("<a>\0</a>", 8),
        "<a b='\x02'/>",
        "<a>\xc3</a>",
        "<a>\xa9</a>",
        "<a>\xc0\x80</a>",
        "<a>\xed\xa0\x80</a>",
        "<a>\xf4\x90\x80\x80</a>",
        "<a>\xff</a>",
        "<a>\xef\xbf\xbe</a>",
        "<a>\xe2\x82</a>",
        "\xe2\x82<a/>",
        "<a><!-- -- --></a>",
        "<a><!- x --></a>",
        "<a><!x></a>",
        "<a><?xml version='1.0'?></a>",
        "<?xml version='1.0'?><a/>",
        "<!DOCTYPE a><a/>",
        "<!DOCTYPE a [<!ENTITY b 'c'>]><a>&b;</a>",
        "<a><![CDATA[x]]</a>",
        "<a><![cdata[x]]></a>",
        "<![CDATA[x]]>",
        "x",
        "&amp;<a/>&#65;",
        "<a/></stream:stream>",
        "<a/></stream:stream><b/>",
        "<a/></stream:stream> \n",
        "<a/></stream:stream>x",
        "</stream>",
        "<a>x</a",
        "<a>x<",
        "<a>\r",
        "<a>x]",
        "<a>x]]",
        "<a",
        "<a b='x",
        "<stream:stream>",
        "<a/><stream:stream/><b/>",
    };
    return v;
}
// complete documents (the start of a stream in other forms)
const std::vector<std::string> &documents()
{
    static std::vector<std::string> v;
    if (!v.empty())
        return v;
    v = {
        "<?xml version='1.0'?><stream:stream xmlns='jabber:client' "
        "xmlns:stream='http://etherx.jabber.org/streams'><a/></stream:stream>",
        "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone='yes'?>\n"
        "<stream><a>\xc3\xa9</a></stream>\n",
        "<?xml version='1.0' encoding='utf-8'?><s><a>\xc3\xa9</a></s>",
        "<?xml version='1.0' encoding='ISO-8859-1'?><s><a>\xe9\xa9</a></s>",
        "<?xml version='1.0' encoding='US-ASCII'?><s><a>x</a></s>",
        "<?xml version='1.0' encoding='nope'?><s><a>x</a></s>",
        "<?xml version='1.1'?><s><a>x</a></s>",
        "<?xml version='2.0'?><s/>",
        "<?xml?><s/>",
        "<?xml version='1.0'",
        " <?xml version='1.0'?><s/>",
        "\n<s><a/></s>",
        "\xef\xbb\xbf<s><a>x</a></s>",
        "\xef\xbb\xbf<?xml version='1.0'?><s><a/></s>",
        "\xef\xbb<s/>",
        std::string("\xff\xfe<\0s\0>\0<\0a\0>\0\xe9\0<\0/\0a\0>\0<\0/\0s\0>\0",
                    36),
        std::string("\xfe\xff\0<\0s\0>\0<\0a\0/\0>\0<\0/\0s\0>", 28),
        std::string("<\0s\0>\0", 6),
        "<s/>",
        "<s></s>",
        "<s>",
        "<s><a/>",
        "<s/><t/>",
        "<s></s><a/>",
        "<s></s>x",
        "<s></s><!-- c -->\n<?p?>",
        "x<s/>",
        "",
        "<",
        "<!-- c --><s><a/></s>",
        "<!DOCTYPE s><s><a/></s>",
        "<!DOCTYPE s [<!ENTITY e 'x<b/>y'>]><s><a>1&e;2</a></s>",
        "<!DOCTYPE s [<!ENTITY e '&#60;b/>'>]><s><a>&e;</a></s>",
        "<!DOCTYPE s [<!ENTITY e 'x'><!ENTITY f '&e;&e;'>]><s><a b='&f;'>&f;"
        "</a></s>",
        "<!DOCTYPE s [<!ENTITY e SYSTEM 'file:///etc/passwd'>]><s><a>&e;</a>"
        "</s>",
        "<!DOCTYPE s [<!ATTLIST a b CDATA 'dflt'>]><s><a/></s>",
        "<!DOCTYPE s [<!ENTITY e '<a>'>]><s>&e;</a></s>",
        "<!DOCTYPE s [<!ENTITY % p '<!ENTITY e \"z\">'> %p;]><s><a>&e;</a></s>",
        "<!DOCTYPE s SYSTEM 'x.dtd'><s><a>&e;</a><b/></s>",
        "<stream xmlns='jabber:client'><a/></stream>",
        "<s id='1&lt;2' a='x\ny' xml:lang='en'/>",
        "<x:s xmlns:x='u' x:id='1' id='2'><x:a/></x:s>",
        "<x:s/>",
        "<s a='1' a='2'/>",
        "<s>text<a/>more</s>",
        "<s>&nope;<a/></s>",
        "<s>\xff<a/></s>",
    };
    return v;
}
// big documents: buffer growth in the library and in the XML parser
std::vector<std::string> big(bool th)
{
    std::vector<std::string> v;
    for (int n : {1, 2, 3, 31, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 2049,
                  4095, 4096, 4097, 8191, 8193}) {
        v.push_back("<a>" + rep("x", n) + "</a><b/>");
        v.push_back("<a b='" + rep("y", n) + "'>z</a><b/>");
        v.push_back("<" + rep("n", n) + "/><b/>");
        v.push_back("<a xmlns='u" + rep("r", n) + "'><b/></a>");
        v.push_back("<a><![CDATA[" + rep("]", n) + "]]></a><b/>");
        v.push_back("<a>" + rep("\xc3\xa9", n) + "</a>");
        v.push_back("<a>" + rep("\n", n) + "</a>");
        v.push_back("<a b='" + rep("&amp;", n) + "'>" + rep("&lt;", n) +
                    "</a>");
        v.push_back("<!--" + rep("c", n) + "--><a/>");
        v.push_back(rep(" ", n) + "<a/>");
        if (n <= 2049)
            v.push_back("<a>" + rep("<b/>", n) + "</a>");
        if (n <= 1025) {
            v.push_back(rep("<a>", n) + "x" + rep("</a>", n));
            std::string at = "<a";
            for (int i = 0; i < n; i++)
                at += " a" + std::to_string(i) + "='" + std::to_string(i) + "'";
            v.push_back(at + "/>");
            v.push_back(rep("<a/>", n));
        }
    }
    if (th) {
        v.push_back("<a>" + rep("x", 65536) + "</a>");
        v.push_back("<a>" + rep("\xe2\x82\xac", 30000) + "</a>");
        v.push_back("<a b='" + rep("x", 65537) + "'/>");
    }
    return v;
}

// ------------------------------------------------------------ scenarios
void run_contents()
{
    Lab l;
    int i = mc::choose((int)contents().size() / 2 + 1, "document");
    for (size_t k = 2 * i; k < contents().size() && k < (size_t)2 * i + 2;
         k++) {
        const std::string &c = contents()[k];
        std::string d = in_stream(c);
        mc::trace("%s", mc::printable(d).c_str());
        Events w = l.check(d);
        l.two(d, w);
        l.prefixes(d);
        for (size_t n = 2; n < d.size(); n++)
            l.uniform(d, n, w);
        // the same without the frame: every three-way split
        for (auto &e : {"<s>" + c + "</s>", "<s xmlns='d'>" + c}) {
            Events v = l.check(e);
            l.two(e, v);
            l.prefixes(e);
            if (e.size() <= (mc::thorough() ? 200u : 80u))
                l.three(e, v);
            else
                l.three(e, v, 7);
        }
        mc::sample(mc::printable(d, 200) + " -> " + show(w));
    }
}
void run_documents()
{
    Lab l;
    int i = mc::choose((int)documents().size(), "document");
    const std::string &d = documents()[i];
    Events w = l.check(d);
    if (d.empty())
        return;
    l.two(d, w);
    l.prefixes(d);
    l.three(d, w);
    for (size_t n = 2; n < d.size(); n++)
        l.uniform(d, n, w);
    if (d.size() <= 14)
        l.all_partitions(d, w);
}
// every partition of short documents
void run_partitions()
{
    static const std::vector<std::string> v = {
        "<s><a>&lt;</a>",  "<s><a>\xc3\xa9\r</a>", "<s><a b='&lt;'/>",
        "<s><a>x</a></s>", "<s><a>\xf0\x9f\x98\x80</a>", "<s><a xmlns='u'/>",
        "<s><a>\r\n</a>x", "<s><a b='\r\n'/>", "<s><a>&#9;</a>",
        "<s><a>]]&gt;</a>", "<s><a>]]></a>",  "<s><a>&x;</a>",
        "<s><a>\xe2\x82</a>", "<s><a/><b/></s>", "<s><a><b/>x</a>",
        "<s><!----><a/>", "<s><a></b></a>", "<s> <a/> </s><",
    };
    Lab l;
    mc::allow_secs(60);
    int i = mc::choose((int)v.size(), "document");
    int half = mc::choose(4, "quarter");
    Events w = l.check(v[i]);
    size_t n = v[i].size() - 1;
    for (uint64_t m = 0; m < (1ull << n) && !mc::failed(); m++) {
        if ((int)(m & 3) != half)
            continue;
        std::vector<size_t> at;
        for (size_t b = 0; b < n; b++)
            if (m >> b & 1)
                at.push_back(b + 1);
        l.split(v[i], at, w);
    }
}
// all strings over small alphabets of tokens, inside a stream
struct Alphabet {
    const char *name, *pre, *post;
    std::vector<std::string> t;
    int quick, deep;
};
const std::vector<Alphabet> &alphabets()
{
    static const std::vector<Alphabet> v = {
        {"tags", "<s xmlns='d'>", "</s>",
         {"<a>", "</a>", "<b c='1'>", "</b>", "<x:d xmlns:x='u'/>", "t", " "},
         7, 8},
        {"text", "<s><a>", "</a></s>",
         {"x", "\r", "\n", "&lt;", "&#13;", "\xc3\xa9", "]", "<b/>"}, 6, 7},
        {"cdata", "<s><a>", "</a></s>",
         {"<![CDATA[", "]]>", "]", ">", "x", "&", "<b/>", "\r\n"}, 6, 7},
        {"comments", "<s><a>", "</a></s>",
         {"<!--", "-->", "-", "x", "<?p", "?>", "<b/>", "&amp;"}, 6, 7},
        {"attributes", "<s xmlns='d'><a ", "/></s>",
         {"b='1'", " ", "c=\"", "\"", "&gt;", "xmlns='u'", "x:b='2'",
          "xmlns:x='v'", "=", "\n"},
         6, 7},
        {"namespaces", "<s xmlns='d' xmlns:x='e'>", "</s>",
         {"<a>", "<a xmlns='u'>", "<a xmlns=''>", "<a xmlns:x='w'>", "</a>",
          "<x:b/>", "<b x:c='1' c='2'/>"},
         7, 8},
        {"bytes", "<s>", "</s>", {"<", "/", ">", "a", " ", "&", ";", "'", "="},
         7, 8},
        {"utf8", "<s><a>", "</a></s>",
         {"\xc3", "\xa9", "\xe2", "\x82", "\xf0", "\x9f", "\x98", "x", "\xed",
          "\xa0"},
         6, 7},
        {"entity", "<s><a>", "</a></s>",
         {"&", ";", "#", "x", "l", "t", "1", "0", "3", "lt"}, 6, 7},
    };
    return v;
}
void run_tokens(const Alphabet &a, int depth)
{
    Lab l;
    mc::allow_secs(300);
    int k = (int)a.t.size();
    // two tokens are chosen by the explorer, the others in a loop
    int first = mc::choose(k + 1, "first token"); // k: none
    int second = first < k ? mc::choose(k + 1, "second token") : k;
    std::vector<int> idx;
    std::string base;
    if (first < k)
        base += a.t[first];
    if (second < k)
        base += a.t[second];
    int left = first < k && second < k ? depth - 2 : 0;
    std::function<void(const std::string &, int)> go =
        [&](const std::string &s, int n) {
            if (mc::failed())
                return;
            std::string d = a.pre + s + a.post;
            Events w = l.check(d);
            if (n >= left - 2) // the shorter ones with every split
                for (size_t i = strlen(a.pre); i < d.size(); i++)
                    l.split(d, {i}, w);
            if (n == 0)
                return;
            for (int i = 0; i < k; i++)
                go(s + a.t[i], n - 1);
        };
    go(base, left);
    mc::state(mc::fnv(mc::fmt("%s%llu/%llu", a.name,
                              (unsigned long long)l.nwf,
                              (unsigned long long)l.ndocs)));
    if (l.nwf)
        mc::sample(mc::fmt("%s: %llu documents starting with \"%s\", %llu well-"
                           "formed",
                           a.name, (unsigned long long)l.ndocs,
                           mc::printable(base).c_str(),
                           (unsigned long long)l.nwf));
}
void run_big()
{
    static std::vector<std::string> v = big(mc::thorough());
    Lab l;
    mc::allow_secs(60);
    int i = mc::choose((int)(v.size() + 9) / 10, "group");
    for (size_t k = 10 * i; k < v.size() && k < (size_t)10 * i + 10; k++) {
        std::string d = in_stream(v[k]);
        Events w = l.check(d);
        for (size_t n : {2, 3, 7, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096,
                         4097})
            l.uniform(d, n, w);
        std::set<size_t> at;
        size_t h = strlen(STREAM);
        for (size_t c : {h, h + 1024, h + 4096, (size_t)1024, (size_t)4096,
                         d.size()})
            for (size_t x = c > 12 ? c - 12 : 1; x < c + 12; x++)
                if (x < d.size())
                    at.insert(x);
        for (size_t x : at)
            l.split(d, {x}, w);
    }
}
// a restart starts from a clean slate: any prefix of one document, then
// parser_reset(), then another document
void run_reset()
{
    static const std::vector<std::string> second = {
        "<?xml version='1.0'?><s id='2'><b c='d'>y<e/>z</b></s>",
        "<x:s xmlns:x='u'><x:b>\xc3\xa9</x:b><c/></x:s>",
        "<s xmlns='v'><c/>",
        "\xef\xbb\xbf<s><b></s>",
        "<y:s/>",
        "</s>",
    };
    Lab l;
    size_t nc = contents().size();
    int i = mc::choose((int)(nc + documents().size()), "first document");
    std::string d =
        (size_t)i < nc ? "<s xmlns='d' xmlns:y='w'>" + contents()[i] + "</s>"
                       : documents()[i - nc];
    std::vector<Events> want;
    for (auto &s : second)
        want.push_back(l.whole(s));
    for (size_t cut = 0; cut <= d.size(); cut++)
        for (size_t s = 0; s < second.size(); s++)
            for (int bytewise = 0; bytewise < 2; bytewise++) {
                Parser p(l.f.ctx);
                if (bytewise)
                    for (size_t b = 0; b < cut; b++)
                        p.feed(d.data() + b, 1);
                else
                    p.feed(d.data(), cut);
                p.reset();
                p.feed(second[s].data(), second[s].size());
                l.n++;
                if (p.o.ev != want[s]) {
                    l.differs(second[s],
                              "after a restart that followed \"" +
                                  mc::printable(d.substr(0, cut)) + "\"",
                              want[s], p.o.ev, "restart");
                    return;
                }
                // and once more
                p.reset();
                p.feed(second[0].data(), second[0].size());
                if (p.o.ev != want[0]) {
                    l.differs(second[0], "after two restarts", want[0],
                              p.o.ev, "restart");
                    return;
                }
            }
}
// xmpp_stanza_new_from_string() reads the same tree
void run_from_string()
{
    Lab l;
    int i = mc::choose((int)contents().size() / 4 + 1, "contents");
    std::vector<std::string> v;
    for (size_t k = 4 * i; k < contents().size() && k < (size_t)4 * i + 4; k++)
        v.push_back(contents()[k]);
    if (i == 0)
        for (auto &b : big(mc::thorough()))
            v.push_back(b);
    for (auto &c : v) {
        if (c.find('\0') != std::string::npos)
            continue;
        Exact e(c + std::string(1, '\0'));
        std::string got;
        xmpp_stanza_t *s = xmpp_stanza_new_from_string(l.f.ctx, e.p);
        if (s) {
            dump(s, got, !exact_structure);
            xmpp_stanza_release(s);
        }
        l.n++;
        Events r;
        if (!reference("<stream>" + c + "</stream>", r) || r.size() != 3)
            continue; // exactly one element
        if (got != r[1])
            mc::fail("from-string",
                     "xmpp_stanza_new_from_string(\"%s\"): %s instead of %s",
                     mc::printable(c).c_str(), mc::printable(got).c_str(),
                     mc::printable(r[1]).c_str());
    }
}

// parsers do not influence each other: two are fed in turns, and a third one is
// used from within the callbacks
void run_interleave()
{
    size_t nc = contents().size();
    int i = mc::choose((int)nc, "first document");
    Lab l;
    FastCtx other;
    for (int shift : {1, 7, 30})
        for (int same = 0; same < 2; same++) {
            std::string a = in_stream(contents()[i]);
            std::string b =
                "<s xmlns='d'>" + contents()[(i + shift) % nc] + "<z>9</z></s>";
            Events wa = l.whole(a), wb = l.whole(b);
            for (size_t step : {1, 2, 5}) {
                Parser p(l.f.ctx), q(same ? l.f.ctx : other.ctx);
                size_t n = std::max(a.size(), b.size());
                for (size_t o = 0; o < n; o += step) {
                    if (o < a.size())
                        p.feed(a.data() + o, std::min(step, a.size() - o));
                    if (o < b.size())
                        q.feed(b.data() + o, std::min(step, b.size() - o));
                }
                l.n += 2;
                if (p.o.ev != wa)
                    l.differs(a, "fed in turns with another parser", wa,
                              p.o.ev, "interleaved");
                if (q.o.ev != wb)
                    l.differs(b, "fed in turns with another parser", wb,
                              q.o.ev, "interleaved");
            }
        }
}
struct Nested : Obs {
    std::vector<std::string> inner;
    static void stanza(xmpp_stanza_t *s, void *u)
    {
        Nested *o = (Nested *)(Obs *)u;
        Obs::stanza(s, u);
        xmpp_stanza_t *c = xmpp_stanza_new_from_string(
            o->ctx, "<i xmlns='n'>a<j k='&amp;'/>b</i>");
        std::string d;
        if (c) {
            dump(c, d, false);
            xmpp_stanza_release(c);
        }
        o->inner.push_back(d);
    }
};
void run_nested()
{
    Lab l;
    for (auto &c : contents()) {
        std::string d = in_stream(c);
        Events w = l.whole(d);
        for (size_t step : {(size_t)1, (size_t)3, d.size()}) {
            Nested o;
            o.ctx = l.f.ctx;
            parser_t *p = parser_new(l.f.ctx, Obs::start, Obs::end,
                                     Nested::stanza, (Obs *)&o);
            for (size_t at = 0; at < d.size(); at += step) {
                Exact e(d.substr(at, step));
                if (!parser_feed(p, e.p, (int)e.n)) {
                    o.ev.push_back("X");
                    break;
                }
            }
            parser_free(p);
            l.n++;
            if (o.ev != w)
                l.differs(d, "with a parser used in the callback", w, o.ev,
                          "nested");
            for (auto &i : o.inner)
                if (i != "<i {n}>\"a\"<j {n} k='&'></>\"b\"</>")
                    mc::fail("nested-inner",
                             "xmpp_stanza_new_from_string() in a callback: %s",
                             mc::printable(i).c_str());
        }
    }
}

// ------------------------------------------------------------ connections
struct Seen {
    std::vector<std::string> ev;
    static int on_stanza(xmpp_conn_t *, xmpp_stanza_t *s, void *u)
    {
        std::string o;
        dump(s, o, !exact_structure);
        ((Seen *)u)->ev.push_back(o);
        return 1;
    }
    void note(const Note &n)
    {
        ev.push_back(mc::fmt("note %s error %d stream error %d/%s", n.name(),
                             n.error, n.se ? n.se_type : -1,
                             n.se_text.c_str()));
    }
};
enum Flavour { F_SESSION, F_TLS, F_ZLIB, F_SM, F_RAW, F_COMPONENT, F_N };
// the simulated TLS layer replaces OpenSSL's
Flavour choose_flavour()
{
    Flavour f = (Flavour)mc::choose(F_N, "flavour");
    return f == F_TLS && !exact_structure ? F_SESSION : f;
}
const char *flavour_name[] = {"session", "TLS", "zlib", "SM", "raw",
                              "component"};
struct Conn {
    Client c;
    Server srv;
    Seen seen;
    Flavour f;
    explicit Conn(Flavour fl) : f(fl)
    {
        srv.install();
        srv.cfg.starttls = f == F_TLS;
        srv.cfg.compress = f == F_ZLIB;
        srv.cfg.sm = f == F_SM;
        if (f == F_COMPONENT) {
            srv.cfg.component = true;
            srv.cfg.sid = "i&amp;&lt;&gt;&quot;&apos;\xc3\xa9&#x20AC; 1";
        }
        xmpp_conn_set_jid(c.conn, f == F_COMPONENT ? "comp.example.org"
                                                   : "user@example.org/res");
        xmpp_conn_set_pass(c.conn, "secret");
        if (f == F_ZLIB)
            xmpp_conn_set_flags(c.conn, XMPP_CONN_FLAG_ENABLE_COMPRESSION);
        if (f == F_TLS)
            xmpp_conn_set_flags(c.conn, XMPP_CONN_FLAG_TRUST_TLS);
        xmpp_handler_add(c.conn, Seen::on_stanza, nullptr, nullptr, nullptr,
                         &seen);
        c.on_note = [this](const Note &n) {
            seen.note(n);
            if (f == F_RAW && n.event == XMPP_CONN_RAW_CONNECT)
                xmpp_conn_open_stream_default(c.conn);
        };
    }
    void connect()
    {
        int r = f == F_RAW         ? c.connect_raw("h", 5222)
                : f == F_COMPONENT ? c.connect_component("h", 5347)
                                   : c.connect("h", 5222);
        if (r != XMPP_EOK)
            mc::fail("harness:connect", "connect refused");
        c.settle(8000);
    }
    bool up()
    {
        return f == F_RAW ? srv.streams > 0 : c.up;
    }
    // stanzas, notifications and what the client sent
    std::string all(size_t from)
    {
        std::string r;
        for (size_t i = from; i < seen.ev.size(); i++)
            r += seen.ev[i] + "\n";
        return r;
    }
};
// the body of a session in pieces
std::string deliver_as(Flavour f, const std::string &doc,
                       const std::vector<size_t> &at, bool end)
{
    sim::reset();
    Conn k(f);
    k.connect();
    if (!k.up()) {
        mc::fail("harness:up", "%s does not come up", flavour_name[f]);
        return "";
    }
    size_t from = k.seen.ev.size(), wire = k.srv.plain_all.size();
    k.srv.muted = true;
    k.srv.chunker = [&](const std::string &b) {
        // the pieces of the XML are also the pieces on the transport, except
        // that compression and TLS add their framing
        std::vector<std::string> v;
        size_t o = 0;
        for (size_t x : at)
            if (x < b.size()) {
                v.push_back(b.substr(o, x - o));
                o = x;
            }
        v.push_back(b.substr(o));
        return v;
    };
    k.srv.send(doc);
    k.c.settle(4000);
    if (f == F_ZLIB) // what waits inside the library does not show
        k.c.steps(80);
    if (end) {
        k.srv.close();
        k.c.settle(50);
        if (f == F_ZLIB)
            k.c.steps(80);
    }
    std::string r = k.all(from);
    r += "sent " + k.srv.plain_all.substr(wire) + "\n";
    r += mc::fmt("state %d", k.c.disconnected());
    k.c.settle(20);
    if (!k.c.disconnected()) {
        k.srv.close();
        k.c.settle(50);
    }
    k.c.release();
    return r;
}
void run_conn()
{
    Flavour f = choose_flavour();
    size_t nc = contents().size();
    int i = mc::choose((int)nc, "contents");
    std::string d = contents()[i];
    if (d.find("<?xml") == std::string::npos)
        d += "<message id='last'/>";
    mc::allow_secs(60);
    std::string w = deliver_as(f, d, {}, true);
    auto cmp = [&](const std::vector<size_t> &at, const char *how) {
        std::string g = deliver_as(f, d, at, true);
        mc::evaluated(1);
        if (g != w && !mc::failed())
            mc::fail("conn-split",
                     "%s connection, \"%s\" %s: %s instead of %s",
                     flavour_name[f], mc::printable(d).c_str(), how,
                     mc::printable(g, 900).c_str(),
                     mc::printable(w, 900).c_str());
    };
    std::vector<size_t> by;
    for (size_t n = 1; n < d.size() + 200; n++)
        by.push_back(n);
    cmp(by, "in single bytes");
    for (size_t step : {2, 3, 5}) {
        std::vector<size_t> v;
        for (size_t n = step; n < d.size() + 200; n += step)
            v.push_back(n);
        cmp(v, mc::fmt("in pieces of %zu", step).c_str());
    }
    if (f == F_SESSION || mc::thorough())
        for (size_t n = 1; n < d.size() && !mc::failed(); n++)
            cmp({n}, mc::fmt("in two pieces at %zu", n).c_str());
    // against the reference
    Events r;
    std::string frame =
        std::string("<stream:stream xmlns='") +
        (f == F_COMPONENT ? "jabber:component:accept" : "jabber:client") +
        "' xmlns:stream='http://etherx.jabber.org/streams'>";
    if (reference(frame + d + "</stream:stream>", r)) {
        std::string want;
        for (size_t n = 1; n + 1 < r.size(); n++)
            want += r[n] + "\n";
        std::string got;
        size_t o = 0;
        while (o < w.size()) {
            size_t e = w.find("\n", o);
            // text may contain line feeds: stop at the first notification
            if (w.compare(o, 5, "note ") == 0 || w.compare(o, 5, "sent ") == 0)
                break;
            got += w.substr(o, e - o + 1);
            o = e + 1;
        }
        bool plain = d.find("stream:") == std::string::npos;
        if (plain && got != want)
            mc::fail("conn-reference",
                     "%s connection, \"%s\": handlers saw %s instead of %s",
                     flavour_name[f], mc::printable(d).c_str(),
                     mc::printable(got, 900).c_str(),
                     mc::printable(want, 900).c_str());
    }
}
void run_conn_big()
{
    static std::vector<std::string> v = big(false);
    Flavour f = choose_flavour();
    int i = mc::choose((int)v.size(), "contents");
    const std::string &d = v[i];
    mc::allow_secs(60);
    std::string w = deliver_as(f, d, {}, true);
    mc::evaluated(1);
    Events r;
    std::string frame =
        std::string("<stream:stream xmlns='") +
        (f == F_COMPONENT ? "jabber:component:accept" : "jabber:client") +
        "' xmlns:stream='http://etherx.jabber.org/streams'>";
    if (reference(frame + d + "</stream:stream>", r)) {
        std::string want;
        for (size_t n = 1; n + 1 < r.size(); n++)
            want += r[n] + "\n";
        if (w.compare(0, want.size(), want) ||
            w.compare(want.size(), 5, "note "))
            mc::fail("conn-big-reference",
                     "%s connection, %zu bytes \"%s\": handlers saw %s instead "
                     "of %s",
                     flavour_name[f], d.size(), mc::printable(d, 60).c_str(),
                     mc::printable(w.size()>300?w.substr(w.size()-300):w, 300).c_str(),
                     mc::printable(want.substr(want.size() > 100 ? want.size() - 100 : 0), 200).c_str());
    }
    if (d.size() > 20000 && !mc::thorough())
        return;
    for (size_t step : {509, 1024, 4095, 4096, 4097}) {
        std::vector<size_t> at;
        for (size_t n = step; n < d.size(); n += step)
            at.push_back(n);
        if (at.empty() || mc::failed())
            break;
        std::string g = deliver_as(f, d, at, true);
        mc::evaluated(1);
        if (g != w)
            mc::fail("conn-big-split",
                     "%s connection, %zu bytes \"%s\" in pieces of %zu: %s "
                     "instead of %s",
                     flavour_name[f], d.size(), mc::printable(d, 60).c_str(),
                     step, mc::printable(g, 300).c_str(),
                     mc::printable(w, 300).c_str());
    }
}
// the user opens a new stream in the middle of anything (raw connection)
void run_restart()
{
    size_t nc = contents().size();
    int i = mc::choose((int)nc, "contents");
    const std::string d = contents()[i];
    mc::allow_secs(60);
    const std::string second = "<x>y<e xmlns='u'/>z</x>";
    std::string want;
    for (int cut = -1; cut <= (int)d.size() && !mc::failed(); cut++) {
        sim::reset();
        Conn k(F_RAW);
        k.connect();
        k.srv.muted = true;
        if (cut >= 0)
            k.srv.send(d.substr(0, cut));
        k.c.settle(60);
        if (!k.c.connected() ||
            k.srv.plain_all.find("<stream:error>") != std::string::npos ||
            k.srv.plain_all.find("</stream") != std::string::npos) {
            k.srv.close(); // this stream has ended
            k.c.settle(60);
            k.c.release();
            continue;
        }
        k.srv.muted = false;
        int streams = k.srv.streams;
        xmpp_conn_open_stream_default(k.c.conn);
        k.c.settle(60);
        if (k.srv.streams != streams + 1)
            mc::fail("harness:restart", "no second stream header");
        size_t from = k.seen.ev.size();
        k.srv.muted = true;
        k.srv.send(second);
        k.c.settle(60);
        std::string g = k.all(from);
        k.srv.close();
        k.c.settle(60);
        k.c.release();
        mc::evaluated(1);
        if (cut < 0)
            want = g;
        else if (g != want)
            mc::fail("restart",
                     "after \"%s\" the next stream delivers %s instead of %s",
                     mc::printable(d.substr(0, cut)).c_str(),
                     mc::printable(g).c_str(), mc::printable(want).c_str());
    }
    if (want.empty())
        mc::fail("harness:restart", "nothing received after a restart");
}
// the negotiation in pieces: everything the server sends
void run_negotiation()
{
    Flavour f = choose_flavour();
    mc::allow_secs(60);
    auto play = [&](int msg, size_t at, size_t step, bool coalesce) {
        sim::reset();
        Conn k(f);
        int n = 0;
        size_t longest = 0;
        k.srv.cfg.coalesce = coalesce;
        k.srv.chunker = [&](const std::string &b) -> std::vector<std::string> {
            int m = n++;
            longest = std::max(longest, b.size());
            if (step)
                return bytes_of(b, step);
            if (m == msg && at < b.size())
                return {b.substr(0, at), b.substr(at)};
            return one_chunk(b);
        };
        k.connect();
        if (!k.up())
            mc::fail("negotiation-up",
                     "%s: does not come up with message %d split at %zu, "
                     "pieces of %zu, %s",
                     flavour_name[f], msg, at, step,
                     coalesce ? "header and features together" : "");
        k.srv.send("<message id='x'>&lt;\xc3\xa9</message>");
        k.c.settle(100);
        k.srv.send("</stream:stream>");
        k.c.settle(100);
        std::string r = k.all(0) + "sent " + k.srv.plain_all;
        if (!k.c.disconnected()) {
            k.srv.close();
            k.c.settle(50);
        }
        k.c.release();
        mc::evaluated(1);
        return std::make_tuple(r, n, longest);
    };
    auto w = play(-1, 0, 0, false);
    int msgs = std::get<1>(w);
    size_t longest = std::get<2>(w);
    auto cmp = [&](int m, size_t at, size_t step, bool co) {
        auto g = play(m, at, step, co);
        if (std::get<0>(g) != std::get<0>(w) && !mc::failed())
            mc::fail("negotiation-split",
                     "%s: message %d split at %zu, pieces of %zu%s: %s instead "
                     "of %s",
                     flavour_name[f], m, at, step, co ? " (coalesced)" : "",
                     mc::printable(std::get<0>(g), 1500).c_str(),
                     mc::printable(std::get<0>(w), 1500).c_str());
    };
    int which = mc::choose(msgs + 1, "message");
    if (which == msgs) {
        for (size_t s = 1; s < 40 && !mc::failed(); s++)
            for (int co = 0; co < 2; co++)
                cmp(-1, 0, s, co);
        cmp(-1, 0, 0, true);
        return;
    }
    for (size_t at = 1; at < longest && !mc::failed(); at++)
        cmp(which, at, 0, false);
}
// a connection that was lost in the middle of anything, then the next one
void run_reconnect()
{
    Flavour f = choose_flavour();
    size_t nc = contents().size();
    int i = mc::choose((int)nc, "contents");
    const std::string d = contents()[i];
    int mode = mc::choose(3, "how the first one ends"); // EOF, error, user
    mc::allow_secs(60);
    const std::string second = "<message id='n'>y<e xmlns='u'/>z</message>";
    std::string want;
    std::vector<size_t> cuts;
    for (size_t c = 0; c <= d.size(); c++)
        if (mc::thorough() || d.size() < 24 || c % 3 == 0 || c + 2 > d.size())
            cuts.push_back(c);
    for (int run = -1; run < (int)cuts.size() && !mc::failed(); run++) {
        sim::reset();
        Conn k(f);
        k.connect();
        k.srv.muted = true;
        if (run >= 0)
            k.srv.send(d.substr(0, cuts[run]));
        k.c.settle(60);
        k.srv.muted = false;
        if (mode == 2)
            xmpp_disconnect(k.c.conn);
        if (mode == 1 && k.srv.sk())
            k.srv.sk()->rst = 104;
        else
            k.srv.close();
        k.c.settle(60);
        k.c.run_for(4000);
        if (!k.c.disconnected()) {
            mc::fail("harness:end", "%s: the first connection did not end",
                     flavour_name[f]);
            return;
        }
        size_t from = k.seen.ev.size();
        k.connect();
        if (!k.up()) {
            mc::fail("reconnect-up",
                     "%s: no second connection after \"%s\"", flavour_name[f],
                     mc::printable(d.substr(0, run < 0 ? 0 : cuts[run])).c_str());
            return;
        }
        size_t from2 = k.seen.ev.size();
        k.srv.send(second);
        k.c.settle(60);
        std::string g = k.all(from2);
        (void)from;
        k.srv.close();
        k.c.settle(60);
        k.c.release();
        mc::evaluated(1);
        if (run < 0)
            want = g;
        else if (g != want)
            mc::fail("reconnect",
                     "%s: after \"%s\" the next connection delivers %s instead "
                     "of %s",
                     flavour_name[f],
                     mc::printable(d.substr(0, cuts[run])).c_str(),
                     mc::printable(g).c_str(), mc::printable(want).c_str());
    }
}
} // namespace

void register_scenarios()
{
    mc::add("contents", run_contents, 0);
    mc::add("documents", run_documents, 0);
    mc::add("partitions", run_partitions, 0);
    for (auto &a : alphabets()) {
        const Alphabet *p = &a;
        mc::add(mc::fmt("tokens-%s", a.name),
                [p] { run_tokens(*p, mc::thorough() ? p->deep : p->quick - !exact_structure); },
                0);
    }
    mc::add("big", run_big, 0);
    mc::add("reset", run_reset, 0);
    mc::add("from-string", run_from_string, 0);
    mc::add("interleave", run_interleave, 0);
    mc::add("nested", run_nested, 0);
    mc::add("conn", run_conn, 0);
    mc::add("conn-big", run_conn_big, 0);
    mc::add("restart", run_restart, 0);
    mc::add("negotiation", run_negotiation, 0);
    mc::add("reconnect", run_reconnect, 0);
}
