// Independent, deliberately simple XML reader used to observe the wire.
// It supports what XMPP streams may contain: elements, attributes, namespaces,
// character data, the five predefined entities, character references, CDATA.
#pragma once
#include <map>
#include <string>
#include <vector>

struct Node {
    bool text = false;
    std::string data;  // text
    std::string name;  // local name
    std::string ns;    // effective namespace
    std::map<std::string, std::string> attrs; // "{ns}local" or "local"; no xmlns
    std::vector<Node> kids;
    std::string alltext() const; // direct text children
    const Node *child(const std::string &name,
                      const std::string &ns = "*") const;
    std::string attr(const std::string &k, const std::string &d = "") const;
    bool has(const std::string &k) const { return attrs.count(k) > 0; }
    std::string str() const; // canonical form
};
std::string xml_escape(const std::string &s);

struct Ev {
    enum T { OPEN, ELEM, CLOSE, PROLOG, ERR, SPACE } t;
    Node n;
    std::string raw;
    size_t start = 0, end = 0; // byte offsets in the stream
};

// reads a sequence of XMPP streams (restarts allowed at depth 1)
class StreamReader
{
  public:
    std::vector<Ev> feed(const std::string &bytes);
    bool broken = false;
    std::string err;
    size_t consumed() const { return base + pos; }
    std::string pending() const { return buf.substr(pos); }
    int opens = 0;

  private:
    std::string buf;
    size_t pos = 0, base = 0;
    bool in_stream = false;
    std::map<std::string, std::string> rootns;
    std::string roottag;
    // returns 1 done, 0 need more, -1 error
    int element(size_t &p, Node &n, std::map<std::string, std::string> nsm,
                bool only_open, std::map<std::string, std::string> *out_ns,
                bool *self_closed, std::string *qname);
    int markup_end(size_t p, size_t &e);
};

// parse one complete document fragment; false if not well formed
bool xml_parse_one(const std::string &s, Node &out,
                   const std::string &default_ns = "");
