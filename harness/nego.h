// Negotiation explorer shared by C02 and C03: a server that can offer and
// answer anything, and monitors over the transcript.
#pragma once
#include "world.h"
#include <strings.h>
using namespace world;

extern const char *MON; // the property this binary reports

struct NoCase {
    bool operator()(const std::string &a, const std::string &b) const
    {
        return strcasecmp(a.c_str(), b.c_str()) < 0;
    }
};
struct Offer {
    bool seen = false, starttls = false, zlib = false, bind = false,
         session = false, session_opt = false, sm = false;
    std::set<std::string, NoCase> mechs;
};

enum Policy { P_DEFAULT, P_DISABLE, P_MANDATORY, P_SSL, NPOL };
static const char *polname[] = {"default", "TLS disabled", "TLS mandatory",
                                "legacy SSL"};

inline std::string certdir()
{
    std::string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/certs/";
}

struct Nego {
    Client c;
    Server srv;
    int pol = P_DEFAULT;
    bool legacy = false, compress = false, sm_off = false, cert = false,
         component = false;
    std::string jid = "user@example.org/res", pass = "secret";
    int early = 0; // how the user submits stanzas before connected
    bool deviations = false;
    bool fail_all_auth = false;
    // --- monitor
    int mconn = -1;
    Offer cur, uni;
    bool expect_open = false, restart_due = false;
    Step out = S_NSTEPS;
    std::string out_id, out_previd, out_mech;
    bool challenged = false, said_success = false, said_legacy = false,
         bind_ok = false, session_ok = false, resumed = false,
         said_handshake = false, tls_asked = false, zlib_on = false,
         tls_failed = false;
    int nconnect = 0, early_n = 0, odd = 0; // odd: the server misbehaved
    std::vector<std::pair<uint64_t, std::string>> later;

    Nego();
    void setup(); // apply configuration (disconnected)
    int connect();
    void newconn();
    bool on_msg(Server &, Msg &);
    bool menu(Msg &);
    void sent(const std::string &xml);
    void note(const Note &);
    void bad(const char *prop, const std::string &key, const char *f, ...)
        __attribute__((format(printf, 4, 5)));
    void user_early();
    void run(int iterations = 40);
    void run_time(uint64_t ms);
    std::string dom() const;
    std::string res() const;
    bool strong_offered() const;
    void reply(const std::string &x)
    {
        if (!srv.muted)
            srv.send(x);
    }
};
