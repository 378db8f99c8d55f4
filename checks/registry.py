# Build variants of the library and the units (binaries) of every check.
VARIANTS = {
    # ./configure (OpenSSL, expat, zlib, res_query)
    "default": {
        "backends": ["parser_expat.c", "tls_openssl.c", "compression.c"],
        "defs": {"HAVE_ZLIB": "1"},
        "libs": ["-lssl", "-lcrypto", "-lexpat", "-lresolv", "-lz"],
    },
    # --with-gnutls --with-libxml2 --enable-cares
    "alt": {
        "backends": ["parser_libxml2.c", "tls_gnutls.c", "compression.c"],
        "defs": {"HAVE_ZLIB": "1", "HAVE_CARES": "1"},
        "cflags": ["-I/usr/include/libxml2"],
        "hflags": ["-DSIM_GNUTLS=1"],
        "libs": ["-lgnutls", "-lssl", "-lcrypto", "-lxml2", "-lcares", "-lresolv",
                 "-lz"],
    },
    # --disable-tls --disable-zlib --disable-getrandom
    "minimal": {
        "backends": ["parser_expat.c", "tls_dummy.c", "compression_dummy.c"],
        "defs": {"DONT_USE_GETRANDOM": "1"},
        "libs": ["-lssl", "-lcrypto", "-lexpat", "-lresolv", "-lz"],
    },
}

# calls of the library that are answered by the simulated environment
WRAPS = """gettimeofday clock_gettime time usleep getrandom socket setsockopt
getsockopt fcntl fcntl64 connect close getpeername recv send select res_query
__res_query getaddrinfo freeaddrinfo SSL_set_fd SSL_free SSL_connect
SSL_do_handshake SSL_read SSL_read_ex SSL_write SSL_write_ex SSL_pending
SSL_has_pending SSL_get_error SSL_shutdown SSL_get_verify_result SSL_version
SSL_export_keying_material SSL_session_reused SSL_get_finished SSL_get_peer_finished
SSL_CTX_set_default_verify_paths abort __assert_fail""".split()

SIM = ["sim.cpp", "xml.cpp"]
WORLD = SIM + ["world.cpp", "sasl_ref.cpp", "fastnew.cpp"]

CHECKS = {}


def check(prop, units, what, assumptions=(), **kw):
    CHECKS[prop] = dict(units=units, what=what, assumptions=list(assumptions),
                        **kw)


def unit(name, src, base=SIM, variant="default", **kw):
    return dict(name=name, sources=list(base) + [src], variant=variant, **kw)


# ---------------------------------------------------------------------------
check("C18", [unit("c18", "c18.cpp")],
      "xmpp_base64_encode / decode_bin / decode_str on every byte string of up "
      "to N bytes and every candidate text up to M characters over a reduced "
      "alphabet, against an independent RFC 4648 codec, with two different "
      "allocator fill patterns to expose uninitialised output")

check("C17", [unit("c17", "c17.cpp", internal=True)],
      "SHA-1/256/512, MD5 and the xmpp_sha1_* API on every message length up to "
      "420 (1100) bytes with every two-way split, every uniform step, all "
      "three-way splits around the block sizes, one message longer than 2^32 "
      "bits; HMAC through SCRAM_ClientKey/Signature for all key lengths to 300 "
      "and text lengths to 600; compared with OpenSSL",
      ["OpenSSL's digests and PBKDF2 are the standard values"])

check("C19", [unit("c19", "c19.cpp")],
      "xmpp_jid_node/domain/resource/bare on every string up to length 8 over "
      "{a @ / . : \\xff} (length 11 over {a @ /}), every pair of bytes, long "
      "strings; xmpp_jid_new on all combinations of part texts, every byte in "
      "the local part and part lengths around the limits, each split again",
      ["length limit per part is 1023 bytes (RFC 7622)",
       "an empty (as opposed to NULL) domain may be accepted or refused"])

check("C15", [unit("c15", "c15.cpp", internal=True, weight=3),
              unit("c15-cares", "c15.cpp", internal=True, variant="alt")],
      "resolver_srv_lookup_buf (own decoder and the c-ares build) on generated "
      "well-formed responses (10 target forms x record kinds x owner forms, up "
      "to 3 answers; orderings of up to 6 records), all truncations, all one "
      "byte changes, pairs of byte changes, all pointers, forged counts and "
      "lengths, long pointer chains; every response that a strict reference "
      "decoder accepts must be decoded exactly")

check("C06", [unit("c06", "c06.cpp", base=WORLD)],
      "every sequence of send / drop-oldest / drop-youngest / library send / "
      "run_once up to the depth bound, on clear, TLS and SM connections, with "
      "every placement of up to K short writes (1 byte, half, all but one), "
      "EAGAIN and EINTR; wire compared with a FIFO reference model after every "
      "operation, queue length and dropped texts compared with it",
      ["an element whose first write was refused without progress may count "
       "as started or not"])

check("C13", [unit("c13", "c13.cpp", base=WORLD)],
      "seven negotiation flavours (plain, TLS, session+SM, compression, legacy "
      "auth, component, legacy SSL) x every stage x 15 ways to end, each "
      "followed by a reconnect; every combination of answers just in time or "
      "late on a virtual clock; TCP time-outs over up to 3 addresses; all 256 "
      "flag sets; every stream error condition x text x stage; all histories "
      "of API calls and server events up to the depth bound; automaton over "
      "notifications and state predicates after every event-loop iteration",
      ["the clock only moves forward"])

NEGO = WORLD + ["nego.cpp"]
check("C02", [unit("c02", "c02.cpp", base=NEGO)],
      "every set of mechanisms before x after TLS (64 x 64) x TLS policy x "
      "legacy auth x client certificate x STARTTLS offered, with successful and "
      "always failing authentication; every single (pair of) unusual server "
      "answer at every step; all spellings and orders of the mechanism list; "
      "two connections of one object with different policies and offers; all "
      "flag sets and two-call histories; transcript monitor over every element "
      "the client sends on the clear and the TLS layer",
      ["mechanisms are offered by a connection if any of its streams offered "
       "them", "an <auth/> without initial response carries no authentication "
       "data"])

check("C03", [unit("c03", "c03.cpp", base=NEGO)],
      "all combinations of stream features x client configuration; every one "
      "or two (three) unusual answers at any steps in seven flavours, including "
      "late, repeated and misplaced ones and 16 s of silence; addresses with "
      "special characters; two connections of one object with different offers "
      "and every kind of interruption at every stage; every answer to a "
      "resumption; features of every shape; user stanzas submitted in every "
      "way before every step; transcript monitor over every element the client "
      "sends and every notification")

SMX = WORLD + ["sm.cpp"]
check("C04", [unit("c04", "c04.cpp", base=SMX)],
      "every sequence of send / partial write / acknowledge / drop / <r/> events "
      "up to the depth bound in one session; every history of up to 2 (3) "
      "sessions: sends x transport limits x acknowledgements x way of losing the "
      "connection x same object / moved state / restored state x outcome of the "
      "resumption (every h, every kind of failure, lost in between) x transport "
      "limits while sending again; acknowledgements without a number; counters "
      "around 2^31 and 2^32; wire order, persisted counters and queues compared "
      "with a reference model after every event and at every callback",
      ["each send call carries one stanza", "an h beyond what was sent "
       "acknowledges everything sent", "what was never written is not carried "
       "over a reconnect"])

check("C05", [unit("c05", "c05.cpp", base=SMX)],
      "every sequence of incoming elements (message, presence, iq, <r/>, <a/>, "
      "stanzas that contain stream-management elements, prefixes, white space, "
      "comments) and of disconnect/resume cycles up to the depth bound, half "
      "received and undelivered stanzas, all chunk sizes and every chunk "
      "boundary, blocked transports, elements next to <enabled/> and <resumed/>, "
      "counters around 2^31 and 2^32; the h of every <a/> and <resume/> and of "
      "the persisted state compared with the number of stanzas delivered",
      ["stanzas are message, presence and iq elements"])

check("C16", [unit("c16", "c16.cpp", base=SMX)],
      "every state of every shape up to the bounds (counters around 2^31 and 2^32, "
      "ids, texts incl. empty, with NUL, large; queues up to 20000 elements) and "
      "every state handed out by every session history up to the depth: restored, "
      "serialized again, dropped from both ends, resumed with every h on the wire; "
      "every single-byte change, truncation, extension, cut-out, duplication, pair "
      "of length/count/number fields, pair of type bytes, every short token "
      "string: refused unless an independent parser accepts it, exact-size buffers "
      "under AddressSanitizer, then a second restore, a connection, release",
      ["a well-formed string with other numbers or texts may be accepted as that "
       "state or refused", "request elements of the unsent queue come back as user "
       "elements"])

check("C14", [unit("c14", "c14.cpp", base=WORLD)],
      "every SRV answer of up to 3 targets (priorities, weights) x 0..2 addresses "
      "per target x every address accepting or refusing at once, refusing late or "
      "never answering (kinds of failure deviation-bounded) x accepting at once or "
      "just before the time limit x loop slice x a second attempt; sort keys over "
      "the whole 16-bit range for 2 and 4 targets; up to 19 targets x 6 addresses; "
      "mode x explicit host x port x SRV result; socket option callbacks that "
      "fail; every connect(2) compared with the next candidate of a reference, "
      "giving up compared with what is left, the stream header's endpoint",
      ["targets with equal priority and weight may be tried in either order"])

check("C11", [unit("c11", "c11.cpp", base=WORLD)],
      "every filter against every stanza shape; every initial list of up to 3 "
      "(4) handlers (shared or own callbacks) x stanza sequences x up to 2 (3) "
      "actions (add, delete, delete and add again, send, return false) at any "
      "positions of any dispatch; every sequence of 3 (4) registrations, "
      "deletions, stanzas and reconnects; every list of 5 (6) x subset that "
      "returns false x position of a deletion; timed and context-wide handlers: "
      "every three periods x actions (also slow callbacks and disconnects) x "
      "clock advances, all advances around the period, every connection state; "
      "every callback compared with a reference list",
      ["a handler that deletes itself, registers again and returns false may "
       "be kept or dropped (not enumerated)"])

check("C01", [unit("c01", "c01.cpp", base=WORLD)],
      "13 kinds of connection (every mechanism, STARTTLS, legacy SSL, "
      "compression, SM, resumption, legacy auth, component, raw): any reply "
      "replaced, preceded or followed by any of 120 odd elements and fragments "
      "or 50 odd answers to the request (one, two, three times per session), "
      "whole and byte by byte; every byte of every reply cut, dropped, doubled, "
      "changed; every split; every token string up to the bound; every "
      "combination of odd SCRAM and DIGEST-MD5 fields; broken, ended and "
      "exploding deflate streams; handshake outcomes; elements of up to 300000 "
      "levels and 70000 bytes. Memory errors, aborts and spinning found by the "
      "sanitizers and by counting system calls; afterwards the connection is "
      "used, ended, opened again and released",
      ["the SCRAM iteration count stays below 10^5"])

check("C20", [unit("c20", "c20.cpp", base=WORLD)],
      "every program of stanzas (sizes around the staging buffer, mixtures of "
      "compressible and incompressible ones) is run without and with "
      "compression, clear and over TLS, with and without SM, both reset modes: "
      "the bytes an independent zlib peer inflates are those of the plain run, "
      "after each loop iteration when nothing blocks; transports that take 1..n "
      "bytes per call, refuse every nth call, any single or two writes short or "
      "refused, every schedule of the first writes; inbound every level and flush "
      "mode, chunk size, split, short read, size around the buffers, both "
      "directions at once; offers, confirmations and refusals; reconnects",
      ["a compression request that is not confirmed may leave the negotiation "
       "waiting"])

check("C09", [unit("c09", "c09.cpp", base=SIM,
                   cflags=["-I/usr/include/libxml2"], libs=["-lxml2"])],
      "every stanza tree of up to 5 (6) nodes over names, namespaces, "
      "attributes and texts; every XML character in every position; every "
      "string over the markup characters up to a length; every rendered size "
      "around the 1024-byte buffer with every kind of token at the boundary; "
      "all attribute sets under set/replace/delete; copies modified on either "
      "side; reply and error helpers with every condition; and an explicit- "
      "state search over all programs of stanza API calls whose every "
      "transition is executed: the rendered text is read back by libxml2, by "
      "xmpp_stanza_new_from_string and by a strict reader of the harness and "
      "compared with the model tree, length with the string",
      ["jabber:client is the implied namespace at the top level",
       "adjacent text nodes coalesce and empty text vanishes on re-reading"])

check("C12", [unit("c12", "c12.cpp", base=WORLD + ["nego.cpp"],
                   cflags=["-I/usr/include/libxml2"],
                   libs=["-lxml2"] + ["-Wl,--wrap=" + f for f in
                         "malloc calloc realloc strdup strndup".split()]),
              unit("c12-hostile", "c01.cpp", base=WORLD,
                   cflags=["-DC01_ALLOC"], weight=0.4)],
      "explicit-state search over all programs of stanza API calls "
      "(references, parents, children, copies, replies, own pointers) on a "
      "tracking allocator with poisoned blocks, freed blocks never reused, "
      "under AddressSanitizer; connections of 16 kinds stopped after every "
      "step of the negotiation in six ways and with every deviating answer of "
      "the server, lives of several connect/disconnect cycles, all setters "
      "with every old value, SM state handed over between connections, "
      "references held beyond the end, parsers of several contexts; the hostile "
      "servers of C01 with every block counted; every "
      "call to malloc and friends during library calls is attributed to its "
      "caller; at the end every block was returned exactly once",
      ["running out of memory is not explored",
       "OpenSSL, libxml2, c-ares and the C library's own allocations can not "
      "be routed through the context",
       "xmpp_conn_release inside a callback is not explored"])

check("C10", [unit("c10", "c10.cpp", base=WORLD,
                   cflags=["-I/usr/include/libxml2"], libs=["-lxml2"]),
              unit("c10-libxml2", "c10.cpp", base=WORLD, variant="alt",
                   cflags=["-DC10_COALESCE=1"])],
      "167 stream contents and 46 documents (entities, character references, "
      "CDATA, comments, PIs, namespaces, encodings, DTDs, multi-byte characters, "
      "ill-formed ones of every sort) plus every token string over nine "
      "alphabets up to the depth bound: in one piece against libxml2, then every "
      "two-way (and for short ones three-way or every) partition, uniform "
      "pieces, every prefix; contents around buffer sizes; every prefix followed "
      "by a parser reset and another document; two parsers in turns, a parser "
      "inside a callback; xmpp_stanza_new_from_string; the same contents over "
      "six kinds of connection (clear, TLS, zlib, SM, raw, component) with "
      "splits of each message of the negotiation, lost connections and restarts "
      "at every byte",
      ["libxml2 reports what a well-formed document contains",
       "attributes are compared by local name, the one without a prefix first",
       "elements deeper than 2048 levels are a parse error"])

check("C08", [unit("c08", "c08.cpp", base=WORLD, weight=4)],
      "the real client against a real OpenSSL server in the same process, with "
      "certificates made at run time: 32 certificates (names, validity, ten kinds "
      "of chains, forged and damaged signatures) x policy (strict, trust, callback "
      "accepting or refusing always / once / the first / the second) x way of "
      "starting (STARTTLS, legacy SSL, raw) x trust store (file, directory, system, "
      "none, wrong, missing) x TLS version x mandatory; 14 domains x 35 name "
      "patterns x second names; common names; hosts and JIDs that name somebody "
      "else; handshakes in pieces, cut or damaged at every position; servers "
      "without certificate or TLS; reused and concurrent connections; client "
      "certificates. A decision table says whether the session must or must not "
      "be trusted; transcript of what is sent in the clear after the attempt, "
      "is_secured, callback arguments, notifications",
      ["OpenSSL builds and checks the chain; validity is judged by the real clock",
       "the common name is either way if there are no DNS names, and so are "
       "wildcards over a public suffix label, ACE labels and trailing dots",
       "GnuTLS and schannel are not covered"])

check("C07", [unit("c07", "c07.cpp", base=WORLD, weight=4),
              unit("c07-drbg", "c07.cpp", base=WORLD, variant="minimal",
                   cflags=["-DC07_MINI"])],
      "the peer of every connection is an independent server side of SCRAM, "
      "SCRAM-PLUS, DIGEST-MD5, PLAIN, EXTERNAL, ANONYMOUS, jabber:iq:auth and "
      "XEP-0114 that parses each message with the strict grammar and "
      "recomputes it: mechanisms x TLS none/1.2/1.3/resumed x user names x "
      "passwords (every block-size boundary) x salts x iteration counts x "
      "server nonces x extensions; challenges that must be refused; every set "
      "of offered mechanisms with every fallback; DIGEST-MD5 challenges from "
      "a grammar (quoting, lists, charset, separators, order, unknown "
      "directives) x credentials; credentials changed between attempts; "
      "nonces of all attempts of a connection, of reconnects and of several "
      "contexts pairwise distinct (getrandom and built-in generator)",
      ["OpenSSL's HMAC, PBKDF2 and digests are the standard values",
       "channel binding data is what the TLS library reports (simulated)",
       "the user name is already prepared; passwords for which SASLprep is not "
      "the identity are a known finding"])
